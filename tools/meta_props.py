HOOK_COMMITS = ["7fd6eea"]
S, F, H, I, C = "schedules", "fault_sequences", "histories", "inputs", "configurations"

prop("C01", "The concurrent queue is a linearizable FIFO that loses and duplicates nothing",
     "Under any interleaving of producers, consumers and control calls, the concurrent queue behaves like one sequential FIFO: every item pushed is delivered to exactly one consumer or is still queued or was discarded by a clear, and items come out in the order they went in. "
     "A consumer waiting on an empty queue is woken whenever an item becomes available, and an interrupt releases every waiting consumer and stays in force until it is reset. "
     "An operation that fails (for example because memory runs out) leaves the queue as it was.",
     (S, F, H), "all interleavings of 2-6 threads calling push, blocking pop, non-blocking pop, empty, clear, interrupt and reset; spurious wake-ups, stalled threads and failing allocations at any point",
     "The suite runs the queue from real threads and sees the few schedules the machine happens to produce; lost wake-ups, races in clear/reset and failure in push need a specific interleaving or fault.",
     ["dal/concurrency/concurrentqueue.hpp"], [("mutex + condition variable around std::queue", "dal/concurrency/concurrentqueue.hpp: ConcurrentQueue_")],
     observe=["return values of the queue's operations"])

prop("C02", "Every task given to a running pool runs exactly once and its outcome is reported",
     "Every task submitted to a running thread pool is executed exactly once, and its future delivers either its result or the exception it threw, whatever the schedule, the number of workers and the failures of other tasks. "
     "A thread waiting on a future through the pool helps with queued tasks and returns only when that future is ready, so tasks that submit and wait for further tasks make progress with any number of workers, including none. "
     "While it runs, each worker sees a stable thread number of its own between 1 and the number of workers, and threads that are not workers see 0.",
     (S, F, H, C), "all interleavings of client threads, workers and nested fork-join tasks, pools of 0-4 workers, throwing tasks, failing allocations in submit, spurious wake-ups and stalls",
     "Tests submit a few tasks to an idle pool; deadlock of nested waits, double execution and lost tasks show only under particular orders of worker wake-up and queueing.",
     ["dal/concurrency/threadpool.hpp", "dal/concurrency/threadpool.cpp", "dal/concurrency/concurrentqueue.hpp"],
     [("packaged tasks on one shared queue, worker loop, helping wait", "dal/concurrency/threadpool.cpp: ThreadFunc, ActiveWait; threadpool.hpp: SpawnTask")],
     observe=["task side effects, futures, ThreadNum()"])

prop("C03", "The pool starts, stops and restarts cleanly at any moment",
     "Starting and stopping the pool, in any order and any number of times, from any thread and with tasks still queued, always returns: starting a started pool and stopping a stopped pool change nothing, and after a start the pool has the requested workers and executes new tasks. "
     "After a stop returns no worker executes any task any more, and every task submitted before the stop has by then run or reports that it never will, instead of leaving whoever waits for it waiting for ever. "
     "If a worker thread cannot be created, the start fails or runs with what it has, and the pool can still be stopped, restarted and used.",
     (S, F, H, C), "all interleavings of start, stop, submit and wait; thread creation failing with EAGAIN at any worker; unknown hardware concurrency; failing allocations; stalls",
     "The suite starts the pool once per process and never stops it under load or with failing thread creation.",
     ["dal/concurrency/threadpool.hpp", "dal/concurrency/threadpool.cpp"],
     [("interrupt flag, queue interrupt, join in Stop", "dal/concurrency/threadpool.cpp: Start, Stop")], observe=["futures, worker count, liveness"])

prop("C04", "Monte-Carlo results do not depend on threads, batches or schedule",
     "The result of a Monte-Carlo valuation is a function of product, model, generator and path count only: it is the same, up to rounding of the summation order, as simulating the paths one after the other, whatever the number of workers, the batch boundaries, the schedule and other valuations running at the same time or started from within pool tasks. "
     "Path i always uses the i-th point of the random stream: skipping a generator to a point gives the same draws as generating up to it, for every generator, dimension and skip, and a copy of a generator continues independently with the same settings.",
     (S, F, C, I), "all interleavings of up to 3 concurrent or nested valuations on pools of 0-4 workers, path counts around batch boundaries, both pseudo-random generators with and without their precision option, skips to any point",
     "Tests compare one parallel price with a closed form within a wide Monte-Carlo tolerance and skip generators at a few points; a duplicated, dropped or displaced batch stays inside that tolerance.",
     ["dal/script/simulation.hpp", "dal/script/simulation.cpp", "dal/math/random/pseudorandom.cpp", "dal/math/random/base.hpp", "dal/concurrency/threadpool.cpp"],
     [("batches with a private generator skipped to the batch's first path", "dal/script/simulation.hpp: MCSimulation"), ("SkipTo / Clone", "dal/math/random/pseudorandom.cpp")],
     observe=["SimResults_ values", "generated normals and uniforms"], hook="DAL_SIMULATION: batch size settable (production size 8192 would need huge path counts)",
     level_note="The batch size is reduced through the guarded hook so that small path counts span several batches.")

prop("C05", "Monte-Carlo sensitivities do not depend on threads, batches or schedule",
     "Value and all sensitivities of an adjoint Monte-Carlo valuation equal those of simulating and differentiating the paths one after the other, up to rounding, whatever the workers, batches, schedule, fuzzy-logic option and concurrent valuations, and every sensitivity is found under the name of its parameter or constant, also in a copy of the results. "
     "A valuation leaves no trace: the calling thread can be in the middle of recording its own adjoint calculation and finds it undisturbed afterwards, and a worker can be reused for any later valuation.",
     (S, F, C, H), "all interleavings of adjoint valuations on pools of 0-4 workers, repeated and concurrent valuations, a recording in progress on the caller, failing allocations and tasks in earlier valuations",
     "Tests run one adjoint valuation per process from a clean thread and compare a few risks with loose tolerances.",
     ["dal/script/simulation.hpp", "dal/script/simulation.cpp", "dal/math/aad/tape.hpp", "dal/math/aad/blocklist.hpp", "dal/math/aad/expr.hpp"],
     [("one tape per thread, mark/rewind around each path, per-task model copies, risk accumulation", "dal/script/simulation.hpp: MCSimulation<Number_>")],
     observe=["SimResults_ values and risks, caller's own adjoints"], hook="DAL_SIMULATION: small batches and tape blocks")

prop("C06", "A failing Monte-Carlo valuation raises, leaves nothing running, is repeatable",
     "If any part of a Monte-Carlo valuation fails, the valuation raises an error instead of returning a number; it never returns a result that misses the paths of a failed task. "
     "When it returns or raises, no background task still touches the caller's product, model or results. "
     "Afterwards the same and other valuations give correct results again.",
     (S, F, H), "product or model raising on an arbitrary path, allocation failure at an arbitrary allocation of any worker or the caller, task submission failing, on pools of 0-4 workers, followed by further valuations",
     "No test makes a task or an allocation fail.", ["dal/script/simulation.hpp", "dal/script/simulation.cpp", "dal/concurrency/threadpool.cpp"],
     [("futures of all batches are waited for and their exceptions rethrown", "dal/script/simulation.hpp: MCSimulation")],
     observe=["exceptions, results, use of freed memory"], hook="DAL_SIMULATION: small batches")

prop("C07", "The object repository is linearizable and never hands out dead or wrong objects",
     "Adding, replacing, fetching, searching, counting and erasing objects in the repository, from any threads, act as if each happened at one instant: a replacement is never seen half done (neither both objects nor none), and what a call returns is consistent with one order of all calls. "
     "A fetched object is exactly the one that was added under that tag, keeps its content while anyone holds it even after being erased, and is released once erased and dropped. "
     "A call that fails changes nothing.",
     (S, F, H), "all interleavings of 2-4 threads over 2-6 objects of three types and names that begin like each other, all replacement modes, malformed patterns, failing allocations in any call; objects owned by nobody but the repository and those who fetched them",
     "Tests use the repository from one thread.", ["dal/storage/_repository.cpp", "dal/storage/_repository.hpp", "public/src/repository.cpp"],
     [("one mutex around the tag map", "dal/storage/_repository.cpp")], observe=["ObjectAccess_ and public repository functions"])

prop("C08", "Global dates and fixings are atomic, keep every update and restore their scopes",
     "Reading and setting the global evaluation and accounting dates and appending to or replacing global fixings act atomically from any threads: no reader sees a partial or never-set value, and no appended fixing is lost. "
     "A date never set defaults to the current day of the clock when it is first used and stays at that day however the clock moves later. "
     "A scoped override is in force exactly during its scope, also when nested or left by an exception, and an update that fails leaves the previous value.",
     (S, F, H), "all interleavings of 2-4 threads, clock jumps across midnight in both directions, failing allocations in every call, default and custom stores, nested scopes",
     "Tests set and read from one thread with the machine's clock and never fail an update.",
     ["dal/storage/globals.cpp", "dal/storage/globals.hpp", "dal/storage/_repository.cpp", "public/src/globals.cpp", "dal/platform/host.cpp"],
     [("stores behind a lock, default written on first read, RAII overrides", "dal/storage/globals.cpp")], observe=["Global::Dates_, Global::Fixings_, XGLOBAL"])

prop("C09", "Registries and one-time initialisation are safe under concurrency and retry",
     "Registering and looking up holiday centres, index parsers and additional day counts, and building combined calendars, act atomically from any threads: a registration is visible to every later lookup, none is lost or half visible, and a duplicate centre or day-count name is refused without any effect. "
     "However many threads initialise the library at once, when any of their calls returns every built-in calendar, currency convention and index parser is there, exactly once. "
     "An initialisation or registration that fails can be repeated until it succeeds, with the same result.",
     (S, F, H), "all interleavings of 1-4 initialising threads and 2-4 registering and reading threads, failing allocations and thread creation in any call, with retries",
     "Tests initialise once, from one thread, before anything else runs.",
     ["dal/time/holidaydata.cpp", "dal/time/holidays.cpp", "dal/time/daybasis.cpp", "dal/auto/MG_DayBasis_enum.inc", "dal/indice/indexparse.cpp", "dal/indice/parser/init.cpp", "dal/time/calendars/init.cpp", "dal/currency/currencydata.cpp", "dal/currency/init.cpp", "dal/platform/initall.cpp"],
     [("registry locks and initialised flags", "the files above")], observe=["Holidays_, CountBusDays_, Index::Parse, RegisterAll_::Init"])

prop("C10", "A save that reports success left the whole file on disk; any failure is raised",
     "Saving an object as JSON or as a table, or lines of text, to a file either returns and the file then holds exactly the full text, replacing whatever was there, or raises an error; a full disk, an I/O error at any byte, a failing open or close, interrupted and short writes and lack of memory never pass unnoticed. "
     "Without such a failure saving does not raise. "
     "Whatever happens, no file stays open, and once the disk works again the same save succeeds; "
     "removing a file removes it or raises.",
     (F, I, H, S), "every kind of storable object and line list of generated sizes, an older file in place or not, faults at any open, write and close, any byte offset, failing allocations, 1-3 threads saving at once",
     "Tests write small files on a working disk.", ["dal/storage/json.cpp", "dal/storage/splat.cpp", "dal/utilities/file.cpp", "dal/storage/archive.hpp"],
     [("stream state checked after writing, flushing and closing", "dal/storage/json.cpp: WriteFile; dal/storage/splat.cpp: SplatFile; dal/utilities/file.cpp: Write, Remove")],
     observe=["bytes of the simulated file system, exceptions, open descriptors"])

prop("C11", "Loading gives the saved object or an error, on damaged and failing files too",
     "Loading a saved JSON, table or text file returns an object with exactly the content that was saved (every number, date, time to the second and text, whatever it contains, and every size, also none), with shared parts shared as before, or raises an error. "
     "Absent, truncated, corrupt or zero-filled files and read errors at any byte never crash, hang or corrupt memory, a truncated JSON document is never taken for a whole one, and a read error is never taken for the end of the file. "
     "Loading leaves the file unchanged and closed, and any number of threads can load at once.",
     (F, I, H, S), "every kind of storable object and line list of any sizes, finite numbers, dates and texts (a text in a JSON cell that looks like a date is one, and a blank cell is an empty text), truncation at any byte, any byte changed, zeroed tails, read errors and short reads at any byte, failing opens and allocations, 1-3 threads loading at once",
     "Tests round-trip a few small objects through strings on a working disk.",
     ["dal/storage/json.cpp", "dal/storage/splat.cpp", "dal/utilities/file.cpp", "dal/storage/archive.hpp", "dal/storage/box.cpp", "dal/storage/bag.cpp", "dal/curve/piecewiseconstant.cpp", "dal/math/interp", "dal/model", "dal/indice/fixings.cpp", "dal/script/event.cpp", "dal/risk/report.cpp", "dal/curve/ycimp.cpp", "dal/math/random", "dal/string/strings.cpp", "dal/time/date.cpp", "dal/time/datetime.cpp", "dal/auto"],
     [("parse-error checks, type dispatch, tag table, bounds checks of table views", "dal/storage/json.cpp: ReadFile; dal/storage/splat.cpp: UnSplat")],
     observe=["loaded objects re-read through their fields, exceptions, memory errors"])

prop("C12", "The adjoint tape gives exact derivatives after any history of use",
     "Whatever was recorded, marked, rewound, propagated, reset or cleared before, on however many threads each with its own tape and with recordings nested on one thread, the adjoints obtained are the exact derivatives of the recorded computation: from any result to the start, from many rewound paths to the mark and on to the start, and for several results in one sweep. "
     "Resetting makes every adjoint zero. "
     "A recording or clearing that fails for lack of memory leaves a tape that works again after a rewind, and ending a nested recording puts the previous tape back.",
     (H, F, S, I), "random computations of 1-6 inputs and up to hundreds of operations crossing block boundaries, all orders of record, mark, rewind, propagate, reset and clear, 1-3 threads, nested tapes, 1-4 results, failing allocations at any point",
     "Tests differentiate short fixed expressions on a fresh tape that fit in one block.",
     ["dal/math/aad/tape.hpp", "dal/math/aad/tape.cpp", "dal/math/aad/blocklist.hpp", "dal/math/aad/expr.hpp", "dal/math/aad/aad.hpp"],
     [("block lists with mark and rewind; reverse sweep", "dal/math/aad/blocklist.hpp, tape.hpp, expr.hpp")],
     observe=["Number_::Adjoint, node adjoints"], hook="DAL_SIMULATION: tape blocks of 16/32/64 entries so that small computations cross block boundaries")

prop("C13", "Errors carry exactly the notes open where they were raised",
     "An error's message holds its own text followed by exactly the notes open on the raising thread at that moment, outermost first, whatever other threads do. "
     "Leaving a scope, normally or by an error, closes its notes and no others, also while the stack is being unwound; a caught error leaves nothing behind. "
     "An error raised in a pool task reaches whoever waits for it unchanged, with the notes open where it was raised and none of its later handling; if memory runs out, the message is complete or the lack of memory is reported.",
     (H, S, F), "random nesting of all kinds of notes, up to 70 and more deep, raising, catching, rethrowing and destructors that raise, 1-4 threads and pool tasks, failing allocations in any call",
     "Tests raise single errors from one thread.", ["dal/utilities/exceptions.hpp", "dal/utilities/exceptions.cpp"],
     [("thread-local stack of notes, pushed and popped by scope objects", "dal/utilities/exceptions.cpp")], observe=["what() of raised errors"])

prop("C14", "Environments and auditors find, record and recall exactly what is in scope",
     "Looking something up in an environment finds the innermost entry of its type, or all of them innermost first, and leaving a scope, also by an error, restores the surrounding environment; threads sharing a base environment do not disturb each other. "
     "A past fixing is the value recorded in the innermost fixings in scope, or through the inverse exchange rate, and one that is not there raises an error, or gives minus infinity if asked quietly. "
     "Auditors in scope record each audited object once, in order, exclusive ones only the last per key; recalling gives the one object recorded, nothing if there is none, and an error if there are several; an audit that fails leaves each auditor with all or nothing of it.",
     (H, S, F), "random nestings of entries, fixings and auditors in all modes up to depth 6 over shared bases, audits, recalls and lookups, scopes left by errors, 1-3 threads, failing allocations in any call",
     "Tests cover one entry and no auditor.", ["dal/utilities/environment.hpp", "dal/utilities/environment.cpp", "dal/storage/audit.hpp", "dal/storage/audit.cpp", "dal/indice/index.cpp", "dal/indice/index/fx.cpp", "dal/indice/fixings.hpp"],
     [("linked environments, RAII additions", "dal/utilities/environment.hpp"), ("auditor modes", "dal/storage/audit.cpp")], observe=["Environment::Find/Collect/Iterate/Audit/Recall, Index fixings"])

prop("C15", "Threads sharing library services and objects get the answers one thread gets",
     "Any number of threads may use the library at once without locks of their own: parse and format dates, increments, enumerations, indices, text and cells; ask calendars, schedules, day counts, currency conventions; parse, preprocess and evaluate scripts; write and read JSON and tables in memory; price, invert, solve and roll back. "
     "They may share finished objects, such as interpolators, curves, calendars, decompositions, compiled products, models, product data and bags, and clone shared generators. "
     "Each gets exactly the answer one thread alone gets from a freshly initialised library, whatever was asked before by whom, also when a service is used for the first time by several threads at once and after requests that failed for lack of memory.",
     (S, H, F, I), "31 families of requests in 12 cases each, 1-4 requests per thread, 2-4 threads, all interleavings of their memory accesses, first use by several threads, failing allocations in any request with retry",
     "Tests ask one question at a time from one thread; hidden static state, caches and first-use initialisation show only under concurrency or a particular history.",
     ["dal/time", "dal/string", "dal/currency", "dal/indice", "dal/math", "dal/curve", "dal/script", "dal/model", "dal/storage", "dal/auto", "dal/protocol"],
     [("immutable objects and local statics; locked registries", "throughout")],
     observe=["every value, text and error the requests return, bit by bit"])

prop("C16", "Containers hold exactly what was put in, also after running out of memory",
     "Whatever the history of constructing, copying, assigning, moving, swapping, resizing, filling, clearing, pushing and popping, the library's matrices, multi-dimensional arrays and cubes, growing and fixed stacks, vectors, cells and dictionaries hold exactly the elements put in: resizing keeps every element that lies in both shapes, a row, column, slice or iterator shows the same elements as direct access, a stack gives the last element pushed first, and a dictionary finds a key in any spelling and refuses a second value for it; a report grows along its first axis only, keeps every value already written there, and refuses addresses outside its other axes. "
     "An operation on one of them that fails for lack of memory (other than filling, scaling or appending several elements) leaves it as it was and usable.",
     (H, F, I), "histories of up to 46 operations on two or three containers of numbers and of texts, sizes 0-4 per dimension (0-20 for vectors), up to 6 failing allocations at any point, freed memory reused at once or never",
     "Tests construct, fill and read containers once; growth across capacity, shrinking and failed allocations are not reached.",
     ["dal/math/matrix/matrixs.hpp", "dal/math/ndarray.hpp", "dal/math/ndarray.cpp", "dal/math/stacks.hpp", "dal/math/vectors.hpp", "dal/math/cell.hpp", "dal/utilities/dictionary.cpp", "dal/risk/report.cpp", "dal/protocol/underlying.cpp"],
     [("row hooks into one block; element moves; capacity doubling; condensed keys", "the files above")], observe=["sizes, elements, iterators, errors"])

prop("C17", "A product is valued as of one date and can be prepared any number of times",
     "A script product splits its events into past and future, measures its time line and is valued as of one evaluation date, one that was current while it was built, whatever other threads do to the global evaluation date meanwhile and afterwards. "
     "It can be prepared, simplified, compiled and evaluated again and again, in any order, with and without smoothing, and again after a preparation that failed for lack of memory: every time it asks for the same simulation data, has the same payoff and gives the same value for every variable on every path as a product prepared once. "
     "Those values are the ones its statements give when carried out one by one; smoothing changes one only where a condition comes within its width of a tie. "
     "Neither the simplification of conditions nor the compilation changes them, and the same product evaluated with adjoint numbers gives the same values and, away from ties, the same derivatives whether simplified, compiled or neither.",
     (S, H, F, I), "all interleavings of up to 2 valuations (values and sensitivities) with up to 8 changes of the evaluation date by up to 2 threads; histories of up to 6 preparations and compilations of generated scripts with nested, constant, combined and individually smoothed conditions, all operators and functions, MAX and MIN of 2 to 4 arguments, macros, schedules and day-count fractions, up to 160 payments of the past, up to 3 failing allocations in each, 4 paths each",
     "Tests prepare each product once, with a date that never changes and memory that never runs out; a date read twice or a second preparation needs a concurrent or repeated use.",
     ["dal/script/event.hpp", "dal/script/event.cpp", "dal/script/visitor", "public/src/value.cpp", "dal/storage/globals.cpp"],
     [("the evaluation date read once and kept", "dal/script/event.cpp: ParseEvents"), ("preparation rebuilds what it computes", "dal/script/event.cpp: PreProcess, Compile"), ("constant conditions replaced in the tree", "dal/script/visitor/constcondprocessor.hpp, domainproc.hpp")],
     observe=["values, sensitivities, time line, sample definitions, payoff index"])

prop("C18", "Any text is understood or refused, whole, cut short or damaged",
     "Reading a text ends: with what the text says, or with an error. This goes for the events and schedules a product is made of, on through its preparation and evaluation, and for dates, times, cells, dictionaries, numbers, increments, indices, calendars, enumerations, lists and table formats. "
     "Nothing outside the text is read or written, however it was cut or damaged. A script that ends inside an IF, a parenthesis or an expression, assigns to a constant or defines one twice, and a schedule that lacks its start, end or frequency or never advances, is refused; one that ends after a whole statement is accepted and worth what its statements say; every whole text is accepted, in any spelling its kind allows, and a day, time or number that does not exist, and a name with something left over, is refused. "
     "Running out of memory raises and never makes a text mean something else, and no text, refused or not, changes what the next one means.",
     (H, F, I), "sequences of up to 7 product texts (whole, cut between statements, cut anywhere, 1-2 tokens or 1-3 characters lost, doubled, exchanged or replaced, forbidden statements, schedules with clauses reordered, missing, cut or impossible) and of up to 12 other texts of 21 kinds (of generated content, to be refused, or with up to 3 edits), up to 2 failing allocations in each",
     "Tests read a handful of well-formed texts, and never with memory running out in the middle; a reader that runs past the end of its text usually finds a zero there.",
     ["dal/script/parser.cpp", "dal/script/parser.hpp", "dal/script/event.cpp", "dal/time/schedules.cpp", "dal/time/dateincrement.cpp", "dal/time/dateutils.cpp", "dal/time/datetimeutils.cpp", "dal/string/strings.cpp", "dal/math/cellutils.cpp", "dal/utilities/dictionary.cpp", "dal/indice/parser"],
     [("recursive descent over a token list that knows its end", "dal/script/parser.hpp"), ("conversion errors told apart from lack of memory", "dal/string/strings.cpp")],
     observe=["values and errors of parsing, preparing and evaluating; kinds and contents of cells, dates, increments, names"])

prop("C19", "Whatever a call took it gives back, also when it fails",
     "A process may repeat any request as often as it likes without growing: the memory in use after a request, once its results are dropped, does not grow from one repetition to the next, and no file stays open. "
     "This holds for requests that succeed, are refused, read damaged or unreadable files, or run out of memory at any point; for valuations with and without sensitivities, starting and stopping the pool, queues, pools and tasks dropped with work in them, recordings on the tape, environments and audits, objects put into the repository and erased, containers, reports and decompositions; on one thread, or on a new thread each time, which leaves nothing behind when it ends. "
     "What the library makes once and keeps (registries, parsed calendars, constants) does not count.",
     (H, F, I), "each request repeated up to 6 times with the same faults: none, refused input, the n-th allocation failing (any n), the same I/O error; by one thread or by a thread of its own each time; histories as in C03, C04, C07, C10, C11, C12, C14, C15, C16 and C18",
     "Tests do each thing once and the process ends; a block lost on an error path shows in no result.",
     ["dal/storage", "dal/concurrency", "dal/script", "dal/math/aad", "dal/math/matrix", "dal/math/random/brownianbridge.hpp", "dal/math/pde/meshers", "dal/utilities/exceptions.cpp", "dal/storage/_repository.cpp", "dal/utilities/environment.hpp"],
     [("ownership by smart pointers and scopes", "throughout"), ("raw allocations handed to owners", "dal/storage/splat.cpp, dal/math/matrix/matrixutils.cpp, dal/math/random/brownianbridge.hpp")],
     observe=["memory blocks in use after each repetition, and where they were taken; open files"])

_PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history enters it, so simulation adds nothing to sampling inputs; "
_T = "Tests sample a few inputs; the statement is about all of them."
prop("N01", "Closed-form prices, special functions and distributions are correct",
     "The Black-Scholes, Bachelier and displaced-lognormal prices, implied volatilities, normal distribution and its inverse agree with their mathematical definitions to the stated accuracy for all admissible arguments.",
     (I,), "all strikes, forwards, volatilities and probabilities in range", _T, ["dal/math/distribution", "dal/math/specialfunctions.cpp"], [("formulas", "dal/math/distribution, dal/math/specialfunctions.cpp")],
     na=_PURE + "that the same answers come back under concurrency and after failures is C15")
prop("N02", "Derivative rules of the adjoint number match calculus",
     "Every operator and function on adjoint numbers records the partial derivatives that calculus gives.",
     (I,), "all operators, functions and argument values", _T, ["dal/math/aad"], [("expression templates and leaf nodes", "dal/math/aad")],
     na=_PURE + "what depends on the tape's history is C12")
prop("N03", "Date arithmetic, day counts and schedules follow their conventions",
     "Adding days, months and increments, weekdays, IMM and CDS dates, business-day adjustment, day-count fractions and generated schedules follow the calendar and market conventions for all dates in range.",
     (I,), "all dates, increments, conventions and calendars", _T, ["dal/time"], [("date arithmetic", "dal/time")],
     na=_PURE + "calendars and day counts as shared, growing registries are C09 and C15")
prop("N04", "Interpolators and curves pass through their knots with the chosen shape",
     "Linear, cubic and two-dimensional interpolation and piecewise curves reproduce their knots, extrapolate as documented and keep the chosen end conditions.",
     (I,), "all knots and arguments", _T, ["dal/math/interp", "dal/curve"], [("interpolation formulas", "dal/math/interp, dal/curve")], na=_PURE + "shared use is C15, persistence C10 and C11")
prop("N05", "Root finding, least squares and decompositions converge to solutions",
     "For functions and matrices meeting their preconditions the solvers, minimisers and decompositions return solutions to the requested tolerance, or report failure.",
     (I,), "all admissible functions, matrices and tolerances", _T, ["dal/math/rootfind.cpp", "dal/math/optimization", "dal/math/matrix"], [("iterations", "dal/math")], na=_PURE + "shared use is C15")
prop("N06", "Finite-difference schemes are consistent and stable",
     "The finite-difference operators and time steps approximate the differential equation with the scheme's order and roll back stably.",
     (I,), "all grids, coefficients and steps", _T, ["dal/math/pde"], [("operators and roll-back", "dal/math/pde")], na=_PURE + "repeated and shared use is C15")
prop("N07", "Scripts mean what the language says",
     "Parsing gives the tree that the script language's precedence and keywords define, evaluation the values its semantics define, and malformed scripts are refused.",
     (I,), "all scripts", _T, ["dal/script"], [("parser and evaluators", "dal/script")],
     na=_PURE + "that the meaning survives threads, repeated preparation, simplification, compilation and failures is C04, C15 and C17; cut and damaged scripts are C18")
prop("N08", "Numbers and dates survive printing and parsing",
     "Formatting a number, date or cell as text and parsing it again gives the same value.",
     (I,), "all values", _T, ["dal/string", "dal/math/cell.cpp"], [("formatting and parsing", "dal/string")], na=_PURE + "files are C10 and C11, damaged text is C18")
