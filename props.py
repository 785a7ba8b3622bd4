"""Which workloads decide which property, and what ran for real in them."""
_CONC = ["dal/concurrency (queue, pool) and libstdc++ headers (std::thread, future, mutex), compiled from /repo with instrumentation"]
_MC = _CONC + ["dal/script (parser, evaluators, simulation), dal/model, dal/math/random, dal/math/aad, public/src"]
_STORE = ["dal/storage, dal/time, dal/currency, dal/indice, dal/platform, public/src, compiled from /repo with instrumentation"]
_STUB = ["pthread mutexes, condition variables, thread creation/join, once, thread-local destructors: simulated, one thread runs at a time and the seed picks it",
         "operator new/malloc: simulator heap with freed-memory quarantine, reuse on demand and injected failures",
         "clock (time, clock_gettime, localtime): simulated", "files under /sim/: simulated in-memory file system; no other file is touched"]
PROBES = {
 "repo": {0: "operation failed by an injected allocation failure"},
 "owners": {0: "an addition failed by an injected allocation failure"},
 "globals": {0: "operation failed by an injected allocation failure"},
 "scopes": {0: "an override failed by an injected allocation failure"},
 "registry": {0: "operation failed by an injected allocation failure", 1: "unknown or duplicate entry reported"},
 "startup": {0: "initialisation failed and was retried"},
}


def _p(workloads, real, **kw):
    return dict(workloads=workloads, real=real, stubs=_STUB, **kw)


PROPS = {
 "C01": _p([("conc", "queue", 1)], _CONC),
 "C02": _p([("conc", "pool", 1)], _CONC),
 "C03": _p([("conc", "lifecycle", 1)], _CONC),
 "C04": _p([("mc", "mc", 3), ("mc", "streams", 1)], _MC),
 "C05": _p([("mc", "mcaad", 1)], _MC),
 "C06": _p([("mc", "mcfail", 1)], _MC),
 "C07": _p([("store", "repo", 3), ("store", "owners", 1)], _STORE),
 "C08": _p([("store", "globals", 3), ("store", "scopes", 1)], _STORE),
 "C09": _p([("store", "registry", 2), ("store", "startup", 1)], _STORE),
}
PROPS["C10"] = _p([("io", "save", 1)], _STORE)
PROPS["C11"] = _p([("io", "load", 1)], _STORE)
PROBES["save"] = {0: "a save failed and said so", 1: "a save succeeded although a fault was injected"}
PROBES["load"] = {0: "a load failed and said so", 1: "a load succeeded although a fault was injected"}
PROPS["C12"] = _p([("aad", "tape", 1)], _MC)
PROBES["tape"] = {0: "recording or clearing failed by an injected allocation failure", 1: "a recording was interrupted by another one on the same thread"}
PROPS["C13"] = _p([("ctx", "notes", 1)], _STORE)
PROPS["C14"] = _p([("ctx", "env", 1)], _STORE)
PROBES["notes"] = {0: "an operation failed by an injected allocation failure", 1: "scopes left by an error", 2: "an error raised by a pool task", 4: "an error raised and caught while another one unwinds"}
PROBES["env"] = {0: "an operation failed by an injected allocation failure", 1: "an object recalled", 2: "a conflict reported", 3: "a fixing found"}
PROPS["C15"] = _p([("svc", "services", 1)], _MC + _STORE)
PROBES["services"] = {0: "a request failed by an injected allocation failure and was repeated", 1: "first use of a service by two threads at once", 2: "a request failed with another error after an allocation failure"}
PROPS["C16"] = _p([("box", "containers", 1)], ["dal/math (vectors, matrices, arrays, stacks, cells), dal/utilities/dictionary, dal/risk/report, dal/protocol/underlying, compiled from /repo with instrumentation"])
PROBES["containers"] = {0: "an operation failed by an injected allocation failure", 1: "operations after a failed one"}
PROPS["C18"] = _p([("mc", "texts", 1), ("svc", "readers", 1)], _MC + _STORE)
PROBES["texts"] = {0: "a text was refused", 1: "a text was accepted", 2: "a whole schedule was counted", 3: "a value compared with walking the script", 4: "a text refused after an injected allocation failure"}
PROBES["readers"] = {0: "a text was understood", 1: "a text was refused", 2: "memory ran out while a text was read"}
PROPS["C19"] = _p([("svc", "keeps", 2), ("io", "keepfiles", 1), ("mc", "keepmc", 1), ("box", "keepbox", 1), ("aad", "keeptape", 1), ("ctx", "keepenv", 1), ("conc", "keeppool", 1), ("store", "keepstore", 1)], _MC + _STORE)
for _w in ("keeps", "keepfiles", "keepmc", "keepbox", "keeptape", "keepenv", "keeppool", "keepstore"):
    PROBES[_w] = {0: "nothing failed", 1: "a request that failed was repeated", 2: "by a thread of its own each time"}
PROPS["C17"] = _p([("mc", "asof", 1), ("mc", "reprepare", 1)], _MC + _STORE)
PROBES["asof"] = {0: "a valuation during which more than one evaluation date was current"}
PROBES["reprepare"] = {0: "a preparation failed by an injected allocation failure", 2: "a value compared with walking the script", 3: "a smoothed value compared away from ties"}
PROBES["queue"] = {0: "runs in which a consumer had to wait or pop", 1: "an element could not be handed over for lack of memory"}
PROBES["lifecycle"] = {0: "a start failed because a thread could not be created", 1: "a queued task reported that it was dropped", 2: "tasks left to the workers alone"}
for _w in ("queue", "pool", "lifecycle", "mc", "streams", "mcaad", "mcfail", "repo", "owners", "globals", "scopes", "registry", "startup", "save", "load", "tape", "notes", "env", "services", "containers", "asof", "reprepare", "texts", "readers", "keeps", "keepfiles", "keepmc", "keepbox", "keeptape", "keepenv", "keeppool", "keepstore"):
    PROBES.setdefault(_w, {})[31] = "runs given up without a verdict because their schedule was too long to record"
