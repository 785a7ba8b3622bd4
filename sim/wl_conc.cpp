// Workloads for the concurrency layer: blocking queue, thread pool, pool life cycle.
#include <atomic>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/concurrency/concurrentqueue.hpp>
#include <dal/concurrency/threadpool.hpp>
#include "sim.hpp"
#include "lin.hpp"

using namespace Dal;

// ------------------------------------------------------------------------------------------------ C01: queue
namespace {
    enum { Q_PUSH, Q_TRY, Q_POP, Q_EMPTY, Q_INT, Q_RESET, Q_CLEAR };
    const char* QN[] = {"push", "trypop", "pop", "empty", "interrupt", "reset", "clear"};
    struct QModel {
        std::string q;
        bool intr = false;
        bool apply(const lin::Op& o) {
            switch (o.kind) {
            case Q_PUSH:
                if (o.r == 0)
                    q.push_back((char)o.a);
                return true;
            case Q_TRY:
                if (o.r == -3)
                    return !q.empty(); // there is one, it could not be handed over, it stays
                if (o.r < 0)
                    return q.empty();
                if (q.empty() || (unsigned char)q[0] != (unsigned char)o.r)
                    return false;
                q.erase(0, 1);
                return true;
            case Q_POP:
                if (o.r == -3)
                    return !intr && !q.empty();
                if (o.r < 0)
                    return intr;
                if (intr || q.empty() || (unsigned char)q[0] != (unsigned char)o.r)
                    return false;
                q.erase(0, 1);
                return true;
            case Q_EMPTY: return (o.r != 0) == q.empty();
            case Q_INT: intr = true; return true;
            case Q_RESET: intr = false; return true;
            case Q_CLEAR: q.clear(); return true;
            }
            return false;
        }
        std::string digest() const { return q + (intr ? "!" : "."); }
    };
    // move-only; large, so that the container has to allocate for nearly every element; handing one over may need memory
    bool costly;
    struct Item {
        std::unique_ptr<long> p_;
        char pad_[248];
        Item() = default;
        explicit Item(long* p) : p_(p) {}
        Item(Item&& o) noexcept : p_(std::move(o.p_)) {}
        Item& operator=(Item&& o) {
            if (costly)
                p_.reset(new long(*o.p_)); // fails before anything is changed
            else
                p_ = std::move(o.p_);
            return *this;
        }
        explicit operator bool() const { return (bool)p_; }
        long operator*() const { return *p_; }
    };

    struct QThread {
        std::vector<lin::Op> plan, hist;
        bool allocf = false;
    };
    template <class F_> void take(const QThread& t, lin::Op& o, Item& it, F_ pop) {
        if (t.allocf && costly)
            sim_alloc_faults(1);
        try {
            bool b = pop();
            o.r = b ? (it ? *it : -2) : -1;
        } catch (const std::bad_alloc&) {
            o.r = -3;
            sim_probe(1);
        }
        sim_alloc_faults(0);
    }
    void run_qthread(ConcurrentQueue_<Item>& q, QThread& t) {
        for (auto& p : t.plan) {
            lin::Op o = p;
            o.inv = sim_seq();
            switch (p.kind) {
            case Q_PUSH: {
                Item it(new long(p.a));
                if (t.allocf)
                    sim_alloc_faults(1);
                try {
                    q.Push(std::move(it));
                    o.r = 0;
                } catch (const std::bad_alloc&) {
                    o.r = -1;
                }
                sim_alloc_faults(0);
                break;
            }
            case Q_TRY: {
                Item it;
                take(t, o, it, [&] { return q.TryPop(it); });
                break;
            }
            case Q_POP: {
                Item it;
                take(t, o, it, [&] { return q.Pop(it); });
                break;
            }
            case Q_EMPTY: o.r = q.Empty() ? 1 : 0; break;
            case Q_INT: q.Interrupt(); break;
            case Q_RESET: q.ResetInterrupt(); break;
            case Q_CLEAR: q.Clear(); break;
            }
            o.ret = sim_seq();
            if (o.r == -2)
                sim_violation("lost-element", "pop returned success with a moved-from/null element");
            sim_note("%s(%ld) -> %ld  [%llu,%llu]", QN[o.kind], o.a, o.r, (unsigned long long)o.inv, (unsigned long long)o.ret);
            t.hist.push_back(o);
        }
    }
}

SIM_WORKLOAD(queue) {
    int mode = (int)sim_rnd(3); // 0: blocking pops fully fed; 1: interrupt releases waiters; 2: everything
    int np = 1 + (int)sim_rnd(3), nc = 1 + (int)sim_rnd(3);
    int maxops = 3 + (int)sim_rnd(4);
    if (sim_rnd_bool(1, 3))
        sim_fault_rate(F_ALLOC, 60000, 2);
    bool allocf = mode != 0 && sim_rnd_bool(1, 2);
    costly = allocf && sim_rnd_bool(1, 2); // not where every item has to find a waiting consumer
    if (sim_rnd_bool(1, 3))
        sim_alloc_reuse(1);
    long val = 1;
    int opi = 0;
    std::vector<QThread> th(np + nc);
    int pushes = 0;
    for (int i = 0; i < np; ++i) {
        th[i].allocf = allocf;
        int n = 1 + (int)sim_rnd(maxops);
        for (int k = 0; k < n; ++k) {
            lin::Op o;
            o.kind = Q_PUSH;
            o.a = val++;
            if (mode == 2) {
                int z = (int)sim_rnd(12);
                if (z == 0)
                    o.kind = Q_EMPTY;
                else if (z == 1)
                    o.kind = Q_TRY;
                else if (z == 2)
                    o.kind = Q_CLEAR;
                else if (z == 3)
                    o.kind = Q_RESET;
                else if (z == 4)
                    o.kind = Q_INT;
            }
            if (sim_op(opi++)) {
                th[i].plan.push_back(o);
                pushes += o.kind == Q_PUSH;
            }
        }
    }
    int left = pushes;
    for (int i = np; i < np + nc; ++i) {
        th[i].allocf = allocf;
        int n = 1 + (int)sim_rnd(maxops);
        for (int k = 0; k < n; ++k) {
            lin::Op o;
            o.kind = Q_POP;
            int z = (int)sim_rnd(10);
            if (z < 2)
                o.kind = Q_TRY;
            else if (z == 2)
                o.kind = Q_EMPTY;
            else if (mode == 2 && z == 3)
                o.kind = Q_CLEAR;
            if (mode == 0 && o.kind == Q_TRY)
                o.kind = Q_POP;
            if (!sim_op(opi++))
                continue;
            if (mode == 0 && o.kind == Q_POP) {
                if (left == 0)
                    continue; // every blocking pop of this mode is fed
                --left;
            }
            th[i].plan.push_back(o);
        }
    }
    auto q = std::make_unique<ConcurrentQueue_<Item>>();
    std::vector<lin::Op> mainh;
    std::vector<std::thread> ts;
    for (auto& t : th)
        ts.emplace_back([&q, &t] { run_qthread(*q, t); });
    for (int i = 0; i < np; ++i)
        ts[i].join();
    if (mode != 0) {
        // only producers reset the flag, and they are done: one interrupt has to release every consumer
        QThread one;
        lin::Op o;
        o.kind = Q_INT;
        one.plan.push_back(o);
        run_qthread(*q, one);
        mainh.push_back(one.hist[0]);
    }
    for (int i = np; i < np + nc; ++i)
        ts[i].join();
    // drain what is left: nothing may be lost
    {
        QThread d;
        lin::Op o;
        o.kind = Q_TRY;
        for (int k = 0; k < pushes + 1; ++k) {
            QThread one;
            one.plan.push_back(o);
            run_qthread(*q, one);
            mainh.push_back(one.hist[0]);
            if (one.hist[0].r < 0)
                break;
        }
    }
    q.reset();
    sim::Pause pz;
    std::vector<lin::Op> all = mainh;
    int waited = 0;
    for (auto& t : th)
        for (auto& h : t.hist)
            all.push_back(h), waited += h.kind == Q_POP;
    if (waited)
        sim_probe(0);
    if (all.size() <= 60 && !lin::linearizable(all, QModel(), 400000))
        sim_violation("not-linearizable", "the recorded queue history has no FIFO linearization (%zu operations)", all.size());
    // exactly-once, independently of the checker's budget
    std::vector<int> in(256, 0), out(256, 0);
    bool cleared = false;
    for (auto& o : all) {
        if (o.kind == Q_PUSH && o.r == 0)
            in[o.a]++;
        if ((o.kind == Q_POP || o.kind == Q_TRY) && o.r >= 0)
            out[o.r]++;
        cleared |= o.kind == Q_CLEAR;
    }
    for (int i = 0; i < 256; ++i) {
        if (out[i] > in[i])
            sim_violation("duplicate-element", "element %d pushed %d times, popped %d times", i, in[i], out[i]);
        if (out[i] < in[i] && !cleared)
            sim_violation("lost-element", "element %d was pushed but never delivered", i);
    }
}

// ------------------------------------------------------------------------------------------------ C02: thread pool
namespace {
    struct TaskFailure : std::runtime_error {
        int id;
        explicit TaskFailure(int i) : std::runtime_error("task failure"), id(i) {}
    };
    struct Node {
        int id = 0, parent = -1;
        bool throws_ = false, spawned = false, spawn_failed = false;
        int execs = 0; // written by the executing task only
        long out = 0;  // plain memory handed over through the future
        std::vector<int> kids;
    };
    struct PoolRun {
        ThreadPool_* pool = nullptr;
        std::vector<Node> nodes;
        size_t nthreads = 1;
        bool allocf = false;
    };
    PoolRun* PR;
    int idx_tid[64];       // pool index -> simulated thread (harness state, only touched while paused)
    int tid_idx[64];
    thread_local long tasks_run = 0;
    bool pool_stopped = false; // harness oracle flag (only touched while paused)

    void check_index() {
        sim::Pause p;
        size_t k = ThreadPool_::ThreadNum();
        int tid = sim_tid();
        if (k >= PR->nthreads)
            sim_violation("thread-index-range", "task sees thread index %zu, pool has %zu threads", k, PR->nthreads);
        if (tid_idx[tid] >= 0 && tid_idx[tid] != (int)k)
            sim_violation("thread-index-unstable", "thread T%d sees index %zu after index %d", tid, k, tid_idx[tid]);
        tid_idx[tid] = (int)k;
        if (k > 0) {
            if (idx_tid[k] >= 0 && idx_tid[k] != tid && sim_alive(idx_tid[k]))
                sim_violation("thread-index-shared", "threads T%d and T%d both run tasks as index %zu", idx_tid[k], tid, k);
            idx_tid[k] = tid;
        }
    }
    bool exec_node(int id);
    long value_of(int id) { return 1000 + 17L * id; }
    // spawn children (with optional allocation failures), wait for each, check results
    void spawn_and_wait(const std::vector<int>& kids, int how) {
        std::vector<std::pair<int, TaskHandle_>> fs;
        fs.reserve(kids.size());
        for (int k : kids) {
            if (PR->allocf)
                sim_alloc_faults(1);
            try {
                TaskHandle_ h = PR->pool->SpawnTask([k]() { return exec_node(k); });
                sim_alloc_faults(0);
                fs.emplace_back(k, std::move(h));
                PR->nodes[k].spawned = true;
            } catch (const std::bad_alloc&) {
                sim_alloc_faults(0);
                PR->nodes[k].spawn_failed = true;
                sim_note("spawn of task %d failed: bad_alloc", k);
            }
        }
        for (auto& f : fs) {
            if (how == 0 || PR->nthreads == 1) {
                long before = tasks_run;
                bool ran = PR->pool->ActiveWait(f.second);
                if (f.second.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                    sim_violation("active-wait-early", "ActiveWait returned before task %d completed", f.first);
                if (ran != (tasks_run > before))
                    sim_violation("active-wait-result", "ActiveWait reported %d, but this thread ran %ld tasks meanwhile", (int)ran, tasks_run - before);
            }
            bool threw = false, r = false;
            try {
                r = f.second.get();
            } catch (const TaskFailure& e) {
                threw = true;
                if (e.id != f.first)
                    sim_violation("wrong-exception", "handle of task %d delivers the exception of task %d", f.first, e.id);
            } catch (const std::future_error&) {
                sim_violation("broken-promise", "task %d was dropped although the pool was never stopped", f.first);
            }
            Node& n = PR->nodes[f.first];
            if (threw != n.throws_)
                sim_violation("lost-exception", "task %d %s but its handle %s", f.first, n.throws_ ? "threw" : "returned", threw ? "throws" : "returns");
            if (!threw && r != (f.first % 2 == 0))
                sim_violation("wrong-result", "task %d: wrong return value", f.first);
            if (n.out != value_of(f.first))
                sim_violation("effects-missing", "effects of task %d are not visible after its handle became ready", f.first);
            sim_note("task %d done (threw=%d)", f.first, (int)threw);
        }
    }
    bool exec_node(int id) {
        check_index();
        {
            sim::Pause p;
            if (pool_stopped && ThreadPool_::ThreadNum() != 0)
                sim_violation("runs-after-stop", "task %d starts on a worker after Stop returned", id);
        }
        Node& n = PR->nodes[id];
        n.execs++;
        if (n.execs > 1)
            sim_violation("executed-twice", "task %d executed %d times", id, n.execs);
        ++tasks_run;
        if (!n.kids.empty())
            spawn_and_wait(n.kids, 0);
        check_index();
        n.out = value_of(id);
        if (n.throws_)
            throw TaskFailure(id);
        return id % 2 == 0;
    }
    void make_nodes(PoolRun& pr, int total, int maxfan, int& opi) {
        pr.nodes.resize((size_t)total);
        for (int i = 0; i < total; ++i) {
            pr.nodes[i].id = i;
            pr.nodes[i].throws_ = sim_rnd_bool(1, 6);
            int par = (i == 0 || sim_rnd_bool(1, maxfan)) ? -1 : (int)sim_rnd((uint64_t)i);
            bool on = sim_op(opi++);
            pr.nodes[i].parent = on ? par : -2;
        }
        // a disabled parent disables its subtree
        for (int i = 0; i < total; ++i) {
            int p = pr.nodes[i].parent;
            if (p >= 0 && pr.nodes[p].parent == -2)
                pr.nodes[i].parent = -2;
            else if (p >= 0)
                pr.nodes[p].kids.push_back(i);
        }
    }
    void reset_idx() {
        for (int i = 0; i < 64; ++i)
            idx_tid[i] = tid_idx[i] = -1;
    }
}

SIM_WORKLOAD(pool) {
    PoolRun pr;
    PR = &pr;
    reset_idx();
    pr.pool = ThreadPool_::GetInstance();
    unsigned hw = 1 + (unsigned)sim_rnd(6);
    sim_set_hw(hw);
    size_t n = 1 + sim_rnd(hw);
    if (sim_rnd_bool(1, 3))
        sim_alloc_reuse(1);
    sim_quiet(sim_rnd_bool(1, 2));
    pr.pool->Start(n, true);
    sim_quiet(0);
    pr.nthreads = pr.pool->NumThreads();
    if (pr.nthreads != n)
        sim_violation("thread-count", "asked for %zu threads, pool reports %zu", n, pr.nthreads);
    pr.allocf = sim_rnd_bool(1, 4);
    if (pr.allocf)
        sim_fault_rate(F_ALLOC, 30000, 3);
    int opi = 0;
    make_nodes(pr, 1 + (int)sim_rnd(14), 2 + (int)sim_rnd(4), opi);
    int next = 1 + (int)sim_rnd(3);
    std::vector<std::vector<int>> roots((size_t)next);
    for (auto& nd : pr.nodes)
        if (nd.parent == -1)
            roots[(size_t)nd.id % roots.size()].push_back(nd.id);
    int how = (int)sim_rnd(2);
    std::vector<std::thread> ts;
    for (int i = 1; i < next; ++i)
        ts.emplace_back([&, i] { spawn_and_wait(roots[i], how); });
    spawn_and_wait(roots[0], how);
    for (auto& t : ts)
        t.join();
    for (auto& nd : pr.nodes) {
        if (nd.parent == -2)
            continue;
        if (nd.spawned && nd.execs != 1)
            sim_violation("not-executed", "task %d executed %d times although its handle became ready", nd.id, nd.execs);
        if (!nd.spawned && nd.execs != 0)
            sim_violation("executed-unspawned", "task %d ran although its submission failed", nd.id);
    }
}

// ------------------------------------------------------------------------------------------------ C03: life cycle
namespace {
    struct Sub {
        int id = 0;
        TaskHandle_ h;
        bool ok = false;
    };
}
static bool again; // the pool is needed again after this
SIM_WORKLOAD(lifecycle) {
    PoolRun pr;
    PR = &pr;
    reset_idx();
    pr.pool = ThreadPool_::GetInstance();
    unsigned hw = (unsigned)sim_rnd(6); // 0: "not computable"
    sim_set_hw(hw);
    int ntask = 2 + (int)sim_rnd(12);
    int opi = 0;
    make_nodes(pr, ntask, 2, opi);
    bool creat = sim_rnd_bool(1, 2);
    bool concurrent = sim_rnd_bool(1, 2);
    if (sim_rnd_bool(1, 3))
        sim_alloc_reuse(1);
    int phases = 1 + (int)sim_rnd(4);
    std::vector<int> roots;
    for (auto& nd : pr.nodes)
        if (nd.parent == -1)
            roots.push_back(nd.id);
    std::vector<Sub> subs(roots.size());
    struct Phase {
        size_t n;
        bool restart, stop, destroy;
        int spawn;
        bool helper;
        bool passive; // wait for the tasks without helping: the workers have to do them
    };
    std::vector<Phase> ph;
    for (int i = 0; i < phases; ++i) {
        Phase p;
        p.n = sim_rnd(7);
        p.restart = sim_rnd_bool(2, 3);
        p.stop = sim_rnd_bool(1, 2);
        p.destroy = false;
        p.spawn = (int)sim_rnd(6);
        p.helper = concurrent && sim_rnd_bool(1, 2);
        p.passive = sim_rnd_bool(1, 3);
        bool on = sim_op(opi++);
        if (on)
            ph.push_back(p);
    }
    bool destroy = sim_rnd_bool(1, 3) && !again;
    if (creat)
        sim_fault_rate(F_CREATE, 150000, 2);
    size_t next = 0;
    auto spawn_one = [&](size_t k) {
        subs[k].id = roots[k];
        int id = roots[k];
        subs[k].h = pr.pool->SpawnTask([id]() { return exec_node(id); });
        subs[k].ok = true;
        pr.nodes[id].spawned = true;
    };
    bool active = true; // the static instance is started at load
    size_t expect = 1;
    pr.nthreads = 64;
    for (auto& p : ph) {
        size_t want = p.n;
        if (want == 0 || want > hw)
            want = hw;
        if (want == 0)
            want = 1; // unknown hardware: the pool still has to work
        bool willstart = !active || p.restart;
        bool threw = false;
        {
            sim::Pause z;
            pr.nthreads = 64; // exact again once Start has returned
            pool_stopped = false;
        }
        try {
            pr.pool->Start(p.n, p.restart);
        } catch (const std::system_error&) {
            threw = true;
            sim_note("Start(%zu,%d) threw system_error", p.n, (int)p.restart);
            sim_probe(0);
        }
        if (threw && sim_fault_count(F_CREATE) == 0)
            sim_violation("start-failed", "Start failed although every thread could be created");
        if (willstart)
            expect = threw ? 0 : want;
        if (!threw) {
            active = true;
            if (expect && pr.pool->NumThreads() != expect)
                sim_violation("thread-count", "Start(%zu) with %u hardware threads left %zu threads, expected %zu", p.n, hw, pr.pool->NumThreads(), expect);
            sim_note("Start(%zu,%d) -> %zu threads", p.n, (int)p.restart, pr.pool->NumThreads());
        }
        {
            sim::Pause z;
            pr.nthreads = threw ? 64 : pr.pool->NumThreads();
        }
        size_t upto = std::min(subs.size(), next + (size_t)p.spawn);
        size_t from = next;
        next = upto;
        std::thread helper;
        size_t mid = from;
        if (p.helper && upto > from) {
            mid = from + (upto - from) / 2;
            // thread creation faults are about the pool, not the harness
            sim_fault_rate(F_CREATE, 0, 0);
            helper = std::thread([&, mid, upto] {
                for (size_t k = mid; k < upto; ++k)
                    spawn_one(k);
            });
            if (creat)
                sim_fault_rate(F_CREATE, 150000, 2);
        } else
            mid = upto;
        for (size_t k = from; k < mid; ++k)
            spawn_one(k);
        if (p.passive && !threw && pr.pool->NumThreads() > 1) {
            for (size_t k = from; k < mid; ++k)
                subs[k].h.wait();
            sim_probe(2);
        }
        if (p.stop || threw) {
            pr.pool->Stop();
            sim::Pause z;
            for (size_t k = 0; k < mid; ++k)
                if (subs[k].ok && subs[k].h.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                    sim_violation("left-waiting", "task %d was submitted before the pool was stopped; after the stop it neither ran nor reports that it will not", subs[k].id);
            pool_stopped = true;
            active = false;
            expect = 1;
            sim_note("Stop -> %zu threads", pr.pool->NumThreads());
            if (pr.pool->NumThreads() != 1)
                sim_violation("threads-after-stop", "Stop left %zu threads", pr.pool->NumThreads());
        }
        if (helper.joinable())
            helper.join();
    }
    if (destroy) {
        pr.pool->~ThreadPool_(); // what process exit does
        sim::Pause z;
        pool_stopped = true;
    }
    // every handle resolves: the task ran exactly once, or was dropped by a stop
    bool stopped_ever = destroy;
    for (auto& p : ph)
        stopped_ever |= true;
    for (auto& s : subs) {
        if (!s.ok)
            continue;
        if (!destroy)
            pr.pool->ActiveWait(s.h);
        else if (s.h.wait_for(std::chrono::seconds(0)) != std::future_status::ready) {
            // a task submitted after the queue was cleared: the owner is gone, nothing to wait for
            continue;
        }
        bool dropped = false, threw = false;
        try {
            (void)s.h.get();
        } catch (const TaskFailure&) {
            threw = true;
        } catch (const std::future_error&) {
            dropped = true;
            sim_probe(1);
        }
        Node& n = pr.nodes[s.id];
        sim_note("task %d: dropped=%d threw=%d execs=%d", s.id, (int)dropped, (int)threw, n.execs);
        if (dropped && n.execs)
            sim_violation("dropped-but-ran", "task %d ran, but its handle reports it as dropped", s.id);
        if (!dropped && n.execs != 1)
            sim_violation("not-executed", "task %d: handle ready, executed %d times", s.id, n.execs);
        if (!dropped && threw != n.throws_)
            sim_violation("lost-exception", "task %d: exception state of the handle is wrong", s.id);
        if (!dropped && n.out != value_of(s.id))
            sim_violation("effects-missing", "effects of task %d are not visible", s.id);
    }
}

// What queues, pools and tasks took, they give back.
SIM_WORKLOAD(keeppool) {
    int which = (int)sim_rnd(3);
    again = true;
    sim_set_hw(6);
    ThreadPool_::GetInstance()->Start(6, true); // the pool keeps room for as many workers as it ever had
    ThreadPool_::GetInstance()->Stop();
    uint64_t before = sim_live_blocks();
    for (int i = 0; i < (which == 2 ? 2 : 3); ++i) {
        sim_origins(1);
        std::thread t([&] {
            if (which == 2)
                ThreadPool_::GetInstance()->Start(1, true); // as at load
            which == 0 ? wl_pool() : which == 1 ? wl_queue() : wl_lifecycle();
            sim_fault_rate(F_CREATE, 0, 0);
            ThreadPool_::GetInstance()->Stop();
        });
        t.join();
        sim_origins(0);
        uint64_t now = sim_live_blocks();
        if (now > before)
            sim_kept("memory-kept", ((which == 1 ? std::string("queues keep ") : std::string("pools keep ")) + std::to_string(now - before) + " blocks of memory").c_str());
        before = now;
    }
}
