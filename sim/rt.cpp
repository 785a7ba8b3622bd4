// Deterministic simulation runtime.
//
// This translation unit is linked in place of libtsan under code compiled with -fsanitize=thread: the compiler's
// instrumentation turns every memory access, atomic operation, lock, condition variable, future, static-local guard,
// thread start, allocation, file operation and clock read of the program into a call in here.  Real pthreads run the
// code, but exactly one holds the baton at any time; this file decides who.  Everything is a pure function of the seed
// (generate mode) or of the recorded schedule/fault list (replay mode).
//
// No STL in here: a comdat merged with an instrumented copy would recurse into the runtime.
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "sim.hpp"

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;
#define NOINL __attribute__((noinline))
#define INL inline __attribute__((always_inline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
// code outside the executable sits at a randomised address: it is one anonymous program point
#define PC() ((uptr)__builtin_return_address(0) >> 32 ? 0u : (u32)(uptr)__builtin_return_address(0))

extern "C" char _end[];

// ------------------------------------------------------------------------------------------------ constants / layout
static const int MAXT = 64;
static const uptr LOW_HI = 0x4000000;                      // executable image (non-PIE), 64 MB
static const uptr HEAP_LO = 0x100000000000ull, HEAP_SZ = 3ull << 30;
static const uptr STK_LO = 0x200000000000ull, STK_EACH = 1ull << 20, STK_SZ = STK_EACH * MAXT;
static const uptr SH_LOW = 0x300000000000ull, SH_HEAP = 0x310000000000ull, SH_STK = 0x320000000000ull;
static const u64 QUANTUM = 60000;

enum { FL_W = 1, FL_AT = 2, FL_FREED = 4, FL_RED = 8 };
struct Cell {
    u32 epoch, pc;
    u8 tid, mask, flags, used;
    u32 step;
};
enum { ST_RUN = 0, ST_BLOCK = 1, ST_DONE = 2, ST_NEW = 3 };
enum { W_NONE = 0, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_GUARD, W_RW, W_SLEEP, W_SEM };
static const char* WNAME[] = {"none", "mutex", "condvar", "future", "join", "once", "static-guard", "rwlock", "sleep", "sem"};

struct TlsDtor {
    void (*fn)(void*);
    void* obj;
    TlsDtor* next;
};

struct Thr {
    int id;
    volatile int state;
    volatile int go;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    u32 vc[MAXT];
    int inrt, pause, allocf, quiet;
    int guard; // local statics being initialised
    u64 alloc_rel, alloc_hit, alloc_force; // allocations since failures were allowed, the first that failed, the one that has to fail
    int wkind;
    uptr waddr;
    u64 wseq;
    bool signaled;
    u64 deadline;   // simulated ns, 0 = none
    u64 spur_step;  // spurious wake-up at this step, 0 = none
    u64 stall_until;
    pthread_t h;
    bool detached, joined;
    TlsDtor* dtors;
    uptr stk_lo, stk_hi;
    int prio;
    u64 run_since;
    u32 wpc;
};

struct Sync {
    uptr key;
    Sync* next;
    int owner, count;     // mutex / rwlock writer
    int readers;
    int phase;            // once
    u32 vc[MAXT];
};

struct SchedEnt {
    u64 step;
    u32 tid;
    u32 kind; // 0 access/sync/blocking point, 1 conflict point
    u32 pc;
};
struct FaultEnt {
    u32 kind;
    u32 idx;
    u64 val;
    u64 step;
};

static const int MAX_SCHED = 1 << 20, MAX_FAULT = 1 << 14, MAX_OPS = 4096;
static const size_t NOTE_SZ = 1 << 18;
enum { V_NONE = 0, V_OK = 1, V_VIOL = 2, V_INTERNAL = 3, V_STALLED = 4 };

struct Shared { // MAP_SHARED with the parent
    int status;
    char cls[96];
    char msg[6000];
    u64 steps, switches, preempts, hash, ihash, simns, accesses, syncs, allocs, threads;
    u64 fired[F_NKIND];
    u64 occ[F_NKIND];
    u64 probes[32];
    u32 nsched, nfault, nops;
    u32 npc;
    u32 pcs[64];          // program counters to symbolise for the report
    char pclabel[64][24];
    u32 note_len;
    SchedEnt sched[MAX_SCHED];
    FaultEnt fault[MAX_FAULT];
    char notes[NOTE_SZ];
};

struct Rng {
    u64 s;
    INL u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    INL u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; }
};

struct Global {
    bool active, replay;
    u64 seed;
    Rng rw, rs, rf; // workload / schedule / fault streams
    u64 step, accesses, switches, preempts, hash, ihash, seq, simns, syncs;
    u64 step_cap;
    u64 next_preempt;
    u64 preempt_mean; // 0 = never at plain accesses
    u32 sync_ppm, conf_ppm, stall_ppm;
    int policy; // 0 random, 1 pct, 2 none
    u64 pct_points[8];
    int npct;
    u64 quantum;
    Thr thr[MAXT];
    int nthr;
    unsigned hw;
    int allocf_all;
    u32 rate[F_NKIND], maxf[F_NKIND];
    u64 occ[F_NKIND], fired[F_NKIND];
    bool iof, reuse;
    u64 wseq;
    const SchedEnt* rsched;
    u32 nrsched, irsched;
    const FaultEnt* rfault;
    u32 nrfault;
    u8 op_disabled[MAX_OPS];
    long disk_left;
    int hard_kind, hard_err;
    long hard_after;
    int64_t clock_base, clock_jump;
    bool tzset_done;
    u32 exc_vc[MAXT];
    u32 fence_vc[MAXT];
    bool finished;
    int wall_s;
};
static Global G;
static Thr* volatile cur;
static Shared* SH;

// ------------------------------------------------------------------------------------------------ tiny helpers
static INL void* xset(void* d, int c, size_t n) {
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
static INL void* xcpy(void* d, const void* s, size_t n) {
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
static size_t xlen(const char* s) {
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
static int xcmp(const char* a, const char* b) {
    while (*a && *a == *b)
        a++, b++;
    return (int)(u8)*a - (int)(u8)*b;
}
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void raw_write(int fd, const char* s, size_t n) {
    while (n) {
        long k = sys(SYS_write, fd, (long)s, (long)n);
        if (k <= 0) {
            if (k == -EINTR)
                continue;
            return;
        }
        s += k;
        n -= (size_t)k;
    }
}
static double real_now() {
    struct timespec ts;
    sys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
template <class F> static F next_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

// minimal vsnprintf: %s %d %u %ld %lu %lld %llu %zu %x %lx %llx %p %c %g %f(as %g) %.17g %%
static size_t fmt_u(char* o, u64 v, unsigned base) {
    char t[32];
    int n = 0;
    do {
        unsigned d = (unsigned)(v % base);
        t[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10);
        v /= base;
    } while (v);
    for (int i = 0; i < n; i++)
        o[i] = t[n - 1 - i];
    return (size_t)n;
}
static size_t xvfmt(char* out, size_t cap, const char* f, va_list ap) {
    size_t n = 0;
    auto put = [&](char c) {
        if (n + 1 < cap)
            out[n++] = c;
    };
    for (; *f; f++) {
        if (*f != '%') {
            put(*f);
            continue;
        }
        f++;
        char spec[16];
        int sp = 0;
        spec[sp++] = '%';
        int l = 0;
        bool z = false;
        while (*f && ((*f >= '0' && *f <= '9') || *f == '.' || *f == '-' || *f == '+')) {
            if (sp < 12)
                spec[sp++] = *f;
            f++;
        }
        while (*f == 'l' || *f == 'z') {
            if (*f == 'z')
                z = true;
            else
                l++;
            f++;
        }
        char t[400];
        size_t k = 0;
        switch (*f) {
        case 's': {
            const char* s = va_arg(ap, const char*);
            if (!s)
                s = "(null)";
            while (*s)
                put(*s++);
            break;
        }
        case 'c': put((char)va_arg(ap, int)); break;
        case 'd': {
            long long v = (l || z) ? va_arg(ap, long long) : va_arg(ap, int);
            if (v < 0) {
                put('-');
                k = fmt_u(t, (u64)0 - (u64)v, 10);
            } else
                k = fmt_u(t, (u64)v, 10);
            break;
        }
        case 'u': k = fmt_u(t, (l || z) ? va_arg(ap, u64) : va_arg(ap, unsigned), 10); break;
        case 'x': k = fmt_u(t, (l || z) ? va_arg(ap, u64) : va_arg(ap, unsigned), 16); break;
        case 'p': k = fmt_u(t, (u64)(uptr)va_arg(ap, void*), 16); break;
        case 'g':
        case 'f': {
            spec[sp++] = *f;
            spec[sp] = 0;
            double dv = va_arg(ap, double);
            static int (*snp)(char*, size_t, const char*, ...) = nullptr;
            if (!snp)
                snp = (int (*)(char*, size_t, const char*, ...))dlsym(RTLD_DEFAULT, "snprintf");
            int kk = snp(t, sizeof t, spec, dv);
            k = kk > 0 ? (size_t)kk : 0;
            break;
        }
        case '%': put('%'); break;
        default: put('?');
        }
        for (size_t i = 0; i < k; i++)
            put(t[i]);
    }
    if (cap)
        out[n] = 0;
    return n;
}
__attribute__((format(printf, 3, 4))) static size_t xfmt(char* out, size_t cap, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    size_t n = xvfmt(out, cap, f, ap);
    va_end(ap);
    return n;
}
__attribute__((format(printf, 1, 2))) static void outf(const char* f, ...) {
    static char b[8192];
    va_list ap;
    va_start(ap, f);
    size_t n = xvfmt(b, sizeof b, f, ap);
    va_end(ap);
    raw_write(1, b, n);
}

static void* map_at(uptr a, size_t n) {
    void* p = (void*)sys(SYS_mmap, (long)a, (long)n, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((uptr)p != a) {
        raw_write(2, "simrt: cannot map\n", 18);
        sys(SYS_exit_group, 97);
    }
    return p;
}

// rt-private bump memory (not part of the simulated heap)
static char* rt_mem;
static size_t rt_used, rt_cap;
static void* rt_alloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (rt_used + n > rt_cap) {
        size_t c = n > (8u << 20) ? n : (8u << 20);
        rt_mem = (char*)sys(SYS_mmap, 0, (long)c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        rt_cap = c;
        rt_used = 0;
    }
    void* p = rt_mem + rt_used;
    rt_used += n;
    return p;
}

// ------------------------------------------------------------------------------------------------ verdicts
static void finish_child(int status);

static void add_pc(const char* label, u32 pc) {
    if (!SH || SH->npc >= 64)
        return;
    SH->pcs[SH->npc] = pc;
    size_t i = 0;
    for (; label[i] && i < 23; i++)
        SH->pclabel[SH->npc][i] = label[i];
    SH->pclabel[SH->npc][i] = 0;
    SH->npc++;
}
static void add_stack(const char* label, uptr fp, u32 pc) {
    add_pc(label, pc);
    Thr* t = cur;
    if (!t)
        return;
    for (int i = 0; i < 10; i++) {
        if (fp < t->stk_lo || fp + 16 > t->stk_hi || (fp & 7))
            return;
        uptr ret = ((uptr*)fp)[1], nfp = ((uptr*)fp)[0];
        if (ret < LOW_HI && (u32)ret != pc)
            add_pc(label, (u32)ret);
        if (nfp <= fp)
            return;
        fp = nfp;
    }
}
NOINL static void vviolate(const char* cls, const char* f, va_list ap) {
    if (SH->status == V_NONE) {
        SH->status = V_VIOL;
        size_t i = 0;
        for (; cls[i] && i < sizeof SH->cls - 1; i++)
            SH->cls[i] = cls[i];
        SH->cls[i] = 0;
        xvfmt(SH->msg, sizeof SH->msg, f, ap);
    }
    finish_child(V_VIOL);
}
__attribute__((format(printf, 2, 3))) NOINL static void violate(const char* cls, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    vviolate(cls, f, ap);
    va_end(ap);
}
__attribute__((format(printf, 1, 2))) NOINL static void internal(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    if (SH) {
        SH->status = V_INTERNAL;
        xvfmt(SH->msg, sizeof SH->msg, f, ap);
        raw_write(2, "simrt internal: ", 16);
        raw_write(2, SH->msg, xlen(SH->msg));
        raw_write(2, "\n", 1);
    }
    va_end(ap);
    sys(SYS_exit_group, 96);
}
static void give_up() {
    SH->probes[31]++;
    finish_child(V_OK);
}
static void finish_child(int status) {
    if (SH->status == V_NONE)
        SH->status = status;
    SH->steps = G.step;
    SH->switches = G.switches;
    SH->preempts = G.preempts;
    SH->hash = G.hash;
    SH->ihash = G.ihash;
    SH->simns = G.simns;
    SH->accesses = G.accesses;
    SH->syncs = G.syncs;
    SH->threads = (u64)G.nthr;
    for (int i = 0; i < F_NKIND; i++)
        SH->fired[i] = G.fired[i], SH->occ[i] = G.occ[i];
    sys(SYS_exit_group, status == V_OK ? 0 : 1);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------ decisions (faults)
static u64 decide(int kind, u64 range) {
    u64 idx = G.occ[kind]++;
    u64 v = 0;
    if (G.replay) {
        for (u32 i = 0; i < G.nrfault; i++)
            if (G.rfault[i].kind == (u32)kind && G.rfault[i].idx == (u32)idx) {
                v = G.rfault[i].val;
                break;
            }
        if (v > range)
            v = range;
    } else if (G.rate[kind] && G.fired[kind] < G.maxf[kind]) {
        if (G.rf.below(1000000) < G.rate[kind])
            v = 1 + G.rf.below(range);
    }
    if (v) {
        G.fired[kind]++;
        if (SH->nfault < (u32)MAX_FAULT) {
            FaultEnt& e = SH->fault[SH->nfault++];
            e.kind = (u32)kind;
            e.idx = (u32)idx;
            e.val = v;
            e.step = G.step;
        }
        G.hash = (G.hash ^ (v * 31 + (u64)kind)) * 0x100000001b3ull;
    }
    return v;
}

// ------------------------------------------------------------------------------------------------ scheduler
static void futex_wait(volatile int* p, int v) { sys(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(volatile int* p) { sys(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

static void wait_baton(Thr* t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST))
        futex_wait(&t->go, 0);
    t->go = 0;
}
static void switch_to(Thr* n, u32 pc) {
    Thr* me = cur;
    if (n == me)
        return;
    G.switches++;
    G.ihash = (G.ihash ^ ((u64)n->id * 0x9E3779B97F4A7C15ull + pc)) * 0x100000001b3ull;
    n->run_since = G.step;
    cur = n;
    __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&n->go);
    wait_baton(me);
}
// hand over without ever running again
static void switch_away_forever(Thr* n) {
    G.switches++;
    n->run_since = G.step;
    cur = n;
    __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&n->go);
    for (;;)
        sys(SYS_pause);
}

static void wake_timed() {
    for (int i = 0; i < G.nthr; i++) {
        Thr* t = &G.thr[i];
        if (t->state != ST_BLOCK)
            continue;
        if (t->spur_step && G.step >= t->spur_step) {
            t->state = ST_RUN;
        } else if (t->deadline && G.simns >= t->deadline)
            t->state = ST_RUN;
    }
}
static NOINL void deadlock_report() {
    char buf[3000];
    size_t n = 0;
    for (int i = 0; i < G.nthr && n < 2600; i++) {
        Thr* t = &G.thr[i];
        if (t->state == ST_BLOCK) {
            n += xfmt(buf + n, sizeof buf - n, " T%d waits on %s;", t->id, WNAME[t->wkind]);
            char lab[24];
            xfmt(lab, sizeof lab, "T%d", t->id);
            add_pc(lab, t->wpc);
        }
    }
    buf[n] = 0;
    violate("deadlock", "no thread can make progress:%s", buf);
}
// reason: 0 preempt (default: stay), 1 block/exit (default: next runnable), 2 yield/quantum (default: next runnable)
static Thr* pick(int reason, u32 pc, u32 kind = 0) {
    if (reason)
        G.step++;
    Thr* me = cur;
    wake_timed();
    int r[MAXT], n = 0;
    for (int tries = 0;; tries++) {
        n = 0;
        for (int i = 0; i < G.nthr; i++)
            if (G.thr[i].state == ST_RUN && !(reason == 1 && &G.thr[i] == me && me->state != ST_RUN))
                r[n++] = i;
        if (n)
            break;
        // nothing runnable: jump to the next timed event
        u64 best = 0;
        bool spur = false;
        for (int i = 0; i < G.nthr; i++) {
            Thr* t = &G.thr[i];
            if (t->state != ST_BLOCK)
                continue;
            if (t->spur_step)
                spur = true;
            if (t->deadline && (!best || t->deadline < best))
                best = t->deadline;
        }
        if (spur) {
            u64 s = ~0ull;
            for (int i = 0; i < G.nthr; i++)
                if (G.thr[i].state == ST_BLOCK && G.thr[i].spur_step && G.thr[i].spur_step < s)
                    s = G.thr[i].spur_step;
            if (s > G.step)
                G.step = s;
        } else if (best) {
            if (best > G.simns)
                G.simns = best;
        } else
            deadlock_report();
        wake_timed();
        if (tries > 1000)
            internal("scheduler stuck");
    }
    // default choice
    Thr* def = nullptr;
    if (reason == 0 && me->state == ST_RUN)
        def = me;
    else {
        for (int k = 1; k <= G.nthr; k++) {
            Thr* t = &G.thr[(me->id + k) % G.nthr];
            if (t->state == ST_RUN) {
                def = t;
                break;
            }
        }
    }
    Thr* ch = def;
    if (G.replay) {
        while (G.irsched < G.nrsched && G.rsched[G.irsched].step < G.step)
            G.irsched++;
        if (G.irsched < G.nrsched && G.rsched[G.irsched].step == G.step && G.rsched[G.irsched].kind == kind) {
            u32 w = G.rsched[G.irsched].tid;
            G.irsched++;
            if ((int)w < G.nthr && G.thr[w].state == ST_RUN)
                ch = &G.thr[w];
        }
    } else if (!me->quiet && n > 1) {
        if (G.policy == 0) {
            // stalled threads are only chosen when nothing else can run
            int m = 0, rr[MAXT];
            for (int i = 0; i < n; i++)
                if (G.thr[r[i]].stall_until <= G.step)
                    rr[m++] = r[i];
            if (m)
                ch = &G.thr[rr[G.rs.below((u64)m)]];
            else
                ch = &G.thr[r[G.rs.below((u64)n)]];
            if (G.stall_ppm && G.rs.below(1000000) < G.stall_ppm) {
                Thr* v = &G.thr[r[G.rs.below((u64)n)]];
                v->stall_until = G.step + 200 + G.rs.below(20000);
                G.fired[F_STALL]++;
            }
        } else if (G.policy == 1 && reason != 2) {
            for (int i = 0; i < n; i++)
                if (i == 0 || G.thr[r[i]].prio > ch->prio)
                    ch = &G.thr[r[i]];
        } else if (G.policy == 1) {
            ch = &G.thr[r[G.rs.below((u64)n)]];
        }
    }
    if (ch != def) {
        if (SH->nsched >= (u32)MAX_SCHED)
            give_up(); // too long to be recorded: no verdict
        SchedEnt& e = SH->sched[SH->nsched++];
        e.step = G.step;
        e.tid = (u32)ch->id;
        e.kind = kind;
        e.pc = pc;
        if (reason == 0)
            G.preempts++;
    }
    return ch;
}
static void draw_preempt() {
    if (G.replay || !G.preempt_mean)
        G.next_preempt = ~0ull;
    else {
        u64 m = G.preempt_mean;
        // two-point mixture around the mean keeps short and long gaps
        u64 g = 1 + G.rs.below(2 * m);
        if (G.rs.below(8) == 0)
            g = 1 + G.rs.below(8);
        G.next_preempt = G.step + g;
    }
}
NOINL static void step_over(u32 pc) {
    add_stack("at", (uptr)__builtin_frame_address(0), pc);
    violate("no-progress", "run exceeded its step budget of %llu steps", (unsigned long long)G.step_cap);
}
static void preempt_point(int reason, u32 pc, u32 kind = 0) {
    Thr* n = pick(reason, pc, kind);
    if (n != cur) {
        Thr* me = cur;
        me->inrt++;
        switch_to(n, pc);
        me->inrt--;
    } else if (reason) // a thread that was not preempted goes on as if nobody had asked: a replay does not ask
        cur->run_since = G.step;
}
// at a plain memory access: is a switch due?
static NOINL void mem_point(u32 pc) {
    if (G.step > G.step_cap)
        step_over(pc);
    Thr* me = cur;
    if (G.step - me->run_since > G.quantum) {
        preempt_point(2, pc);
        draw_preempt();
        return;
    }
    if (G.replay) {
        while (G.irsched < G.nrsched && G.rsched[G.irsched].step < G.step)
            G.irsched++;
        if (G.irsched < G.nrsched && G.rsched[G.irsched].step == G.step && G.rsched[G.irsched].kind == 0)
            preempt_point(0, pc);
        return;
    }
    if (G.step >= G.next_preempt) {
        draw_preempt();
        if (G.policy == 1) {
            // pct change point: demote the running thread
            static int low = -1;
            me->prio = low--;
        }
        if (!me->quiet)
            preempt_point(0, pc);
    }
}
static u64 mem_trigger; // smallest step at which mem_point has something to do
static INL void refresh_trigger() {
    u64 a = cur->run_since + G.quantum, b = G.step_cap, c;
    if (G.replay) {
        while (G.irsched < G.nrsched && G.rsched[G.irsched].step < G.step)
            G.irsched++;
        c = G.irsched < G.nrsched ? G.rsched[G.irsched].step : ~0ull;
    } else
        c = G.next_preempt;
    u64 m = a < b ? a : b;
    mem_trigger = m < c ? m : c;
}
// at a synchronisation operation
static void sync_point(u32 pc) {
    G.step++;
    G.syncs++;
    G.simns += 100;
    G.hash = (G.hash ^ ((u64)pc * 0x9E3779B97F4A7C15ull + (u64)cur->id)) * 0x100000001b3ull;
    if (G.step > G.step_cap)
        step_over(pc);
    Thr* me = cur;
    if (G.step - me->run_since > G.quantum)
        preempt_point(2, pc);
    else if (G.replay) {
        while (G.irsched < G.nrsched && G.rsched[G.irsched].step < G.step)
            G.irsched++;
        if (G.irsched < G.nrsched && G.rsched[G.irsched].step == G.step && G.rsched[G.irsched].kind == 0)
            preempt_point(0, pc);
    } else if (!me->quiet && !me->pause) {
        if (G.policy == 1)
            preempt_point(0, pc);
        else if (G.policy == 0 && G.sync_ppm && G.rs.below(1000000) < G.sync_ppm)
            preempt_point(0, pc);
    }
    refresh_trigger();
}
static void block(int kind, uptr addr, u64 deadline, u64 spur, u32 pc) {
    Thr* me = cur;
    me->wkind = kind;
    me->waddr = addr;
    me->wseq = ++G.wseq;
    me->deadline = deadline;
    me->spur_step = spur;
    me->signaled = false;
    me->wpc = pc;
    me->state = ST_BLOCK;
    Thr* n = pick(1, pc);
    if (n != me) {
        me->inrt++;
        switch_to(n, pc);
        me->inrt--;
    }
    me->state = ST_RUN;
    me->wkind = W_NONE;
    me->deadline = 0;
    me->spur_step = 0;
    refresh_trigger();
}
static void wake_all(int kind, uptr addr) {
    for (int i = 0; i < G.nthr; i++) {
        Thr* t = &G.thr[i];
        if (t->state == ST_BLOCK && t->wkind == kind && t->waddr == addr) {
            t->state = ST_RUN;
            t->signaled = true;
        }
    }
}

// ------------------------------------------------------------------------------------------------ vector clocks
static INL void vc_join(u32* d, const u32* s) {
    for (int i = 0; i < MAXT; i++)
        if (s[i] > d[i])
            d[i] = s[i];
}
static const int SYNC_BUCKETS = 1 << 14;
static Sync* sync_tab[SYNC_BUCKETS];
static Sync* sync_free;
static Sync* get_sync(uptr key, bool create = true) {
    u32 h = (u32)((key * 0x9E3779B97F4A7C15ull) >> 50) & (SYNC_BUCKETS - 1);
    for (Sync* s = sync_tab[h]; s; s = s->next)
        if (s->key == key)
            return s;
    if (!create)
        return nullptr;
    Sync* s = (Sync*)rt_alloc(sizeof(Sync));
    xset(s, 0, sizeof *s);
    s->key = key;
    s->owner = -1;
    s->next = sync_tab[h];
    sync_tab[h] = s;
    return s;
}
static INL void hb_acquire(const u32* vc) { vc_join(cur->vc, vc); }
static INL void hb_release(u32* vc) {
    vc_join(vc, cur->vc);
    cur->vc[cur->id]++;
}

// ------------------------------------------------------------------------------------------------ shadow / race check
static INL Cell* shadow_of(uptr a) {
    if (a - HEAP_LO < HEAP_SZ)
        return (Cell*)(SH_HEAP + ((a - HEAP_LO) >> 3) * 64);
    if (a - STK_LO < STK_SZ)
        return (Cell*)(SH_STK + ((a - STK_LO) >> 3) * 64);
    if (a < LOW_HI)
        return (Cell*)(SH_LOW + (a >> 3) * 64);
    return nullptr;
}
NOINL static void report_race(uptr a, unsigned fl, u32 pc, const Cell* c) {
    char l1[24], l2[24];
    if (c->flags & (FL_FREED | FL_RED)) {
        xfmt(l1, sizeof l1, "T%d access", cur->id);
        add_stack(l1, (uptr)__builtin_frame_address(0), pc);
        if (c->flags & FL_FREED) {
            xfmt(l2, sizeof l2, "T%d freed", c->tid);
            add_pc(l2, c->pc);
            violate("use-after-free", "T%d %s memory freed earlier by T%d", cur->id, (fl & FL_W) ? "writes" : "reads", c->tid);
        }
        violate("heap-overflow", "T%d %s outside any allocated block", cur->id, (fl & FL_W) ? "writes" : "reads");
    }
    xfmt(l1, sizeof l1, "T%d %s", cur->id, (fl & FL_FREED) ? "frees" : (fl & FL_W) ? "writes" : "reads");
    xfmt(l2, sizeof l2, "T%d %s", c->tid, (c->flags & FL_W) ? "wrote" : "read");
    add_stack(l1, (uptr)__builtin_frame_address(0), pc);
    add_pc(l2, c->pc);
    violate("data-race", "unordered conflicting accesses to the same memory: T%d %s%s, T%d %s%s", cur->id,
            (fl & FL_AT) ? "atomically " : "", (fl & FL_FREED) ? "frees" : (fl & FL_W) ? "writes" : "reads", c->tid,
            (c->flags & FL_AT) ? "atomically " : "", (c->flags & FL_W) ? "wrote" : "read");
}
// returns true when another thread touched the granule before
static INL bool check_granule(Cell* sh, uptr a, u8 mask, unsigned fl, u32 pc) {
    Thr* t = cur;
    Cell* put = nullptr;
    Cell* victim = nullptr;
    bool conflict = false;
    for (int i = 0; i < 4; i++) {
        Cell* c = sh + i;
        if (!c->used) {
            if (!put)
                put = c;
            break; // cells are filled in order
        }
        if (UNLIKELY(c->flags & (FL_FREED | FL_RED))) {
            if (c->mask & mask)
                report_race(a, fl, pc, c);
            continue;
        }
        if (c->tid == (u8)t->id) {
            if (c->mask == mask && ((c->flags ^ fl) & FL_AT) == 0 && (c->flags & FL_W) <= (fl & FL_W))
                put = c, victim = c;
            else if (c->mask == mask && (c->flags & FL_W) && !(fl & FL_W) && ((c->flags ^ fl) & FL_AT) == 0 && c->epoch == t->vc[t->id]) {
                // a write in the same epoch subsumes this read
                put = c;
                victim = c;
                for (int k = i + 1; k < 4 && sh[k].used; k++)
                    if (sh[k].tid != (u8)t->id && (sh[k].mask & mask) && ((sh[k].flags | fl) & FL_W) && !((sh[k].flags & fl) & FL_AT) &&
                        sh[k].epoch > t->vc[sh[k].tid])
                        report_race(a, fl, pc, sh + k);
                return conflict;
            }
            continue;
        }
        conflict = true;
        if (!(c->mask & mask))
            continue;
        if (!((c->flags | fl) & FL_W))
            continue;
        if (c->epoch > t->vc[c->tid]) {
            if (!((c->flags & fl) & FL_AT))
                report_race(a, fl, pc, c);
        } else if ((fl & FL_W) && (c->mask & ~mask) == 0 && !victim)
            victim = c;
    }
    if (!put || victim)
        put = victim ? victim : put;
    if (!put)
        put = sh + ((G.step ^ (a >> 3)) & 3);
    put->epoch = t->vc[t->id];
    put->pc = pc;
    put->tid = (u8)t->id;
    put->mask = mask;
    put->flags = (u8)(fl & (FL_W | FL_AT));
    put->used = 1;
    put->step = (u32)G.step;
    return conflict;
}
static NOINL void conflict_point(u32 pc) {
    if (G.replay) {
        while (G.irsched < G.nrsched && G.rsched[G.irsched].step < G.step)
            G.irsched++;
        if (G.irsched < G.nrsched && G.rsched[G.irsched].step == G.step && G.rsched[G.irsched].kind == 1)
            preempt_point(0, pc, 1), refresh_trigger();
    } else if (G.conf_ppm && G.policy == 0 && !cur->quiet && G.rs.below(1000000) < G.conf_ppm)
        preempt_point(0, pc, 1), refresh_trigger();
}
static INL void access(uptr a, unsigned size, unsigned fl, u32 pc) {
    Thr* t = cur;
    if (UNLIKELY(!G.active || t->inrt || t->pause))
        return;
    G.step++;
    G.accesses++;
    Cell* sh = shadow_of(a);
    if (LIKELY(sh != nullptr)) {
        G.hash = (G.hash ^ (a * 0x9E3779B97F4A7C15ull + pc)) * 0x100000001b3ull;
    }
    if (UNLIKELY(G.step >= mem_trigger)) {
        mem_point(pc);
        refresh_trigger();
    }
    if (UNLIKELY(!sh))
        return;
    unsigned off = a & 7;
    bool conf = false;
    while (true) {
        unsigned k = 8 - off;
        if (k > size)
            k = size;
        u8 mask = (u8)(((1u << k) - 1u) << off);
        conf |= check_granule(sh, a, mask, fl, pc);
        size -= k;
        if (!size)
            break;
        a += k;
        off = 0;
        sh += 4;
    }
    if (UNLIKELY(conf))
        conflict_point(pc);
}
static NOINL void access_range(uptr a, size_t n, unsigned fl, u32 pc) {
    Thr* t = cur;
    if (!G.active || !t || t->inrt || t->pause || !n)
        return;
    if (!shadow_of(a))
        return;
    G.step++;
    G.accesses++;
    G.hash = (G.hash ^ (a * 0x9E3779B97F4A7C15ull + pc + n)) * 0x100000001b3ull;
    if (G.step >= mem_trigger) {
        mem_point(pc);
        refresh_trigger();
    }
    uptr e = a + n;
    while (a < e) {
        unsigned off = a & 7;
        unsigned k = 8 - off;
        if (k > e - a)
            k = (unsigned)(e - a);
        Cell* sh = shadow_of(a);
        if (sh)
            check_granule(sh, a, (u8)(((1u << k) - 1u) << off), fl, pc);
        a += k;
    }
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                                           \
    void __tsan_read##N(void* a) { access((uptr)a, N, 0, PC()); }                                                       \
    void __tsan_write##N(void* a) { access((uptr)a, N, FL_W, PC()); }                                                   \
    void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, 0, PC()); }                                             \
    void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, FL_W, PC()); }                                         \
    void __tsan_volatile_read##N(void* a) { access((uptr)a, N, 0, PC()); }                                              \
    void __tsan_volatile_write##N(void* a) { access((uptr)a, N, FL_W, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access_range((uptr)a, n, 0, PC()); }
void __tsan_write_range(void* a, unsigned long n) { access_range((uptr)a, n, FL_W, PC()); }
void __tsan_vptr_update(void** p, void* v) {
    // a destructor writes what is there already; on a stack, what is there may be left over from the simulator itself
    if (*p != v || ((uptr)p - HEAP_LO >= HEAP_SZ && (uptr)p >= LOW_HI))
        access((uptr)p, 8, FL_W, PC());
}
void __tsan_vptr_read(void** p) { access((uptr)p, 8, 0, PC()); }
}

// atomics: one thread runs at a time, so plain operations suffice; orders matter for happens-before only
static INL bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static INL bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static NOINL void atomic_pre(uptr a, unsigned size, bool wr, u32 pc) {
    Thr* t = cur;
    if (!G.active || t->inrt)
        return;
    sync_point(pc);
    if (!t->pause) {
        Cell* sh = shadow_of(a);
        if (sh) {
            unsigned off = a & 7;
            unsigned k = size > 8 - off ? 8 - off : size;
            check_granule(sh, a, (u8)(((1u << k) - 1u) << off), (wr ? FL_W : 0) | FL_AT, pc);
        }
    }
}
// store: release sequence is replaced; rmw: continued
static NOINL void atomic_post(uptr a, bool rd, bool wr, int mo) {
    if (!G.active || cur->inrt)
        return;
    bool A = rd && is_acq(mo), R = wr && is_rel(mo);
    if (wr && !rd && !R) { // relaxed store ends the release sequence
        Sync* s = get_sync((a & ~(uptr)7) | 1, false);
        if (s)
            xset(s->vc, 0, sizeof s->vc);
        return;
    }
    if (!A && !R)
        return;
    Sync* s = get_sync((a & ~(uptr)7) | 1, R);
    if (!s)
        return;
    if (A)
        hb_acquire(s->vc);
    if (R) {
        if (!rd)
            xset(s->vc, 0, sizeof s->vc);
        hb_release(s->vc);
    }
}
typedef unsigned __int128 u128;
extern "C" {
#define ATOMICS(B, T)                                                                                                   \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) {                                                            \
        atomic_pre((uptr)p, B / 8, false, PC());                                                                        \
        T v = *p;                                                                                                       \
        atomic_post((uptr)p, true, false, mo);                                                                          \
        return v;                                                                                                       \
    }                                                                                                                   \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) {                                                         \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        *p = v;                                                                                                         \
        atomic_post((uptr)p, false, true, mo);                                                                          \
    }                                                                                                                   \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) {                                                         \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = v;                                                                                                         \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) {                                                        \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = (T)(o + v);                                                                                                \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) {                                                        \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = (T)(o - v);                                                                                                \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) {                                                        \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = (T)(o & v);                                                                                                \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) {                                                         \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = (T)(o | v);                                                                                                \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) {                                                        \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = (T)(o ^ v);                                                                                                \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) {                                                       \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        *p = (T)~(o & v);                                                                                               \
        atomic_post((uptr)p, true, true, mo);                                                                           \
        return o;                                                                                                       \
    }                                                                                                                   \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {                        \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        if (o == *e) {                                                                                                  \
            *p = v;                                                                                                     \
            atomic_post((uptr)p, true, true, mo);                                                                       \
            return true;                                                                                                \
        }                                                                                                               \
        *e = o;                                                                                                         \
        atomic_post((uptr)p, true, false, fmo);                                                                         \
        return false;                                                                                                   \
    }                                                                                                                   \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {                          \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        if (o == *e) {                                                                                                  \
            *p = v;                                                                                                     \
            atomic_post((uptr)p, true, true, mo);                                                                       \
            return true;                                                                                                \
        }                                                                                                               \
        *e = o;                                                                                                         \
        atomic_post((uptr)p, true, false, fmo);                                                                         \
        return false;                                                                                                   \
    }                                                                                                                   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {                               \
        atomic_pre((uptr)p, B / 8, true, PC());                                                                         \
        T o = *p;                                                                                                       \
        if (o == e) {                                                                                                   \
            *p = v;                                                                                                     \
            atomic_post((uptr)p, true, true, mo);                                                                       \
        } else                                                                                                          \
            atomic_post((uptr)p, true, false, fmo);                                                                     \
        return o;                                                                                                       \
    }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
ATOMICS(128, u128)
void __tsan_atomic_thread_fence(int mo) {
    if (!G.active || cur->inrt)
        return;
    sync_point(PC());
    if (mo != __ATOMIC_RELAXED) {
        hb_acquire(G.fence_vc);
        hb_release(G.fence_vc);
    }
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------------------------ heap
struct Hdr {
    u64 size; // user size; bit 63: freed
    u64 cap : 63;    // usable capacity
    u64 counted : 1; // the program's, not the simulator's
};
static const u64 FREED_BIT = 1ull << 63;
static uptr heap_top;
static bool heap_ready;
struct FreeNode {
    FreeNode* next;
};
static FreeNode* bins[1100];
static u64 live_blocks, live_bytes;
// where blocks came from, kept while a workload asks for it (diagnostics only)
struct Origin {
    uptr p;
    u32 pc[8];
};
static Origin origins[1 << 16];
static u32 n_origins;
static bool keep_origins;
static const size_t BIG = 64 << 10;

static void heap_init() {
    map_at(HEAP_LO, HEAP_SZ);
    map_at(STK_LO, STK_SZ);
    map_at(SH_HEAP, HEAP_SZ * 8);
    map_at(SH_STK, STK_SZ * 8);
    map_at(SH_LOW, LOW_HI * 8);
    heap_top = HEAP_LO + 4096;
    heap_ready = true;
}
static int bin_of(size_t cap) {
    if (cap <= 16384)
        return (int)(cap / 16);
    int b = 1025;
    size_t c = 32768;
    while (c < cap)
        c <<= 1, b++;
    return b;
}
static size_t round_cap(size_t n) {
    if (n < 16)
        n = 16;
    if (n <= 16384)
        return (n + 15) & ~(size_t)15;
    size_t c = 32768;
    while (c < n)
        c <<= 1;
    if (n > BIG)
        c = (n + 4095) & ~(size_t)4095;
    return c;
}
static void mark_cells(uptr a, size_t n, u8 flags, u32 pc) {
    for (uptr p = a & ~(uptr)7; p < a + n; p += 8) {
        Cell* c = shadow_of(p);
        c->epoch = 0;
        c->pc = pc;
        c->tid = cur ? (u8)cur->id : 0;
        c->mask = 0xff;
        if (p + 8 > a + n)
            c->mask = (u8)((1u << (a + n - p)) - 1);
        if (p < a)
            c->mask = (u8)(c->mask & (0xff << (a - p)));
        c->flags = flags;
        c->used = 1;
        c->step = (u32)G.step;
    }
}
static void clear_cells(uptr a, size_t n) {
    Cell* b = shadow_of(a);
    xset(b, 0, ((n + 7) / 8) * 64);
}
static void* heap_alloc(size_t n, size_t align) {
    if (!heap_ready)
        heap_init();
    if (n > (1ull << 31))
        return nullptr;
    size_t cap = round_cap(n);
    if (align <= 16 && n <= BIG && G.reuse) {
        int b = bin_of(cap);
        if (bins[b]) {
            FreeNode* f = bins[b];
            bins[b] = f->next;
            Hdr* h = (Hdr*)((uptr)f - 16);
            h->size = n;
            h->counted = 0;
            clear_cells((uptr)f, cap);
            if (cap > n)
                mark_cells((uptr)f + n, cap - n, FL_RED, 0);
            return f;
        }
    }
    uptr p = heap_top + 16;
    if (n > BIG)
        p = (heap_top + 16 + 4095) & ~(uptr)4095;
    if (align > 16)
        p = (p + align - 1) & ~(uptr)(align - 1);
    p = (p + 15) & ~(uptr)15;
    if (p + cap + 64 > HEAP_LO + HEAP_SZ) {
        if (G.active && n < HEAP_SZ / 8) // a huge request just fails, as it would in reality
            violate("runaway-allocation", "memory use grows without bound (%zu MB allocated)", (size_t)(HEAP_SZ >> 20));
        return nullptr;
    }
    uptr old = heap_top;
    heap_top = p + cap;
    Hdr* h = (Hdr*)(p - 16);
    h->size = n;
    h->cap = cap;
    h->counted = 0;
    (void)old;
    mark_cells(p - 16, 16, FL_RED, 0);
    if (n < cap && n <= BIG)
        mark_cells(p + n, cap - n, FL_RED, 0);
    return (void*)p;
}
static void heap_free(void* q, u32 pc) {
    uptr p = (uptr)q;
    if (p - HEAP_LO >= HEAP_SZ)
        return; // not ours (never handed out)
    Hdr* h = (Hdr*)(p - 16);
    Thr* t = cur;
    bool on = G.active && t && !t->inrt;
    if (h->size & FREED_BIT) {
        if (on) {
            add_stack("second free", (uptr)__builtin_frame_address(0), pc);
            Cell* c = shadow_of(p);
            add_pc("first free", c->pc);
            violate("double-free", "T%d frees a block that was already freed", t->id);
        }
        return;
    }
    size_t n = h->size;
    if (h->counted)
        live_blocks--, live_bytes -= n;
    if (n > BIG) {
        h->size |= FREED_BIT;
        if (on)
            sys(SYS_mprotect, (long)p, (long)h->cap, PROT_NONE);
        return;
    }
    if (on && !t->pause) {
        for (uptr a = p; a < p + n; a += 8) {
            Cell* sh = shadow_of(a);
            unsigned k = p + n - a >= 8 ? 8 : (unsigned)(p + n - a);
            u8 mask = (u8)((1u << k) - 1u);
            for (int i = 0; i < 4 && sh[i].used; i++)
                if (!(sh[i].flags & (FL_FREED | FL_RED)) && (sh[i].mask & mask) && sh[i].tid != (u8)t->id && sh[i].epoch > t->vc[sh[i].tid])
                    report_race(a, FL_W | FL_FREED, pc, &sh[i]);
        }
    }
    h->size |= FREED_BIT;
    if (G.active) {
        clear_cells(p, h->cap);
        mark_cells(p, h->cap, FL_FREED, pc);
        FreeNode* f = (FreeNode*)p;
        int b = bin_of(h->cap);
        f->next = bins[b];
        bins[b] = f;
    }
}
// the pc of the instrumented caller, looking through libstdc++'s operator new/delete
static NOINL u32 caller_pc() {
    Thr* t = cur;
    uptr fp = (uptr)__builtin_frame_address(0);
    if (!t)
        return 0;
    for (int i = 0; i < 12; i++) {
        if (fp < t->stk_lo || fp + 16 > t->stk_hi || (fp & 7))
            return 0;
        uptr ret = ((uptr*)fp)[1], nfp = ((uptr*)fp)[0];
        if (ret < LOW_HI && i >= 1)
            return (u32)ret;
        if (nfp <= fp)
            return 0;
        fp = nfp;
    }
    return 0;
}
static u64 n_allocs;
static u32 fault_pcs[10];
static int n_fault_pcs;
static NOINL void note_fault_stack() { // where the last allocation failure was injected (diagnostics only)
    Thr* t = cur;
    n_fault_pcs = 0;
    uptr fp = (uptr)__builtin_frame_address(0);
    for (int i = 0; i < 24 && n_fault_pcs < 10; i++) {
        if (fp < t->stk_lo || fp + 16 > t->stk_hi || (fp & 7))
            return;
        uptr ret = ((uptr*)fp)[1], nfp = ((uptr*)fp)[0];
        if (ret < LOW_HI && i >= 2)
            fault_pcs[n_fault_pcs++] = (u32)ret;
        if (nfp <= fp)
            return;
        fp = nfp;
    }
}
static NOINL void note_origin(uptr p) {
    if (n_origins >= sizeof origins / sizeof *origins)
        return;
    Origin& o = origins[n_origins++];
    o.p = p;
    uptr fp = (uptr)__builtin_frame_address(0);
    int k = 0;
    for (int i = 0; i < 24 && k < 8; i++) {
        if (fp < cur->stk_lo || fp + 16 > cur->stk_hi || (fp & 7))
            break;
        uptr ret = ((uptr*)fp)[1], nfp = ((uptr*)fp)[0];
        if (ret < LOW_HI && i >= 2)
            o.pc[k++] = (u32)ret;
        if (nfp <= fp)
            break;
        fp = nfp;
    }
    while (k < 8)
        o.pc[k++] = 0;
}
// direct: malloc called by the program itself. Only a third-party header library does that (rapidjson, which does not
// survive a null return); everything of the library under test allocates through operator new.
static void* do_malloc(size_t n, size_t align, bool direct = false) {
    Thr* t = cur;
    if (G.active && t && !t->inrt && !t->pause && !direct) {
        n_allocs++;
        if (t->allocf)
            t->alloc_rel++;
        if ((t->allocf || G.allocf_all) && (t->alloc_force ? t->alloc_force == t->alloc_rel : decide(F_ALLOC, 1) != 0)) {
            if (t->alloc_force)
                G.fired[F_ALLOC]++;
            else if (!t->alloc_hit)
                t->alloc_hit = t->alloc_rel;
            note_fault_stack();
            errno = ENOMEM;
            return nullptr;
        }
    }
    void* p = heap_alloc(n, align);
    if (p && !(t && (t->inrt || t->guard))) { // what a local static takes is taken once
        ((Hdr*)((uptr)p - 16))->counted = 1;
        live_blocks++, live_bytes += n;
        if (keep_origins && t)
            note_origin((uptr)p);
    }
    if (!p)
        errno = ENOMEM;
    return p;
}
extern "C" {
void* malloc(size_t n) { return do_malloc(n, 16, (uptr)__builtin_return_address(0) < LOW_HI); }
void free(void* p) {
    if (p)
        heap_free(p, G.active ? caller_pc() : 0);
}
void* calloc(size_t a, size_t b) {
    size_t n = a * b;
    if (a && n / a != b)
        return nullptr;
    void* p = do_malloc(n, 16);
    if (p)
        xset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    bool direct = (uptr)__builtin_return_address(0) < LOW_HI;
    if (!p)
        return do_malloc(n, 16, direct);
    Hdr* h = (Hdr*)((uptr)p - 16);
    size_t old = h->size & ~FREED_BIT;
    void* q = do_malloc(n, 16, direct);
    if (!q)
        return nullptr;
    xcpy(q, p, old < n ? old : n);
    heap_free(p, 0);
    return q;
}
void* memalign(size_t al, size_t n) { return do_malloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return do_malloc(n, al); }
int posix_memalign(void** o, size_t al, size_t n) {
    void* p = do_malloc(n, al);
    if (!p)
        return ENOMEM;
    *o = p;
    return 0;
}
void* valloc(size_t n) { return do_malloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uptr)p - 16))->size & ~FREED_BIT : 0; }

void* memcpy(void* d, const void* s, size_t n) {
    if (UNLIKELY(G.active) && n) {
        u32 pc = PC();
        access_range((uptr)s, n, 0, pc);
        access_range((uptr)d, n, FL_W, pc);
    }
    return xcpy(d, s, n);
}
void* memmove(void* d, const void* s, size_t n) {
    if (UNLIKELY(G.active) && n) {
        u32 pc = PC();
        access_range((uptr)s, n, 0, pc);
        access_range((uptr)d, n, FL_W, pc);
    }
    if ((uptr)d - (uptr)s >= n)
        return xcpy(d, s, n);
    char* dd = (char*)d + n - 1;
    const char* ss = (const char*)s + n - 1;
    void* r = d;
    asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    return r;
}
void* memset(void* d, int c, size_t n) {
    if (UNLIKELY(G.active) && n)
        access_range((uptr)d, n, FL_W, PC());
    return xset(d, c, n);
}
int memcmp(const void* a, const void* b, size_t n) {
    if (UNLIKELY(G.active) && n) {
        u32 pc = PC();
        access_range((uptr)a, n, 0, pc);
        access_range((uptr)b, n, 0, pc);
    }
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i])
            return (int)x[i] - (int)y[i];
    return 0;
}
size_t strlen(const char* s) {
    size_t n = xlen(s);
    if (UNLIKELY(G.active))
        access_range((uptr)s, n + 1, 0, PC());
    return n;
}
}

// ------------------------------------------------------------------------------------------------ red-black trees
// libstdc++'s tree primitives are compiled (uninstrumented) into libstdc++.so; these wrappers let the race detector
// see the nodes they touch.
namespace std {
    struct _Rb_tree_node_base {
        int color;
        _Rb_tree_node_base *parent, *left, *right;
    };
    static INL void rd(const _Rb_tree_node_base* n, u32 pc) {
        if (n)
            access((uptr)n, 8, 0, pc), access((uptr)n + 8, 8, 0, pc), access((uptr)n + 16, 8, 0, pc), access((uptr)n + 24, 8, 0, pc);
    }
    static INL void wr(const _Rb_tree_node_base* n, u32 pc) {
        if (n)
            access((uptr)n, 4, FL_W, pc), access((uptr)n + 8, 8, FL_W, pc), access((uptr)n + 16, 8, FL_W, pc), access((uptr)n + 24, 8, FL_W, pc);
    }
    static _Rb_tree_node_base* inc(_Rb_tree_node_base* x, u32 pc) {
        rd(x, pc);
        if (x->right) {
            x = x->right;
            rd(x, pc);
            while (x->left) {
                x = x->left;
                rd(x, pc);
            }
        } else {
            _Rb_tree_node_base* y = x->parent;
            rd(y, pc);
            while (x == y->right) {
                x = y;
                y = y->parent;
                rd(y, pc);
            }
            if (x->right != y)
                x = y;
        }
        return x;
    }
    static _Rb_tree_node_base* dec(_Rb_tree_node_base* x, u32 pc) {
        rd(x, pc);
        if (x->color == 0 && x->parent->parent == x)
            x = x->right;
        else if (x->left) {
            _Rb_tree_node_base* y = x->left;
            rd(y, pc);
            while (y->right) {
                y = y->right;
                rd(y, pc);
            }
            x = y;
        } else {
            _Rb_tree_node_base* y = x->parent;
            rd(y, pc);
            while (x == y->left) {
                x = y;
                y = y->parent;
                rd(y, pc);
            }
            x = y;
        }
        return x;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x, PC()); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x), PC()); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x, PC()); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x), PC()); }

    void _Rb_tree_insert_and_rebalance(bool l, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
        typedef void (*F)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
        static F f;
        if (!f)
            f = next_sym<F>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
        u32 pc = PC();
        wr(x, pc);
        if (p != &h)
            wr(p, pc);
        wr(&h, pc);
        f(l, x, p, h);
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
        typedef _Rb_tree_node_base* (*F)(_Rb_tree_node_base* const, _Rb_tree_node_base&);
        static F f;
        if (!f)
            f = next_sym<F>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
        u32 pc = PC();
        wr(z, pc);
        if (z->left)
            wr(z->left, pc);
        if (z->right)
            wr(z->right, pc);
        if (z->parent != &h)
            wr(z->parent, pc);
        wr(&h, pc);
        return f(z, h);
    }
}

// ------------------------------------------------------------------------------------------------ threads
static void run_tls_dtors(Thr* t) {
    while (t->dtors) {
        TlsDtor* d = t->dtors;
        t->dtors = d->next;
        d->fn(d->obj);
    }
}
static void sig_setup_thread();
static void thread_done(Thr* t) {
    t->inrt++;
    vc_join(get_sync((uptr)t | 3)->vc, t->vc);
    t->state = ST_DONE;
    wake_all(W_JOIN, (uptr)t->id + 1);
    Thr* n = pick(1, 0);
    switch_away_forever(n);
}
static void* trampoline(void* a) {
    Thr* t = (Thr*)a;
    wait_baton(t);
    sig_setup_thread();
    t->state = ST_RUN;
    refresh_trigger();
    t->ret = t->fn(t->arg);
    run_tls_dtors(t);
    thread_done(t);
    return nullptr;
}
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static create_t real_create;
struct Deferred {
    void* (*fn)(void*);
    void* arg;
};
static Deferred deferred[MAXT];
static int ndeferred;

static Thr* new_thread(void* (*fn)(void*), void* arg) {
    if (G.nthr >= MAXT)
        internal("too many simulated threads");
    Thr* t = &G.thr[G.nthr];
    xset(t, 0, sizeof *t);
    t->id = G.nthr;
    t->fn = fn;
    t->arg = arg;
    t->state = ST_RUN;
    t->stk_lo = STK_LO + STK_EACH * (uptr)t->id;
    t->stk_hi = t->stk_lo + STK_EACH;
    t->prio = (int)G.rs.below(1000);
    if (cur && cur->quiet)
        t->quiet = 1;
    G.nthr++;
    if (cur && G.active) {
        vc_join(t->vc, cur->vc);
        cur->vc[cur->id]++;
    }
    t->vc[t->id] = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t->stk_lo, STK_EACH);
    if (!real_create)
        real_create = next_sym<create_t>("pthread_create");
    int r = real_create(&t->h, &at, trampoline, t);
    if (r)
        internal("real pthread_create failed: %d", r);
    return t;
}
static Thr* by_handle(pthread_t h) {
    if (h >= 0x7000 && h < 0x7000 + (pthread_t)ndeferred)
        return &G.thr[1 + (h - 0x7000)];
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i].h == h && G.thr[i].fn)
            return &G.thr[i];
    return nullptr;
}
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!G.active) {
        if (ndeferred >= MAXT)
            return EAGAIN;
        deferred[ndeferred].fn = fn; // started as a simulated thread when the run begins
        deferred[ndeferred].arg = arg;
        *out = (pthread_t)(0x7000 + ndeferred);
        ndeferred++;
        return 0;
    }
    Thr* me = cur;
    sync_point(PC());
    if (decide(F_CREATE, 1))
        return EAGAIN;
    me->inrt++;
    Thr* t = new_thread(fn, arg);
    int st = 0;
    if (at && pthread_attr_getdetachstate(at, &st) == 0 && st == PTHREAD_CREATE_DETACHED)
        t->detached = true;
    *out = t->h;
    me->inrt--;
    sync_point(PC());
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    if (!G.active)
        return 0;
    sync_point(PC());
    Thr* t = by_handle(h);
    if (!t)
        return ESRCH;
    if (t == cur)
        return EDEADLK;
    if (t->joined || t->detached)
        return EINVAL;
    while (t->state != ST_DONE)
        block(W_JOIN, (uptr)t->id + 1, 0, 0, PC());
    hb_acquire(get_sync((uptr)t | 3)->vc);
    t->joined = true;
    if (ret)
        *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t h) {
    if (!G.active)
        return 0;
    Thr* t = by_handle(h);
    if (!t)
        return ESRCH;
    t->detached = true;
    return 0;
}
int sched_yield() {
    if (G.active && !cur->inrt && !cur->pause) {
        sync_point(PC());
        preempt_point(2, PC());
        refresh_trigger();
    }
    return 0;
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
    Thr* t = cur;
    if (!t)
        return 0;
    TlsDtor* d = (TlsDtor*)rt_alloc(sizeof(TlsDtor));
    d->fn = fn;
    d->obj = obj;
    d->next = t->dtors;
    t->dtors = d;
    return 0;
}
}
namespace std {
    class thread {
    public:
        static unsigned hardware_concurrency() noexcept;
    };
    unsigned thread::hardware_concurrency() noexcept { return G.active ? G.hw : 1; }
}

// ------------------------------------------------------------------------------------------------ mutex & friends
static int mutex_lock(uptr m, bool tr, u64 deadline, u32 pc) {
    Thr* me = cur;
    sync_point(pc);
    Sync* s = get_sync(m);
    int kind = ((pthread_mutex_t*)m)->__data.__kind & 3;
    for (;;) {
        if (s->owner == -1) {
            s->owner = me->id;
            s->count = 1;
            hb_acquire(s->vc);
            return 0;
        }
        if (s->owner == me->id) {
            if (kind == PTHREAD_MUTEX_RECURSIVE) {
                s->count++;
                return 0;
            }
            if (kind == PTHREAD_MUTEX_ERRORCHECK)
                return EDEADLK;
        }
        if (tr)
            return EBUSY;
        if (deadline && G.simns >= deadline)
            return ETIMEDOUT;
        block(W_MUTEX, m, deadline, 0, pc);
    }
}
static int mutex_unlock(uptr m, u32 pc, bool point) {
    Sync* s = get_sync(m);
    if (s->owner != cur->id) {
        add_stack("unlock", (uptr)__builtin_frame_address(0), pc);
        violate("bad-unlock", "T%d unlocks a mutex it does not hold", cur->id);
    }
    if (--s->count == 0) {
        hb_release(s->vc);
        s->owner = -1;
        wake_all(W_MUTEX, m);
    }
    if (point)
        sync_point(pc);
    return 0;
}
static u64 deadline_of(clockid_t c, const struct timespec* ts);

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!G.active || cur->inrt)
        return 0;
    return mutex_lock((uptr)m, false, 0, PC());
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!G.active || cur->inrt)
        return 0;
    return mutex_lock((uptr)m, true, 0, PC());
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!G.active || cur->inrt)
        return 0;
    return mutex_lock((uptr)m, false, deadline_of(CLOCK_REALTIME, ts), PC());
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    if (!G.active || cur->inrt)
        return 0;
    return mutex_lock((uptr)m, false, deadline_of(c, ts), PC());
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!G.active || cur->inrt)
        return 0;
    return mutex_unlock((uptr)m, PC(), true);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!G.active || cur->inrt)
        return 0;
    Sync* s = get_sync((uptr)m, false);
    if (s && s->owner != -1) {
        add_stack("destroy", (uptr)__builtin_frame_address(0), PC());
        violate("mutex-destroyed-while-held", "a locked mutex is destroyed");
    }
    return 0;
}
static int cond_wait(uptr c, uptr m, u64 deadline, u32 pc) {
    Thr* me = cur;
    sync_point(pc);
    u64 sp = decide(F_SPURIOUS, 400);
    Sync* ms = get_sync(m);
    int cnt = ms->count;
    if (ms->owner != me->id) {
        add_stack("wait", (uptr)__builtin_frame_address(0), pc);
        violate("bad-unlock", "T%d waits on a condition without holding its mutex", me->id);
    }
    ms->count = 1;
    mutex_unlock(m, pc, false);
    block(W_COND, c, deadline, sp ? G.step + sp : 0, pc);
    bool sig = me->signaled;
    bool to = !sig && deadline && G.simns >= deadline;
    if (sig)
        hb_acquire(get_sync(c)->vc);
    mutex_lock(m, false, 0, pc);
    ms->count = cnt;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!G.active || cur->inrt)
        return 0;
    return cond_wait((uptr)c, (uptr)m, 0, PC());
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!G.active || cur->inrt)
        return 0;
    return cond_wait((uptr)c, (uptr)m, deadline_of(CLOCK_REALTIME, ts), PC());
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (!G.active || cur->inrt)
        return 0;
    return cond_wait((uptr)c, (uptr)m, deadline_of(k, ts), PC());
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!G.active || cur->inrt)
        return 0;
    sync_point(PC());
    // POSIX: at least one waiter, unspecified which
    int w[MAXT], n = 0;
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i].state == ST_BLOCK && G.thr[i].wkind == W_COND && G.thr[i].waddr == (uptr)c)
            w[n++] = i;
    if (n) {
        int best = 0;
        for (int i = 1; i < n; i++)
            if (G.thr[w[i]].wseq < G.thr[w[best]].wseq)
                best = i;
        if (n > 1) {
            u64 v = decide(F_SIGPICK, (u64)n);
            if (v)
                best = (int)(v - 1);
        }
        Thr* t = &G.thr[w[best]];
        t->state = ST_RUN;
        t->signaled = true;
    }
    sync_point(PC());
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!G.active || cur->inrt)
        return 0;
    sync_point(PC());
    wake_all(W_COND, (uptr)c);
    sync_point(PC());
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!G.active || cur->inrt)
        return 0;
    // a waiter that was already signalled may still be leaving; one still queued is a client error
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i].state == ST_BLOCK && G.thr[i].wkind == W_COND && G.thr[i].waddr == (uptr)c) {
            add_stack("destroy", (uptr)__builtin_frame_address(0), PC());
            violate("condvar-destroyed-with-waiters", "a condition variable is destroyed while T%d waits on it", i);
        }
    return 0;
}
// rwlocks
static int rw_lock(uptr a, bool wr, bool tr, u64 deadline, u32 pc) {
    Thr* me = cur;
    sync_point(pc);
    Sync* s = get_sync(a);
    for (;;) {
        bool ok = wr ? (s->owner == -1 && s->readers == 0) : s->owner == -1;
        if (ok) {
            if (wr)
                s->owner = me->id;
            else
                s->readers++;
            hb_acquire(s->vc);
            return 0;
        }
        if (tr)
            return EBUSY;
        if (deadline && G.simns >= deadline)
            return ETIMEDOUT;
        block(W_RW, a, deadline, 0, pc);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return !G.active || cur->inrt ? 0 : rw_lock((uptr)l, false, false, 0, PC()); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return !G.active || cur->inrt ? 0 : rw_lock((uptr)l, false, true, 0, PC()); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return !G.active || cur->inrt ? 0 : rw_lock((uptr)l, true, false, 0, PC()); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return !G.active || cur->inrt ? 0 : rw_lock((uptr)l, true, true, 0, PC()); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!G.active || cur->inrt)
        return 0;
    Sync* s = get_sync((uptr)l);
    hb_release(s->vc);
    if (s->owner == cur->id)
        s->owner = -1;
    else if (s->readers > 0)
        s->readers--;
    else
        violate("bad-unlock", "T%d unlocks a rwlock nobody holds", cur->id);
    wake_all(W_RW, (uptr)l);
    sync_point(PC());
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!G.active || cur->inrt) {
        if (*o == 0) {
            *o = 2;
            fn();
        }
        return 0;
    }
    u32 pc = PC();
    sync_point(pc);
    Sync* s = get_sync((uptr)o);
    for (;;) {
        if (*o == 2) {
            hb_acquire(s->vc);
            return 0;
        }
        if (s->phase == 0)
            break;
        block(W_ONCE, (uptr)o, 0, 0, pc);
    }
    hb_acquire(s->vc); // an earlier attempt may have failed
    s->phase = 1;
    try {
        fn();
    } catch (...) {
        s->phase = 0;
        hb_release(s->vc);
        wake_all(W_ONCE, (uptr)o);
        throw;
    }
    *o = 2;
    s->phase = 0;
    hb_release(s->vc);
    wake_all(W_ONCE, (uptr)o);
    sync_point(pc);
    return 0;
}
}
// static-local guards
namespace __cxxabiv1 {
    extern "C" int __cxa_guard_acquire(__guard* g) {
        u8* b = (u8*)g;
        if (!G.active || cur->inrt) {
            if (b[0])
                return 0;
            b[1] = 1;
            return 1;
        }
        u32 pc = PC();
        sync_point(pc);
        Sync* s = get_sync(((uptr)g & ~(uptr)7) | 1);
        for (;;) {
            if (b[0]) {
                hb_acquire(s->vc);
                return 0;
            }
            if (!s->phase) {
                s->phase = cur->id + 1;
                hb_acquire(s->vc); // an earlier attempt may have failed
                cur->guard++;
                return 1;
            }
            if (s->phase == cur->id + 1) {
                add_stack("recursive init", (uptr)__builtin_frame_address(0), pc);
                violate("recursive-static-init", "T%d re-enters the initialisation of a local static", cur->id);
            }
            block(W_GUARD, (uptr)g, 0, 0, pc);
        }
    }
    extern "C" void __cxa_guard_release(__guard* g) noexcept {
        u8* b = (u8*)g;
        b[0] = 1;
        b[1] = 0;
        if (!G.active || cur->inrt)
            return;
        cur->guard--;
        Sync* s = get_sync(((uptr)g & ~(uptr)7) | 1);
        s->phase = 0;
        hb_release(s->vc);
        wake_all(W_GUARD, (uptr)g);
        sync_point(PC());
    }
    extern "C" void __cxa_guard_abort(__guard* g) noexcept {
        u8* b = (u8*)g;
        b[1] = 0;
        if (!G.active || cur->inrt)
            return;
        cur->guard--;
        Sync* s = get_sync(((uptr)g & ~(uptr)7) | 1);
        s->phase = 0;
        hb_release(s->vc);
        wake_all(W_GUARD, (uptr)g);
    }
}
// futures
static bool futex_until(unsigned* a, unsigned val, bool has_to, u64 deadline, u32 pc) {
    sync_point(pc);
    if (*a != val)
        return true;
    if (has_to && G.simns >= deadline)
        return false;
    block(W_FUTEX, (uptr)a, has_to ? (deadline ? deadline : 1) : 0, 0, pc);
    if (cur->signaled || *a != val)
        return true;
    return !has_to || G.simns < deadline;
}
namespace std {
    namespace chrono_stub {}
}
extern "C" {
bool sim_futex_wait_until(void*, unsigned* a, unsigned v, bool has, int64_t s, int64_t ns) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait_until(void*, unsigned* a, unsigned v, bool has, int64_t s, int64_t ns) {
    if (!G.active || cur->inrt)
        return true;
    struct timespec ts = {s, ns};
    return futex_until(a, v, has, has ? deadline_of(CLOCK_REALTIME, &ts) : 0, PC());
}
bool sim_futex_wait_until_steady(void*, unsigned* a, unsigned v, bool has, int64_t s, int64_t ns) asm("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait_until_steady(void*, unsigned* a, unsigned v, bool has, int64_t s, int64_t ns) {
    if (!G.active || cur->inrt)
        return true;
    struct timespec ts = {s, ns};
    return futex_until(a, v, has, has ? deadline_of(CLOCK_MONOTONIC, &ts) : 0, PC());
}
void sim_futex_notify_all(unsigned* a) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void sim_futex_notify_all(unsigned* a) {
    if (!G.active || cur->inrt)
        return;
    wake_all(W_FUTEX, (uptr)a);
    sync_point(PC());
}
}
// exceptions: reference counts live in uninstrumented libstdc++; give them their happens-before edges
static INL void exc_edge() {
    if (G.active && cur && !cur->inrt) {
        hb_acquire(G.exc_vc);
        hb_release(G.exc_vc);
    }
}
namespace std {
    namespace __exception_ptr {
        struct exception_ptr_layout {
            void* p;
        };
    }
}
extern "C" {
void sim_eptr_release(void* self) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void sim_eptr_release(void* self) {
    typedef void (*F)(void*);
    static F f;
    if (!f)
        f = next_sym<F>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    exc_edge();
    f(self);
}
void sim_eptr_addref(void* self) asm("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void sim_eptr_addref(void* self) {
    typedef void (*F)(void*);
    static F f;
    if (!f)
        f = next_sym<F>("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
    exc_edge();
    f(self);
}
void sim_end_catch() asm("__cxa_end_catch");
void sim_end_catch() {
    typedef void (*F)();
    static F f;
    if (!f)
        f = next_sym<F>("__cxa_end_catch");
    exc_edge();
    f();
}
}

// ------------------------------------------------------------------------------------------------ clocks
static const u64 MONO0 = 1000000000000ull; // simulated monotonic clock starts at 1000 s
static int64_t wall_ns() { return (G.clock_base + G.clock_jump) * 1000000000ll + (int64_t)G.simns; }
static void maybe_jump() {
    if (cur && !cur->inrt && !cur->pause) {
        u64 v = decide(F_CLOCKJUMP, 2000);
        if (v)
            G.clock_jump += ((int64_t)v - 1000) * 3600 * 7;
    }
}
static u64 deadline_of(clockid_t c, const struct timespec* ts) {
    int64_t w = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    int64_t rel = c == CLOCK_REALTIME ? w - wall_ns() : w - (int64_t)(MONO0 + G.simns);
    if (rel <= 0)
        return G.simns ? G.simns : 1;
    return G.simns + (u64)rel;
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!G.active)
        return (int)sys(SYS_clock_gettime, c, (long)ts);
    G.simns += 50;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        maybe_jump();
        int64_t w = wall_ns();
        ts->tv_sec = w / 1000000000;
        ts->tv_nsec = w % 1000000000;
    } else {
        u64 m = MONO0 + G.simns;
        ts->tv_sec = (time_t)(m / 1000000000);
        ts->tv_nsec = (long)(m % 1000000000);
    }
    return 0;
}
time_t time(time_t* o) {
    time_t r;
    if (!G.active) {
        r = 1700000000;
    } else {
        maybe_jump();
        r = wall_ns() / 1000000000;
    }
    if (o)
        *o = r;
    return r;
}
int gettimeofday(struct timeval* tv, void*) {
    if (!G.active) {
        tv->tv_sec = 1700000000;
        tv->tv_usec = 0;
        return 0;
    }
    maybe_jump();
    int64_t w = wall_ns();
    tv->tv_sec = w / 1000000000;
    tv->tv_usec = (w % 1000000000) / 1000;
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*) {
    if (!G.active)
        return 0;
    u64 dl = (flags & TIMER_ABSTIME) ? deadline_of(c, ts) : G.simns + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
    if (!dl)
        dl = 1;
    sync_point(PC());
    block(W_SLEEP, 0, dl, 0, PC());
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
    clock_nanosleep(CLOCK_MONOTONIC, 0, ts, nullptr);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
}

// ------------------------------------------------------------------------------------------------ simulated filesystem
struct SFile {
    char path[128];
    char* data;
    size_t len, cap;
    bool exists;
};
static const int MAXF = 32, FD0 = 0x4000, MAXFD = 64;
static SFile files[MAXF];
static int nfiles;
struct SFd {
    bool open;
    int file;
    size_t pos;
    bool rd, wr, app;
    FILE* fp;
};
static SFd fds[MAXFD];
static bool is_sim_path(const char* p) { return p[0] == '/' && p[1] == 's' && p[2] == 'i' && p[3] == 'm' && p[4] == '/'; }
static SFile* fs_find(const char* p, bool create) {
    for (int i = 0; i < nfiles; i++)
        if (!xcmp(files[i].path, p))
            return (files[i].exists || create) ? &files[i] : nullptr;
    if (!create || nfiles >= MAXF || xlen(p) > 120)
        return nullptr;
    SFile* f = &files[nfiles++];
    xset(f, 0, sizeof *f);
    xcpy(f->path, p, xlen(p) + 1);
    return f;
}
static void fs_grow(SFile* f, size_t n) {
    if (n <= f->cap)
        return;
    size_t c = f->cap ? f->cap * 2 : 4096;
    while (c < n)
        c *= 2;
    char* d = (char*)rt_alloc(c);
    if (f->len)
        xcpy(d, f->data, f->len);
    f->data = d;
    f->cap = c;
}
static int fs_open(const char* path, bool rd, bool wr, bool trunc, bool app, bool create) {
    sync_point(PC());
    if (G.iof)
        if (u64 v = decide(F_OPEN, 3)) {
            static const int E[] = {EMFILE, EACCES, EIO};
            errno = E[v - 1];
            return -1;
        }
    SFile* f = fs_find(path, false);
    if (!f) {
        if (!create) {
            errno = ENOENT;
            return -1;
        }
        f = fs_find(path, true);
        if (!f) {
            errno = ENFILE;
            return -1;
        }
        f->exists = true;
        f->len = 0;
    }
    if (trunc) {
        if (G.disk_left >= 0)
            G.disk_left += (long)f->len;
        f->len = 0;
    }
    for (int i = 0; i < MAXFD; i++)
        if (!fds[i].open) {
            fds[i].open = true;
            fds[i].file = (int)(f - files);
            fds[i].pos = 0;
            fds[i].rd = rd;
            fds[i].wr = wr;
            fds[i].app = app;
            fds[i].fp = nullptr;
            return FD0 + i;
        }
    errno = EMFILE;
    return -1;
}
static SFd* get_fd(int fd) { return fd >= FD0 && fd < FD0 + MAXFD && fds[fd - FD0].open ? &fds[fd - FD0] : nullptr; }
static ssize_t fs_read(SFd* d, void* buf, size_t n) {
    if (!d->rd) {
        errno = EBADF;
        return -1;
    }
    SFile* f = &files[d->file];
    size_t av = d->pos < f->len ? f->len - d->pos : 0;
    if (n > av)
        n = av;
    if (G.iof) {
        if (decide(F_EINTR, 1)) {
            errno = EINTR;
            return -1;
        }
        if (decide(F_REIO, 1)) {
            errno = EIO;
            return -1;
        }
        if (n > 1) {
            u64 v = decide(F_RSHORT, n - 1);
            if (v)
                n = (size_t)v;
        }
        if (G.hard_kind == 2) {
            if ((long)d->pos >= G.hard_after && n) {
                errno = G.hard_err;
                G.fired[F_REIO]++;
                return -1;
            }
            if ((long)(d->pos + n) > G.hard_after)
                n = (size_t)(G.hard_after - (long)d->pos);
        }
    }
    if (n)
        xcpy(buf, f->data + d->pos, n);
    d->pos += n;
    return (ssize_t)n;
}
static ssize_t fs_write(SFd* d, const void* buf, size_t n) {
    if (!d->wr) {
        errno = EBADF;
        return -1;
    }
    SFile* f = &files[d->file];
    if (G.iof && n) {
        if (decide(F_EINTR, 1)) {
            errno = EINTR;
            return -1;
        }
        if (decide(F_ENOSPC, 1)) {
            errno = ENOSPC;
            return -1;
        }
        if (decide(F_WEIO, 1)) {
            errno = EIO;
            return -1;
        }
        if (n > 1) {
            u64 v = decide(F_WSHORT, n - 1);
            if (v)
                n = (size_t)v;
        }
        if (G.hard_kind == 1) {
            if ((long)d->pos >= G.hard_after) {
                errno = G.hard_err;
                G.fired[F_WEIO]++;
                return -1;
            }
            if ((long)(d->pos + n) > G.hard_after)
                n = (size_t)(G.hard_after - (long)d->pos);
        }
        if (G.disk_left >= 0) {
            if (G.disk_left == 0) {
                errno = ENOSPC;
                G.fired[F_ENOSPC]++;
                return -1;
            }
            if ((long)n > G.disk_left)
                n = (size_t)G.disk_left;
            G.disk_left -= (long)n;
        }
    }
    if (d->app)
        d->pos = f->len;
    fs_grow(f, d->pos + n);
    if (d->pos > f->len)
        xset(f->data + f->len, 0, d->pos - f->len);
    if (n)
        xcpy(f->data + d->pos, buf, n);
    d->pos += n;
    if (d->pos > f->len)
        f->len = d->pos;
    return (ssize_t)n;
}
static off64_t fs_seek(SFd* d, off64_t o, int wh) {
    off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)d->pos : (off64_t)files[d->file].len;
    if (b + o < 0) {
        errno = EINVAL;
        return -1;
    }
    d->pos = (size_t)(b + o);
    return b + o;
}
static int fs_close(SFd* d) {
    d->open = false;
    if (G.iof && d->wr)
        if (u64 v = decide(F_CLOSE, 8)) { // writing back fails: some of the end never reaches the disk, and close() is the last to tell
            SFile* f = &files[d->file];
            f->len = f->len * (size_t)(v - 1) / 8;
            errno = EIO;
            return -1;
        }
    return 0;
}
extern "C" {
static ssize_t ck_read(void* c, char* b, size_t n) { return fs_read(&fds[(uptr)c], b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    ssize_t k = fs_write(&fds[(uptr)c], b, n);
    return k < 0 ? 0 : k;
}
static int ck_seek(void* c, off64_t* o, int wh) {
    off64_t r = fs_seek(&fds[(uptr)c], *o, wh);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int ck_close(void* c) { return fs_close(&fds[(uptr)c]); }

static FILE* sim_fopen(const char* path, const char* mode) {
    bool plus = false;
    for (const char* m = mode; *m; m++)
        if (*m == '+')
            plus = true;
    bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
    int fd = fs_open(path, rd, wr, mode[0] == 'w', mode[0] == 'a', mode[0] != 'r');
    if (fd < 0)
        return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    cur->inrt++;
    FILE* f = fopencookie((void*)(uptr)(fd - FD0), mode, io);
    cur->inrt--;
    fds[fd - FD0].fp = f;
    return f;
}
FILE* fopen(const char* path, const char* mode) {
    if (G.active && cur && is_sim_path(path))
        return sim_fopen(path, mode);
    return next_sym<FILE* (*)(const char*, const char*)>("fopen")(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
    if (G.active && cur && is_sim_path(path))
        return sim_fopen(path, mode);
    return next_sym<FILE* (*)(const char*, const char*)>("fopen64")(path, mode);
}
int fileno(FILE* f) {
    for (int i = 0; i < MAXFD; i++)
        if (fds[i].open && fds[i].fp == f && f)
            return FD0 + i;
    return next_sym<int (*)(FILE*)>("fileno")(f);
}
int open(const char* path, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (G.active && cur && is_sim_path(path))
        return fs_open(path, (fl & O_ACCMODE) != O_WRONLY, (fl & O_ACCMODE) != O_RDONLY, fl & O_TRUNC, fl & O_APPEND, fl & O_CREAT);
    long r = sys(SYS_openat, AT_FDCWD, (long)path, fl, mode);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return (int)r;
}
int open64(const char* path, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open(path, fl, mode);
}
#define RET(x)                                                                                                          \
    long r_ = (x);                                                                                                      \
    if (r_ < 0 && r_ > -4096) {                                                                                         \
        errno = (int)-r_;                                                                                               \
        return -1;                                                                                                      \
    }                                                                                                                   \
    return r_
ssize_t read(int fd, void* b, size_t n) {
    if (SFd* d = get_fd(fd)) {
        sync_point(PC());
        return fs_read(d, b, n);
    }
    RET(sys(SYS_read, fd, (long)b, (long)n));
}
ssize_t write(int fd, const void* b, size_t n) {
    if (SFd* d = get_fd(fd)) {
        sync_point(PC());
        return fs_write(d, b, n);
    }
    RET(sys(SYS_write, fd, (long)b, (long)n));
}
ssize_t writev(int fd, const struct iovec* v, int k) {
    if (SFd* d = get_fd(fd)) {
        sync_point(PC());
        ssize_t tot = 0;
        for (int i = 0; i < k; i++) {
            if (!v[i].iov_len)
                continue;
            ssize_t r = fs_write(d, v[i].iov_base, v[i].iov_len);
            if (r < 0)
                return tot ? tot : -1;
            tot += r;
            if ((size_t)r < v[i].iov_len)
                return tot;
        }
        return tot;
    }
    RET(sys(SYS_writev, fd, (long)v, k));
}
off64_t lseek64(int fd, off64_t o, int wh) {
    if (SFd* d = get_fd(fd))
        return fs_seek(d, o, wh);
    RET(sys(SYS_lseek, fd, o, wh));
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
int close(int fd) {
    if (SFd* d = get_fd(fd))
        return fs_close(d);
    RET((int)sys(SYS_close, fd));
}
int fsync(int fd) {
    if (get_fd(fd))
        return 0;
    RET((int)sys(SYS_fsync, fd));
}
int fstat(int fd, struct stat* st) {
    if (SFd* d = get_fd(fd)) {
        xset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = (off_t)files[d->file].len;
        st->st_blksize = 4096;
        return 0;
    }
    RET((int)sys(SYS_fstat, fd, (long)st));
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
static int path_stat(const char* p, struct stat* st) {
    SFile* f = fs_find(p, false);
    if (!f) {
        errno = ENOENT;
        return -1;
    }
    xset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)f->len;
    return 0;
}
int stat(const char* p, struct stat* st) {
    if (G.active && is_sim_path(p))
        return path_stat(p, st);
    RET((int)sys(SYS_stat, (long)p, (long)st));
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int access(const char* p, int m) {
    if (G.active && is_sim_path(p)) {
        if (fs_find(p, false))
            return 0;
        errno = ENOENT;
        return -1;
    }
    RET((int)sys(SYS_access, (long)p, m));
}
static int fs_unlink(const char* p) {
    SFile* f = fs_find(p, false);
    if (!f) {
        errno = ENOENT;
        return -1;
    }
    f->exists = false;
    f->len = 0;
    f->path[0] = '!'; // open descriptors keep the data, the name is gone
    return 0;
}
int unlink(const char* p) {
    if (G.active && is_sim_path(p))
        return fs_unlink(p);
    RET((int)sys(SYS_unlink, (long)p));
}
int remove(const char* p) {
    if (G.active && is_sim_path(p))
        return fs_unlink(p);
    RET((int)sys(SYS_unlink, (long)p));
}
int rename(const char* a, const char* b) {
    if (G.active && is_sim_path(a)) {
        SFile* f = fs_find(a, false);
        if (!f) {
            errno = ENOENT;
            return -1;
        }
        if (SFile* g = fs_find(b, false))
            if (g != f)
                g->exists = false, g->path[0] = '!';
        xcpy(f->path, b, xlen(b) + 1);
        return 0;
    }
    RET((int)sys(SYS_rename, (long)a, (long)b));
}
}

// ------------------------------------------------------------------------------------------------ workload API
struct WL {
    const char* name;
    sim::WorkloadFn fn;
};
static WL wls[64];
static int nwl;
namespace sim {
    Reg::Reg(const char* name, WorkloadFn fn) {
        wls[nwl].name = name;
        wls[nwl].fn = fn;
        nwl++;
    }
}
extern "C" {
uint64_t sim_rnd(uint64_t n) { return G.rw.below(n); }
int sim_rnd_bool(int a, int b) { return (int)G.rw.below((u64)b) < a; }
int sim_op(int i) {
    if (i >= 0 && (u32)i >= SH->nops)
        SH->nops = (u32)i + 1;
    return i < 0 || i >= MAX_OPS ? 1 : !G.op_disabled[i];
}
void sim_note(const char* f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    size_t n = xvfmt(b, sizeof b, f, ap);
    va_end(ap);
    char p[64];
    size_t k = xfmt(p, sizeof p, "[%llu T%d] ", (unsigned long long)G.step, cur ? cur->id : -1);
    for (size_t i = 0; i < n; i++)
        G.hash = (G.hash ^ (u8)b[i]) * 0x100000001b3ull;
    if (SH->note_len + n + k + 2 < NOTE_SZ) {
        xcpy(SH->notes + SH->note_len, p, k);
        xcpy(SH->notes + SH->note_len + k, b, n);
        SH->notes[SH->note_len + k + n] = '\n';
        SH->note_len += (u32)(n + k + 1);
    }
}
void sim_violation(const char* cls, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    vviolate(cls, f, ap);
    __builtin_unreachable();
}
void sim_probe(int id) {
    if (id >= 0 && id < 32)
        SH->probes[id]++;
}
uint64_t sim_seq() { return ++G.seq; }
uint64_t sim_steps() { return G.step; }
uint64_t sim_time_ns() { return G.simns; }
int sim_alive(int t) { return t >= 0 && t < G.nthr && G.thr[t].state != ST_DONE; }
int sim_tid() { return cur ? cur->id : -1; }
void sim_pause() { cur->pause++; }
void sim_resume() { cur->pause--; }
void sim_yield() { sched_yield(); }
void sim_set_hw(unsigned n) { G.hw = n; }
int dal_sim_batch_size = 1024; // read by the DAL_SIMULATION hook in dal/script/simulation.hpp
void sim_set_batch(int n) { dal_sim_batch_size = n; }
void sim_quiet(int on) {
    for (int i = 0; i < G.nthr; i++)
        G.thr[i].quiet = on;
}
void sim_step_cap(uint64_t c) {
    G.step_cap = G.step + c;
    refresh_trigger();
}
void sim_fault_rate(int k, unsigned r, unsigned m) {
    G.rate[k] = r;
    G.maxf[k] = G.fired[k] + m; // from now on
}
int sim_fault(int k) { return decide(k, 1) != 0; }
uint64_t sim_fault_count(int k) { return G.fired[k]; }
void sim_alloc_faults(int on) {
    if (on)
        cur->alloc_rel = cur->alloc_hit = 0;
    cur->allocf = on;
}
void sim_alloc_fail_at(uint64_t n) { cur->alloc_force = n; }
uint64_t sim_alloc_failed_at() { return cur->alloc_hit; }
uint64_t sim_live_blocks() { return live_blocks; }
uint64_t sim_live_bytes() { return live_bytes; }
void sim_origins(int on) {
    if (on)
        n_origins = 0;
    keep_origins = on != 0;
}
void sim_kept(const char* cls, const char* what) { // reports a block made since sim_origins(1) that is still there
    for (u32 i = 0; i < n_origins; i++) {
        Origin& o = origins[i];
        Hdr* h = (Hdr*)(o.p - 16);
        bool last = true; // of those at this address
        for (u32 j = i + 1; j < n_origins && last; j++)
            last = origins[j].p != o.p;
        if ((h->size & FREED_BIT) || !last)
            continue;
        for (u32 pc : o.pc)
            if (pc)
                add_pc("kept block made at", pc);
        break;
    }
    sim_violation(cls, "%s", what);
}
void sim_alloc_faults_all(int on) { G.allocf_all = on; }
void sim_io_faults(int on) { G.iof = on != 0; }
void sim_alloc_reuse(int on) { G.reuse = on != 0; }
void sim_fs_put(const char* path, const char* data, size_t n) {
    SFile* f = fs_find(path, true);
    f->exists = true;
    f->len = 0;
    fs_grow(f, n);
    if (n)
        xcpy(f->data, data, n);
    f->len = n;
}
long sim_fs_size(const char* path) {
    SFile* f = fs_find(path, false);
    return f ? (long)f->len : -1;
}
size_t sim_fs_get(const char* path, char* out, size_t cap) {
    SFile* f = fs_find(path, false);
    if (!f)
        return 0;
    size_t n = f->len < cap ? f->len : cap;
    xcpy(out, f->data, n);
    return n;
}
void sim_fs_capacity(long b) { G.disk_left = b; }
void sim_fs_hard_fault(int k, long after, int err) {
    G.hard_kind = k;
    G.hard_after = after;
    G.hard_err = err;
}
int sim_fs_open_count() {
    int n = 0;
    for (int i = 0; i < MAXFD; i++)
        n += fds[i].open;
    return n;
}
void sim_clock_set(int64_t s) { G.clock_base = s, G.clock_jump = 0; }
void sim_clock_jump(int64_t s) { G.clock_jump += s; }
int64_t sim_clock_now() { return wall_ns() / 1000000000; }
}

// ------------------------------------------------------------------------------------------------ run control
static void on_signal(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc;
    if (sig == SIGALRM) { // the machine stood still, or the run is stuck outside the simulator's control: run_one tries again
        SH->status = V_STALLED;
        finish_child(V_VIOL);
    }
    if (sig == SIGPROF) {
        if (SH->status == V_NONE) {
            SH->status = V_VIOL;
            xfmt(SH->cls, sizeof SH->cls, "hang");
            xfmt(SH->msg, sizeof SH->msg, "run made no observable progress within its CPU-time allowance");
        }
        finish_child(V_VIOL);
    }
    u32 pc = (u32)u->uc_mcontext.gregs[REG_RIP];
    add_stack("crash", (uptr)u->uc_mcontext.gregs[REG_RBP], (uptr)u->uc_mcontext.gregs[REG_RIP] < LOW_HI ? pc : 0);
    const char* c = sig == SIGABRT ? "abort" : "crash";
    for (int i = 0; i < n_fault_pcs; i++)
        add_pc("alloc-fault", fault_pcs[i]);
    if (sig == SIGSEGV && (uptr)si->si_addr - HEAP_LO < HEAP_SZ)
        c = "use-after-free";
    violate(c, "signal %d (%s) in T%d", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT: uncaught exception or terminate" : sig == SIGFPE ? "SIGFPE" : "other",
            cur ? cur->id : -1);
}
static char altstacks[MAXT][16384] __attribute__((aligned(16)));
static void sig_setup_thread() {
    stack_t ss;
    ss.ss_sp = altstacks[cur ? cur->id : 0];
    ss.ss_size = 16384;
    ss.ss_flags = 0;
    sys(SYS_sigaltstack, (long)&ss, 0);
}
static void* main_entry(void* p) {
    ((sim::WorkloadFn)p)();
    G.active = false;
    finish_child(V_OK);
    return nullptr;
}
struct Request {
    const WL* wl;
    u64 seed;
    bool replay;
    const SchedEnt* s;
    u32 ns;
    const FaultEnt* f;
    u32 nf;
    const u8* dis;
};
static void child(const Request& q) {
    sys(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL);
    struct sigaction sa;
    xset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGPROF};
    for (int s : sg)
        sigaction(s, &sa, nullptr);
    struct itimerval it = {{0, 0}, {G.wall_s, 0}}, it2 = {{0, 0}, {2 * G.wall_s, 0}};
    setitimer(ITIMER_PROF, &it, nullptr); // CPU time: does not depend on what else the machine does
    setitimer(ITIMER_REAL, &it2, nullptr);
    G.seed = q.seed;
    G.rw.s = q.seed * 0x9E3779B97F4A7C15ull + 1;
    G.rs.s = q.seed * 0xD1B54A32D192ED03ull + 2;
    G.rf.s = q.seed * 0x8CB92BA72F3D8DD7ull + 3;
    for (int i = 0; i < 4; i++)
        G.rw.next(), G.rs.next(), G.rf.next();
    G.hash = 0xcbf29ce484222325ull;
    G.ihash = 0xcbf29ce484222325ull;
    G.step_cap = 4000000;
    G.quantum = QUANTUM;
    G.hw = 4;
    sim_set_batch(1024);
    G.disk_left = -1;
    G.clock_base = 1700000000;
    G.replay = q.replay;
    G.rsched = q.s;
    G.nrsched = q.ns;
    G.rfault = q.f;
    G.nrfault = q.nf;
    if (q.dis)
        xcpy(G.op_disabled, q.dis, sizeof G.op_disabled);
    // swarm: scheduling policy of this run
    static const u64 means[] = {0, 12, 40, 150, 600, 2500, 10000};
    static const u32 syncs[] = {20000, 80000, 200000, 400000, 700000};
    static const u32 confs[] = {0, 0, 5000, 30000, 150000};
    G.preempt_mean = means[G.rs.below(7)];
    G.sync_ppm = syncs[G.rs.below(5)];
    G.conf_ppm = confs[G.rs.below(5)];
    G.stall_ppm = G.rs.below(4) == 0 ? 3000 : 0;
    G.policy = G.rs.below(5) == 0 ? 1 : 0;
    if (G.policy == 1)
        G.preempt_mean = 200 + G.rs.below(8000);
    // default (cheap) fault kinds that any pthread client must tolerate
    G.rate[F_SPURIOUS] = G.rs.below(2) ? 60000 : 0;
    G.maxf[F_SPURIOUS] = 50;
    G.rate[F_SIGPICK] = G.rs.below(2) ? 400000 : 0;
    G.maxf[F_SIGPICK] = 1000;
    Thr* m = new_thread(main_entry, (void*)q.wl->fn);
    for (int i = 0; i < ndeferred; i++) {
        Thr* t = new_thread(deferred[i].fn, deferred[i].arg);
        (void)t;
    }
    G.step = 1;
    draw_preempt();
    mem_trigger = ~0ull;
    cur = m;
    refresh_trigger();
    G.active = true;
    __atomic_store_n(&m->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&m->go);
    for (;;)
        sys(SYS_pause);
}
static void run_once(const Request& q) {
    size_t head = (size_t)((char*)&SH->sched[0] - (char*)SH);
    xset(SH, 0, head);
    int pid = fork();
    if (pid == 0) {
        child(q);
        sys(SYS_exit_group, 95);
    }
    int st = 0;
    while (sys(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {
    }
    if (SH->status == V_NONE && (st & 127) == SIGKILL) // ended from outside
        SH->status = V_STALLED;
    if (SH->status == V_NONE) {
        SH->status = V_VIOL;
        xfmt(SH->cls, sizeof SH->cls, "died");
        xfmt(SH->msg, sizeof SH->msg, "simulated process ended without a verdict (wait status %d)", st);
    }
}
static void run_one(const Request& q) {
    for (int k = 0; k < 3; k++) {
        run_once(q);
        if (SH->status != V_STALLED)
            return;
    }
    SH->status = V_VIOL;
    xfmt(SH->cls, sizeof SH->cls, "hang");
    xfmt(SH->msg, sizeof SH->msg, "run is stuck without using the processor or is ended from outside, three times in a row");
}
// ---- output ---------------------------------------------------------------------------------------------------
struct Out {
    int fd;
    char b[65536];
    size_t n;
    __attribute__((format(printf, 2, 3))) void f(const char* s, ...) {
        if (n > 60000)
            flush();
        va_list ap;
        va_start(ap, s);
        n += xvfmt(b + n, sizeof b - n, s, ap);
        va_end(ap);
    }
    void raw(const char* s, size_t k) {
        flush();
        raw_write(fd, s, k);
    }
    void flush() {
        raw_write(fd, b, n);
        n = 0;
    }
};
static Out O;
static void dump(const char* path, const Request& q) {
    O.fd = (int)sys(SYS_open, (long)path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    O.n = 0;
    O.f("workload %s\nseed %llu\nstatus %d\nclass %s\n", q.wl->name, (unsigned long long)q.seed, SH->status, SH->cls);
    O.f("hash %llx\nihash %llx\nsteps %llu\nswitches %llu\npreempts %llu\nsimns %llu\nthreads %llu\nnops %u\n", (unsigned long long)SH->hash, (unsigned long long)SH->ihash,
        (unsigned long long)SH->steps, (unsigned long long)SH->switches, (unsigned long long)SH->preempts, (unsigned long long)SH->simns,
        (unsigned long long)SH->threads, SH->nops);
    O.f("msg ");
    for (char* c = SH->msg; *c; c++)
        if (*c == '\n')
            *c = '|';
    O.raw(SH->msg, xlen(SH->msg));
    O.f("\n");
    for (u32 i = 0; i < SH->npc; i++)
        O.f("pc %x %s\n", SH->pcs[i], SH->pclabel[i]);
    if (q.dis)
        for (int i = 0; i < MAX_OPS; i++)
            if (q.dis[i])
                O.f("d %d\n", i);
    for (u32 i = 0; i < SH->nsched; i++)
        O.f("s %llu %u %u %x\n", (unsigned long long)SH->sched[i].step, SH->sched[i].tid, SH->sched[i].kind, SH->sched[i].pc);
    for (u32 i = 0; i < SH->nfault; i++)
        O.f("f %u %u %llu %llu\n", SH->fault[i].kind, SH->fault[i].idx, (unsigned long long)SH->fault[i].val, (unsigned long long)SH->fault[i].step);
    O.f("notes\n");
    O.raw(SH->notes, SH->note_len);
    O.flush();
    sys(SYS_close, O.fd);
}
static const WL* find_wl(const char* n) {
    for (int i = 0; i < nwl; i++)
        if (!xcmp(wls[i].name, n))
            return &wls[i];
    return nullptr;
}
static u64 parse_u(const char*& p) {
    while (*p == ' ')
        p++;
    u64 v = 0;
    while (*p >= '0' && *p <= '9')
        v = v * 10 + (u64)(*p++ - '0');
    return v;
}
static void parse_tok(const char*& p, char* o, size_t cap) {
    while (*p == ' ')
        p++;
    size_t n = 0;
    while (*p && *p != ' ' && *p != '\n') {
        if (n + 1 < cap)
            o[n++] = *p;
        p++;
    }
    o[n] = 0;
}
static SchedEnt* rs_buf;
static FaultEnt* rf_buf;
static u8 dis_buf[MAX_OPS];
static bool load_replay(const char* path, Request& q) {
    int fd = (int)sys(SYS_open, (long)path, O_RDONLY, 0);
    if (fd < 0)
        return false;
    struct stat st;
    sys(SYS_fstat, fd, (long)&st);
    size_t n = (size_t)st.st_size;
    char* b = (char*)sys(SYS_mmap, 0, (long)n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t got = 0;
    while (got < n) {
        long k = sys(SYS_read, fd, (long)(b + got), (long)(n - got));
        if (k <= 0)
            break;
        got += (size_t)k;
    }
    sys(SYS_close, fd);
    if (!rs_buf) {
        rs_buf = (SchedEnt*)sys(SYS_mmap, 0, sizeof(SchedEnt) * MAX_SCHED, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        rf_buf = (FaultEnt*)sys(SYS_mmap, 0, sizeof(FaultEnt) * MAX_FAULT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    xset(dis_buf, 0, sizeof dis_buf);
    u32 ns = 0, nf = 0;
    q.wl = nullptr;
    q.seed = 0;
    const char* p = b;
    while (*p) {
        char t[64];
        const char* line = p;
        parse_tok(p, t, sizeof t);
        if (!xcmp(t, "notes"))
            break;
        if (!xcmp(t, "workload")) {
            char w[64];
            parse_tok(p, w, sizeof w);
            q.wl = find_wl(w);
        } else if (!xcmp(t, "seed"))
            q.seed = parse_u(p);
        else if (!xcmp(t, "d")) {
            u64 i = parse_u(p);
            if (i < MAX_OPS)
                dis_buf[i] = 1;
        } else if (!xcmp(t, "s") && ns < (u32)MAX_SCHED) {
            rs_buf[ns].step = parse_u(p);
            rs_buf[ns].tid = (u32)parse_u(p);
            rs_buf[ns].kind = (u32)parse_u(p);
            ns++;
        } else if (!xcmp(t, "f") && nf < (u32)MAX_FAULT) {
            rf_buf[nf].kind = (u32)parse_u(p);
            rf_buf[nf].idx = (u32)parse_u(p);
            rf_buf[nf].val = parse_u(p);
            nf++;
        }
        (void)line;
        while (*p && *p != '\n')
            p++;
        if (*p)
            p++;
    }
    sys(SYS_munmap, (long)b, (long)n + 4096);
    q.replay = true;
    q.s = rs_buf;
    q.ns = ns;
    q.f = rf_buf;
    q.nf = nf;
    q.dis = dis_buf;
    return q.wl != nullptr;
}
static bool read_line(char* b, size_t cap) {
    size_t n = 0;
    for (;;) {
        char c;
        long k = sys(SYS_read, 0, (long)&c, 1);
        if (k == -EINTR)
            continue;
        if (k <= 0)
            return false;
        if (c == '\n')
            break;
        if (n + 1 < cap)
            b[n++] = c;
    }
    b[n] = 0;
    return true;
}
int main(int argc, char** argv) {
    char line[4096], tok[64];
    G.wall_s = 20;
    setenv("TZ", "UTC0", 1);
    tzset();
    SH = (Shared*)sys(SYS_mmap, 0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    while (read_line(line, sizeof line)) {
        const char* p = line;
        parse_tok(p, tok, sizeof tok);
        if (!xcmp(tok, "quit"))
            break;
        if (!xcmp(tok, "list")) {
            for (int i = 0; i < nwl; i++)
                outf("%s ", wls[i].name);
            outf("\n");
        } else if (!xcmp(tok, "wall")) {
            G.wall_s = (int)parse_u(p);
        } else if (!xcmp(tok, "batch")) {
            // batch <workload> <seed0> <stride> <count> <ms> <dir>  : runs until count or time or first violation
            char w[64], dir[1024], path[1200];
            parse_tok(p, w, sizeof w);
            u64 seed = parse_u(p), stride = parse_u(p), count = parse_u(p), ms = parse_u(p);
            parse_tok(p, dir, sizeof dir);
            Request q;
            xset(&q, 0, sizeof q);
            q.wl = find_wl(w);
            if (!q.wl) {
                outf("ERR no such workload\n");
                continue;
            }
            static u64 fired[F_NKIND], probes[32];
            xset(fired, 0, sizeof fired);
            xset(probes, 0, sizeof probes);
            u64 runs = 0, steps = 0, sw = 0, pre = 0, simns = 0, acc = 0, syn = 0, maxthr = 0, withf = 0;
            double t0 = real_now();
            xfmt(path, sizeof path, "%s/ih.%s.%llu", dir, w, (unsigned long long)seed);
            O.fd = (int)sys(SYS_open, (long)path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            int ihfd = O.fd;
            static u64 ih[4096 * 2];
            size_t nih = 0;
            int viol = 0;
            for (u64 i = 0; i < count; i++, seed += stride) {
                if ((real_now() - t0) * 1000 > (double)ms)
                    break;
                q.seed = seed;
                run_one(q);
                runs++;
                steps += SH->steps;
                sw += SH->switches;
                pre += SH->preempts;
                simns += SH->simns;
                acc += SH->accesses;
                syn += SH->syncs;
                if (SH->threads > maxthr)
                    maxthr = SH->threads;
                u64 anyf = 0;
                for (int k = 0; k < F_NKIND; k++)
                    fired[k] += SH->fired[k], anyf += SH->fired[k];
                withf += anyf != 0;
                for (int k = 0; k < 32; k++)
                    probes[k] += SH->probes[k];
                ih[nih++] = SH->ihash;
                ih[nih++] = SH->switches > 4 ? 1 : 0;
                if (nih >= 8192) {
                    raw_write(ihfd, (char*)ih, nih * 8);
                    nih = 0;
                }
                if (SH->status != V_OK) {
                    viol = 1;
                    xfmt(path, sizeof path, "%s/v.%s.%llu", dir, w, (unsigned long long)seed);
                    dump(path, q);
                    outf("VIOL %llu %d %s %s\n", (unsigned long long)seed, SH->status, SH->cls[0] ? SH->cls : "internal", path);
                    break;
                }
            }
            raw_write(ihfd, (char*)ih, nih * 8);
            sys(SYS_close, ihfd);
            outf("STAT {\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"simns\":%llu,\"accesses\":%llu,\"syncs\":%llu,\"maxthreads\":%llu,\"runs_with_faults\":%llu,\"viol\":%d,\"next_seed\":%llu,",
                 (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)simns,
                 (unsigned long long)acc, (unsigned long long)syn, (unsigned long long)maxthr, (unsigned long long)withf, viol, (unsigned long long)seed + stride * (u64)viol);
            outf("\"fired\":[");
            for (int k = 0; k < F_NKIND; k++)
                outf("%s%llu", k ? "," : "", (unsigned long long)fired[k]);
            outf("],\"probes\":[");
            for (int k = 0; k < 32; k++)
                outf("%s%llu", k ? "," : "", (unsigned long long)probes[k]);
            outf("]}\n");
        } else if (!xcmp(tok, "one")) {
            // one <workload> <seed> <outfile> : generate-mode single run, dumped
            char w[64], out[1024];
            parse_tok(p, w, sizeof w);
            u64 seed = parse_u(p);
            parse_tok(p, out, sizeof out);
            Request q;
            xset(&q, 0, sizeof q);
            q.wl = find_wl(w);
            q.seed = seed;
            if (!q.wl) {
                outf("ERR no such workload\n");
                continue;
            }
            run_one(q);
            dump(out, q);
            outf("DONE %d %s %llx %llu\n", SH->status, SH->cls[0] ? SH->cls : "-", (unsigned long long)SH->hash, (unsigned long long)SH->steps);
        } else if (!xcmp(tok, "replay")) {
            char in[1024], out[1024];
            parse_tok(p, in, sizeof in);
            parse_tok(p, out, sizeof out);
            Request q;
            xset(&q, 0, sizeof q);
            if (!load_replay(in, q)) {
                outf("ERR cannot load replay\n");
                continue;
            }
            run_one(q);
            dump(out, q);
            outf("DONE %d %s %llx %llu\n", SH->status, SH->cls[0] ? SH->cls : "-", (unsigned long long)SH->hash, (unsigned long long)SH->steps);
        } else
            outf("ERR unknown command\n");
    }
    return 0;
}
