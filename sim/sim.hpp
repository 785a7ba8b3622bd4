// Simulator API visible to workloads (implemented in rt.cpp, which is NOT instrumented).
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
// --- workload PRNG stream (pure function of the run's seed) -----------------
uint64_t sim_rnd(uint64_t n);                 // uniform in [0,n)
int sim_rnd_bool(int num, int den);           // true with probability num/den
// --- minimisable operations: plan index i is executed only if enabled -------
int sim_op(int i);
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event log line
// --- verdict -----------------------------------------------------------------
void sim_violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_probe(int id);                       // "rare condition was hit" counter, id in [0,32)
// --- global event order ---------------------------------------------------------
uint64_t sim_seq();                           // next global event sequence number
uint64_t sim_steps();
uint64_t sim_time_ns();
int sim_tid();
int sim_alive(int tid);                       // has that simulated thread not finished yet?
// --- pausing: no scheduling, no race detection, no faults -------------------------
void sim_pause();
void sim_resume();
// --- HB edge helpers for harness-level joins ----------------------------------------
void sim_yield();
// --- configuration of the run -----------------------------------------------------------
void sim_set_hw(unsigned n);                  // simulated hardware_concurrency
void sim_set_batch(int n);
void sim_quiet(int on);                       // 1: no random preemption (still deterministic)
void sim_step_cap(uint64_t cap);
enum SimFault {
    F_SPURIOUS = 0, F_SIGPICK, F_CREATE, F_ALLOC, F_OPEN, F_ENOSPC, F_WEIO, F_WSHORT, F_EINTR,
    F_REIO, F_RSHORT, F_CLOSE, F_CLOCKJUMP, F_STALL, F_REUSE, F_USER0, F_USER1, F_USER2, F_USER3, F_NKIND
};
void sim_fault_rate(int kind, unsigned per_million, unsigned max_count); // per-run rates
int sim_fault(int kind);                      // workload-level fault point: fire?
uint64_t sim_fault_count(int kind);
void sim_alloc_faults(int on);                // this thread: allocation failures allowed while on
void sim_alloc_fail_at(uint64_t n);           // from now on exactly the n-th allocation after sim_alloc_faults(1) fails; 0: as the rates say
uint64_t sim_alloc_failed_at();               // which one failed since sim_alloc_faults(1); 0: none
uint64_t sim_live_blocks();                   // allocated and not freed
uint64_t sim_live_bytes();
void sim_origins(int on);                     // remember where blocks are made
void sim_kept(const char* cls, const char* what) __attribute__((noreturn)); // violation, with the origin of a block still there
void sim_alloc_faults_all(int on);            // every thread (except while paused)
void sim_io_faults(int on);                   // process-wide
void sim_alloc_reuse(int on);                 // freed blocks are handed out again at once
// --- simulated filesystem under /sim/ --------------------------------------------------------
void sim_fs_put(const char* path, const char* data, size_t n);
long sim_fs_size(const char* path);           // -1: absent
size_t sim_fs_get(const char* path, char* out, size_t cap);
void sim_fs_capacity(long bytes);             // bytes left on the disk, -1 unlimited
void sim_fs_hard_fault(int kind, long after_bytes, int err); // 0 off,1 write error,2 read error after n bytes
int sim_fs_open_count();
// --- clock -------------------------------------------------------------------------------------
void sim_clock_set(int64_t unix_sec);
void sim_clock_jump(int64_t sec);
int64_t sim_clock_now();
}

namespace sim {
    struct Pause {
        Pause() { sim_pause(); }
        ~Pause() { sim_resume(); }
    };
    using WorkloadFn = void (*)();
    struct Reg {
        Reg(const char* name, WorkloadFn fn);
    };
}
#define SIM_WORKLOAD(name)                                                                                              \
    static void wl_##name();                                                                                            \
    static sim::Reg reg_##name(#name, wl_##name);                                                                       \
    static void wl_##name()
