// The same thing done again and again, failing for lack of memory at the same place each time or not at all: whatever it
// needed, it gives back.  Memory that is kept for the next time does not count: only what grows with every repetition.
#pragma once
#include <exception>
#include <string>
#include "sim.hpp"

namespace sim {
    template <class F_> uint64_t attempt_with_faults(const F_& what) {
        try {
            sim_alloc_faults(1);
            what();
            sim_alloc_faults(0);
        } catch (const std::exception&) {
            sim_alloc_faults(0);
        }
        return sim_alloc_failed_at();
    }
    template <class F_> void repeat(const char* name, const F_& what, uint64_t at) {
        const int N = 6;
        uint64_t live[N] = {};
        for (int i = 0; i < N; ++i) {
            sim_origins(i != 0);
            sim_alloc_fail_at(at);
            attempt_with_faults(what);
            sim_alloc_fail_at(0);
            sim_origins(0);
            live[i] = sim_live_blocks();
            if (i > 1 && live[i] <= live[i - 1])
                return;
        }
        Pause z;
        std::string text = std::string(name) + (at ? " fails and keeps " : " keeps ") + std::to_string(live[N - 1] - live[N - 2]) + " blocks of memory each time";
        sim_kept("memory-kept", text.c_str());
    }
    // ops: the first number of an operation that can be left out; returns the next
    template <class F_> int keeps_nothing(const char* name, const F_& what, int rounds, int ops) {
        sim_fault_rate(F_ALLOC, 0, 0);
        attempt_with_faults(what); // what is made once and for all is there from now on
        attempt_with_faults(what);
        if (sim_op(ops++))
            repeat(name, what, 0);
        static const unsigned rates[] = {1000, 5000, 20000, 100000};
        for (int r = 0; r < rounds; ++r) {
            unsigned rate = rates[sim_rnd(4)];
            if (!sim_op(ops++))
                continue;
            sim_fault_rate(F_ALLOC, rate, 1);
            uint64_t at = attempt_with_faults(what);
            sim_fault_rate(F_ALLOC, 0, 0);
            sim_probe(at ? 1 : 0);
            if (at)
                repeat(name, what, at);
        }
        return ops;
    }
}
