// Small linearizability checker (Wing & Gong with memoisation on (done-set, state digest)).
// Used with the simulator paused.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>
#include "sim.hpp"

namespace lin {
    struct Op {
        uint64_t inv = 0, ret = ~0ull; // global event sequence numbers; ret==~0: never returned
        int kind = 0;
        long a = 0, b = 0; // arguments
        long r = 0;        // result
    };
    // Model: struct with  bool apply(const Op&, bool pending)  (returns false when the result is impossible) and
    //                     std::string digest() const
    template <class M> bool search(const std::vector<Op>& ops, std::vector<char>& done, size_t left, const M& m, std::unordered_set<std::string>& seen, uint64_t& budget) {
        if (!left)
            return true;
        if (budget == 0)
            return true; // history too hard: give no alarm
        --budget;
        std::string key(done.begin(), done.end());
        key += m.digest();
        if (!seen.insert(key).second)
            return false;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < ops.size(); ++i)
            if (!done[i] && ops[i].ret < minret)
                minret = ops[i].ret;
        bool any_completed = false;
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done[i])
                continue;
            if (ops[i].ret != ~0ull)
                any_completed = true;
            if (ops[i].inv > minret)
                continue;
            M n(m);
            if (n.apply(ops[i])) {
                done[i] = 1;
                if (search(ops, done, left - 1, n, seen, budget)) {
                    done[i] = 0;
                    return true;
                }
                done[i] = 0;
            }
        }
        return !any_completed; // only never-returned operations left: they need not take effect
    }
    template <class M> bool linearizable(const std::vector<Op>& ops, const M& init, uint64_t budget = 2000000) {
        std::vector<char> done(ops.size(), 0);
        std::unordered_set<std::string> seen;
        return search(ops, done, ops.size(), init, seen, budget);
    }
}
