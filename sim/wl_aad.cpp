// Workload for the adjoint tape: histories of recording, marking, rewinding, propagating and clearing, on several threads
// and with several tapes per thread, against forward-mode derivatives computed by the harness.
#include <cmath>
#include <cstdio>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/aad/aad.hpp>
#include "sim.hpp"

using namespace Dal;
using AAD::Number_;
using AAD::TapNode_;
using AAD::Tape_;

namespace {
    const int MAXIN = 6, MAXRES = 4;
    struct Dual {
        double v = 0;
        double g[MAXIN] = {};
    };
    // reference arithmetic: value and gradient, nothing shared with the library
    Dual lin(double v, const Dual& a, double da) {
        Dual r;
        r.v = v;
        for (int i = 0; i < MAXIN; ++i)
            r.g[i] = da * a.g[i];
        return r;
    }
    Dual lin(double v, const Dual& a, double da, const Dual& b, double db) {
        Dual r;
        r.v = v;
        for (int i = 0; i < MAXIN; ++i)
            r.g[i] = da * a.g[i] + db * b.g[i];
        return r;
    }
    Dual add(const Dual& a, const Dual& b) { return lin(a.v + b.v, a, 1, b, 1); }
    Dual mul(const Dual& a, const Dual& b) { return lin(a.v * b.v, a, b.v, b, a.v); }
    Dual sub(const Dual& a, const Dual& b) { return lin(a.v - b.v, a, 1, b, -1); }
    Dual div(const Dual& a, const Dual& b) { return lin(a.v / b.v, a, 1 / b.v, b, -a.v / b.v / b.v); }
    Dual addc(const Dual& a, double c) { return lin(a.v + c, a, 1); }
    Dual mulc(const Dual& a, double c) { return lin(a.v * c, a, c); }
    Dual expd(const Dual& a) { return lin(std::exp(a.v), a, std::exp(a.v)); }
    Dual maxd(const Dual& a, const Dual& b) { return a.v > b.v ? a : b; }

    struct Num {
        Number_ n;
        Dual d;
        TapNode_* node = nullptr;
    };
    struct Fail {}; // an allocation failed

    struct Machine {
        int who;
        std::unique_ptr<Tape_> tape;
        int nin = 0;
        std::vector<Num> in, live; // live: everything recorded so far that may be used as an argument
        size_t multi = 0;
        uint64_t ops = 0;

        TapNode_* last() { // the node recorded last; not used for single results, because asking for the end may prepare the next block
            auto it = tape->End();
            --it;
            return &*it;
        }
        void check_value(const Num& r, const char* what) {
            if (!(std::fabs(r.n.value() - r.d.v) <= 1e-9 * (1 + std::fabs(r.d.v))))
                sim_violation("wrong-value", "T%d: %s gives %.17g instead of %.17g", who, what, r.n.value(), r.d.v);
        }
        const Num& any() { return live[(size_t)sim_rnd(live.size())]; }
        double konst() { return 0.5 + (double)sim_rnd(8) / 8.0; }
        // one recorded operation with 1 to 6 arguments; values stay of order one so that nothing over- or underflows
        Num op() {
            const Num &a = any(), &b = any(), &c = any();
            double k = konst();
            Num r;
            switch ((int)sim_rnd(13)) {
            case 0: r.n = a.n + b.n, r.d = add(a.d, b.d); break;
            case 1: r.n = a.n - b.n, r.d = sub(a.d, b.d); break;
            case 2: r.n = a.n * b.n, r.d = mul(a.d, b.d); break;
            case 3: r.n = a.n / (b.n * b.n + 1.0), r.d = div(a.d, addc(mul(b.d, b.d), 1.0)); break;
            case 4: r.n = a.n * k + c.n, r.d = add(mulc(a.d, k), c.d); break;
            case 5: {
                Dual q = addc(mul(b.d, b.d), 2.0);
                r.n = a.n * b.n / (b.n * b.n + 2.0) + c.n * k - a.n; // six arguments
                r.d = sub(add(div(mul(a.d, b.d), q), mulc(c.d, k)), a.d);
                break;
            }
            case 6: {
                Dual q = addc(mul(a.d, a.d), 1.0);
                r.n = sqrt(a.n * a.n + 1.0);
                r.d = lin(std::sqrt(q.v), q, 0.5 / std::sqrt(q.v));
                break;
            }
            case 7: {
                Dual q = addc(mul(a.d, a.d), k);
                r.n = log(a.n * a.n + k) + b.n;
                r.d = add(lin(std::log(q.v), q, 1 / q.v), b.d);
                break;
            }
            case 8: r.n = exp(-a.n * a.n) * b.n, r.d = mul(expd(mulc(mul(a.d, a.d), -1)), b.d); break;
            case 9:
                if (a.d.v == b.d.v) { // at a kink either derivative would do
                    r.n = a.n + 1.0, r.d = addc(a.d, 1.0);
                    break;
                }
                r.n = max(a.n, b.n), r.d = maxd(a.d, b.d);
                break;
            case 10: { // compound assignment, also onto a copy of an argument
                Number_ t = a.n;
                t += b.n;
                t *= k;
                r.n = t - c.n;
                r.d = sub(mulc(add(a.d, b.d), k), c.d);
                break;
            }
            case 11: // a constant that is recorded although nothing depends on it
                r.n = k;
                r.d.v = k;
                break;
            default: { // functions of one argument
                double x = a.d.v, e = 0.5 * std::erfc(-x / std::sqrt(2.0)), f = std::exp(-0.5 * x * x) / std::sqrt(2 * 3.14159265358979323846);
                r.n = NCDF(a.n) * 2.0, r.d = lin(2 * e, a.d, 2 * f);
                // the library's normal functions are approximations; trust its value, not the sign or the slope
                if (!(std::fabs(r.n.value() - r.d.v) < 1e-5))
                    sim_violation("wrong-value", "T%d: cumulative normal of %.17g is %.17g", who, x, r.n.value());
                r.d.v = r.n.value();
                double lf = Dal::NPDF(x);
                r.d = lin(r.n.value(), a.d, 2 * lf);
                break;
            }
            }
            if (std::fabs(r.d.v) > 40) { // keep everything of order one
                Num s;
                s.n = r.n / 64.0;
                s.d = mulc(r.d, 1 / 64.0);
                r = s;
            }
            ++ops;
            check_value(r, "a recorded operation");
            return r;
        }
        void inputs() {
            nin = 1 + (int)sim_rnd(MAXIN);
            in.clear();
            for (int i = 0; i < nin; ++i) {
                Num x;
                double v = ((double)sim_rnd(33) - 16) / 8.0;
                if (sim_rnd_bool(1, 2))
                    x.n = v;
                else {
                    x.n = Number_(v);
                    x.n.PutOnTape();
                }
                x.d.v = v;
                x.d.g[i] = 1;
                if (multi)
                    x.node = last();
                in.push_back(x);
            }
            live = in;
        }
        void record(int n) {
            for (int i = 0; i < n; ++i)
                live.push_back(op());
        }
        void near(double got, double want, double scale, const char* what, int i) {
            if (!(std::fabs(got - want) <= 1e-8 * (1 + std::fabs(want) + scale)))
                sim_violation("wrong-adjoint", "T%d: %s: the adjoint of input %d is %.17g instead of %.17g (%llu operations recorded)", who, what, i, got, want, (unsigned long long)ops);
        }
        double size_of(const Dual& d) {
            double s = std::fabs(d.v);
            for (double x : d.g)
                s += std::fabs(x);
            return s;
        }
        int len() { return sim_rnd_bool(1, 3) ? (int)sim_rnd(6) : sim_rnd_bool(1, 2) ? 10 + (int)sim_rnd(30) : (int)sim_rnd(80); }

        // record, propagate from any result, reset, again from another one
        void plain() {
            inputs();
            record(1 + len());
            for (int k = 1 + (int)sim_rnd(3); k-- > 0;) {
                Num r = live[(size_t)sim_rnd(live.size())];
                r.n.PropagateToStart();
                double s = size_of(r.d);
                for (int i = 0; i < nin; ++i)
                    near(in[(size_t)i].n.Adjoint(), r.d.g[i], s, "propagation to the start", i);
                r.n.ResetAdjoints();
                for (auto& l : live)
                    if (l.n.Adjoint() != 0)
                        sim_violation("adjoint-not-reset", "T%d: an adjoint is %.17g after all adjoints were reset", who, l.n.Adjoint());
                if (sim_rnd_bool(1, 2))
                    record((int)sim_rnd(20));
            }
        }
        // the Monte-Carlo pattern: common part, mark, many short recordings that are propagated to the mark and rewound
        void paths() {
            inputs();
            record(len());
            tape->Mark();
            std::vector<Num> common = live;
            Dual sum;
            double scale = 0;
            int np = 1 + (int)sim_rnd(5);
            for (int p = 0; p < np; ++p) {
                if (p || sim_rnd_bool(1, 2))
                    tape->RewindToMark();
                live = common;
                record(1 + len());
                Num r = live.back();
                r.n.PropagateToMark();
                sum = add(sum, r.d);
                scale += size_of(r.d);
            }
            Number_::PropagateMarkToStart();
            for (int i = 0; i < nin; ++i)
                near(in[(size_t)i].n.Adjoint(), sum.g[i], scale, "paths propagated to the mark, then to the start", i);
            tape->RewindToMark();
            live = common;
            if (sim_rnd_bool(1, 2)) { // and the common part is still good for more
                in[0].n.ResetAdjoints();
                record(1 + (int)sim_rnd(20));
                Num r = live.back();
                r.n.PropagateToStart();
                for (int i = 0; i < nin; ++i)
                    near(in[(size_t)i].n.Adjoint(), r.d.g[i], size_of(r.d), "propagation after rewinding to the mark", i);
            }
        }
        void sweep(bool from_mark, bool to_mark) { // everything recorded, or everything before the mark
            auto it = from_mark ? tape->MarkIt() : tape->End();
            --it;
            Number_::PropagateAdjointsMulti(it, to_mark ? tape->MarkIt() : tape->Begin());
        }
        std::vector<Num> results(int m) {
            std::vector<Num> res;
            for (int j = 0; j < m; ++j) {
                Num r = op();
                r.node = last();
                live.push_back(r);
                res.push_back(r);
            }
            return res;
        }
        // as paths(), with several results
        void several_paths(int m) {
            inputs();
            record(len());
            if (sim_rnd_bool(1, 3)) // fill up what a block holds, so that the mark is at its very end
                record((int)sim_rnd(16));
            tape->Mark();
            std::vector<Num> common = live;
            std::vector<Dual> sum((size_t)m);
            double scale = 0;
            for (int p = 0, np = 1 + (int)sim_rnd(4); p < np; ++p) {
                if (p || sim_rnd_bool(1, 2))
                    tape->RewindToMark();
                live = common;
                record(len());
                auto res = results(m);
                for (int j = 0; j < m; ++j) {
                    res[(size_t)j].node->Adjoint((size_t)j) = 1.0;
                    sum[(size_t)j] = add(sum[(size_t)j], res[(size_t)j].d);
                    scale += size_of(res[(size_t)j].d);
                }
                sweep(false, true);
            }
            sweep(true, false);
            for (int j = 0; j < m; ++j)
                for (int i = 0; i < nin; ++i)
                    near(in[(size_t)i].node->Adjoint((size_t)j), sum[(size_t)j].g[i], scale, "several results of many paths", i);
            tape->RewindToMark();
            live = common;
        }
        // several results differentiated in one sweep
        void several() {
            auto reset = AAD::SetNumResultsForAAD(true, (size_t)(2 + sim_rnd(MAXRES - 1)));
            multi = 1;
            int m = 2 + (int)sim_rnd(MAXRES - 1);
            reset.reset();
            reset = AAD::SetNumResultsForAAD(true, (size_t)m);
            tape->Rewind();
            try {
                if (sim_rnd_bool(1, 2)) {
                    several_paths(m);
                    if (sim_rnd_bool(1, 2))
                        tape->Rewind();
                }
                inputs();
                record(1 + len());
                auto res = results(m);
                for (int round = 0; round < 2; ++round) {
                    for (int j = 0; j < m; ++j)
                        res[(size_t)j].node->Adjoint((size_t)j) = 1.0;
                    sweep(false, false);
                    for (int j = 0; j < m; ++j)
                        for (int i = 0; i < nin; ++i)
                            near(in[(size_t)i].node->Adjoint((size_t)j), res[(size_t)j].d.g[i], size_of(res[(size_t)j].d), "several results at once", i);
                    in[0].n.ResetAdjoints();
                    for (auto* v : {&in, &res})
                        for (auto& l : *v)
                            for (int j = 0; j < m; ++j)
                                if (l.node->Adjoint((size_t)j) != 0)
                                sim_violation("adjoint-not-reset", "T%d: an adjoint is %.17g after all adjoints were reset", who, l.node->Adjoint((size_t)j));
                }
            } catch (...) {
                multi = 0;
                tape->Rewind();
                throw;
            }
            tape->Rewind();
            multi = 0;
        }
    };
}

SIM_WORKLOAD(tape) {
    int nt = 1 + (int)sim_rnd(3);
    bool faulty = sim_rnd_bool(1, 3);
    if (faulty)
        sim_fault_rate(F_ALLOC, 2000 + (unsigned)sim_rnd(120000), 6);
    struct Step {
        int kind, other, end;
    };
    std::vector<std::vector<Step>> plan((size_t)nt);
    int opi = 0;
    for (int t = 0; t < nt; ++t)
        for (int k = 0, n = 1 + (int)sim_rnd(5); k < n; ++k) {
            Step s{(int)sim_rnd(nt == 1 ? 3 : 2), (int)sim_rnd(4), (int)sim_rnd(4)};
            if (sim_op(opi++))
                plan[(size_t)t].push_back(s);
        }
    auto run = [&](int t) {
        Machine m;
        m.who = t;
        {
            sim::Pause z;
            m.tape = std::make_unique<Tape_>();
        }
        Tape_* before = Number_::Tape();
        {
            AAD::TapeScope_ mine(*m.tape);
            for (auto& s : plan[(size_t)t]) {
                auto round = [&](Machine& x, int kind, bool faults) {
                    try {
                        if (faults)
                            sim_alloc_faults(1);
                        kind == 0 ? x.plain() : kind == 1 ? x.paths() : x.several();
                        sim_alloc_faults(0);
                    } catch (const std::bad_alloc&) {
                        sim_alloc_faults(0);
                        sim_probe(0);
                        if (!faults || !faulty)
                            sim_violation("spurious-failure", "T%d: recording fails although no allocation failed", t);
                    }
                };
                round(m, s.kind, faulty);
                if (s.other == 0) { // a calculation of its own on another tape, in between
                    Machine o;
                    o.who = t;
                    o.tape = std::make_unique<Tape_>();
                    {
                        AAD::TapeScope_ z(*o.tape);
                        round(o, (int)sim_rnd(2), false);
                    }
                    if (Number_::Tape() != m.tape.get())
                        sim_violation("wrong-tape", "T%d: leaving the inner recording does not restore the outer tape", t);
                    sim_probe(1);
                }
                switch (s.end) {
                case 0: m.tape->Rewind(); break;
                case 1:
                    try {
                        if (faulty)
                            sim_alloc_faults(1);
                        m.tape->Clear();
                        sim_alloc_faults(0);
                    } catch (const std::bad_alloc&) {
                        sim_alloc_faults(0);
                        sim_probe(0);
                    }
                    break;
                case 2: m.tape->ResetAdjoints(); break;
                default: break; // carry on recording behind what is there
                }
            }
            // with memory back, the tape is as good as new
            m.tape->Rewind();
            m.plain();
            m.tape->Clear();
            m.paths();
        }
        if (Number_::Tape() != before)
            sim_violation("wrong-tape", "T%d: the thread's previous tape is not restored", t);
        sim_note("T%d recorded %llu operations", t, (unsigned long long)m.ops);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t)
        ts.emplace_back([&run, t] { run(t); });
    run(0);
    for (auto& t : ts)
        t.join();
}

// What recordings took, they give back with their tape.
SIM_WORKLOAD(keeptape) {
    uint64_t before = 0;
    for (int i = 0; i < 4; ++i) {
        sim_origins(1);
        std::thread t([] { wl_tape(); });
        t.join();
        sim_origins(0);
        uint64_t now = sim_live_blocks();
        if (i && now > before)
            sim_kept("memory-kept", ("recordings keep " + std::to_string(now - before) + " blocks of memory").c_str());
        before = now;
    }
}
