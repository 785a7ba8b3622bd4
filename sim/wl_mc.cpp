// Workloads for the parallel Monte-Carlo engine: values, AAD risks, failures, random streams.
#include <cmath>
#include <cstdio>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dal/script/simulation.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/model/factory.hpp>
#include <dal/storage/globals.hpp>
#include <public/src/models.hpp>
#include <public/src/script.hpp>
#include <public/src/value.hpp>
#include "keep.hpp"
#include "sim.hpp"

using namespace Dal;
using namespace Dal::Script;
using AAD::Number_;
using AAD::Tape_;

namespace {
    const char* fmt(double x) {
        static char b[8][40];
        static int k = 0;
        k = (k + 1) & 7;
        snprintf(b[k], 40, "%.17g", x);
        return b[k];
    }

    // ------------------------------------------------------------------------------- products and models
    struct Spec {
        Vector_<Cell_> dates;
        Vector_<String_> events;
        String_ payoff;
        Handle_<ModelData_> model;
        String_ rsg;
        bool bb = false, compiled = false;
        int npaths = 1;
        int desc = 0;
    };
    const Date_ EVAL(2022, 6, 22);

    Spec make_spec(bool aad) {
        Spec s;
        s.desc = (int)sim_rnd(8);
        Date_ d1(2022, 12, 21), d2(2023, 6, 21), d3(2024, 6, 21);
        auto ev = [&](const Cell_& d, const char* e) {
            s.dates.push_back(d);
            s.events.push_back(String_(e));
        };
        switch (s.desc) {
        case 0: // European call with a constant
            ev(Cell_("STRIKE"), "10.5");
            ev(Cell_(d3), "call pays MAX(spot() - STRIKE, 0.0)");
            break;
        case 1: // up and out
            ev(Cell_("STRIKE"), "9.0");
            ev(Cell_("BARRIER"), "12.5");
            ev(Cell_(d1), "alive = 1 IF spot() >= BARRIER:0.1 THEN alive = 0 END");
            ev(Cell_(d2), "IF spot() >= BARRIER:0.1 THEN alive = 0 END");
            ev(Cell_(d3), "IF spot() >= BARRIER:0.1 THEN alive = 0 END uoc pays alive * MAX(spot() - STRIKE, 0.0)");
            break;
        case 2: // average
            ev(Cell_(d1), "sum = spot()");
            ev(Cell_(d2), "sum = sum + spot()");
            ev(Cell_(d3), "sum = sum + spot() asian pays MAX(sum / 3 - 10, 0.0)");
            break;
        case 3: // state carried from a past event
            ev(Cell_(Date_(2021, 6, 21)), "x = 4");
            ev(Cell_(d1), "x = x + LOG(spot())");
            ev(Cell_(d2), "opt pays x * SQRT(spot())");
            break;
        case 4: // event on the evaluation date
            ev(Cell_(EVAL), "s0 = spot()");
            ev(Cell_(d2), "fwd pays spot() - s0");
            break;
        case 5: // nested conditions
            ev(Cell_(d1), "lo = 0 hi = 0 IF spot() > 10:0.05 THEN hi = 1 IF spot() > 11:0.05 THEN hi = 2 END ELSE lo = 1 END");
            ev(Cell_(d3), "dig pays 2 * hi + lo * spot()");
            break;
        case 6: // constants that reach the payoff through other constants and variables
            ev(Cell_("A"), "2.0");
            ev(Cell_("B"), "0.5");
            ev(Cell_(d1), "x = A * 2 + B y = MAX(A, B)");
            ev(Cell_(d2), "z pays (x - A) * spot() + B * SQRT(spot()) + y");
            break;
        default: // two payments of one variable
            ev(Cell_("K"), "10");
            ev(Cell_(d1), "x pays MAX(K - spot(), 0.0)");
            ev(Cell_(d2), "x pays MAX(spot() - K, 0.0)");
            break;
        }
        double spot = 9.0 + 0.5 * (double)sim_rnd(5), vol = 0.1 + 0.05 * (double)sim_rnd(5), rate = 0.01 * (double)sim_rnd(4),
               div = 0.005 * (double)sim_rnd(4);
        if (sim_rnd_bool(1, 4)) {
            Vector_<> spots, times;
            for (double x : {6.0, 9.0, 12.0, 16.0})
                spots.push_back(x);
            for (double t : {0.5, 1.0, 2.5})
                times.push_back(t);
            Matrix_<> vols(4, 3);
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j < 3; ++j)
                    vols(i, j) = vol + 0.01 * i - 0.005 * j;
            s.model = NewDupireModelData("dupire", spot, rate, div, spots, times, vols);
        } else
            s.model = NewBSModelData("bs", spot, vol, rate, div);
        s.rsg = sim_rnd_bool(1, 3) ? "irn" : "mrg32";
        s.bb = sim_rnd_bool(1, 3);
        s.compiled = sim_rnd_bool(1, 2);
        s.npaths = 1 + (int)sim_rnd(aad ? 14 : 30);
        return s;
    }
    std::unique_ptr<ScriptProduct_> build(const Spec& s, bool aad, int* nested) {
        auto p = std::make_unique<ScriptProduct_>(s.dates, s.events, s.payoff);
        *nested = (int)(aad ? p->PreProcess(true, true) : p->PreProcess(false, false));
        if (s.compiled)
            p->Compile();
        return p;
    }

    // ------------------------------------------------------------------------------- sequential reference
    struct Ref {
        double sum = 0, abs = 0;
        std::vector<double> risks, rabs;
    };
    Ref reference(const Spec& s, const ScriptProduct_& prd) {
        Ref r;
        auto mdl = CreateModel<double>(s.model);
        mdl->Allocate(prd.TimeLine(), prd.DefLine());
        mdl->Init(prd.TimeLine(), prd.DefLine());
        auto rng = CreateRNG(s.rsg, mdl->SimDim(), s.bb);
        Vector_<> g(mdl->SimDim());
        AAD::Scenario_<> path;
        AllocatePath(prd.DefLine(), path);
        InitializePath(path);
        for (int i = 0; i < s.npaths; ++i) {
            rng->FillNormal(&g);
            mdl->GeneratePath(g, &path);
            double v;
            // fresh evaluators: a path must not depend on the paths evaluated before it
            if (s.compiled) {
                auto st = prd.BuildEvalState<double>();
                prd.EvaluateCompiled(path, st);
                v = st.VarVals()[prd.PayOffIdx()];
            } else {
                auto ev = prd.BuildEvaluator<double>();
                prd.Evaluate(path, ev);
                v = ev.VarVals()[prd.PayOffIdx()];
            }
            r.sum += v;
            r.abs += std::fabs(v);
        }
        return r;
    }
    template <class E_> Number_ eval_aad(const ScriptProduct_& prd, const AAD::Scenario_<Number_>& path, E_& e);
    // one tape, one model and one pass per path: nothing is shared between paths
    Ref reference_aad(const Spec& s, const ScriptProduct_& prd, int nested, double eps) {
        Ref r;
        Tape_ tape;
        Tape_* old = Number_::Tape();
        Number_::SetTape(tape);
        {
            auto mdl0 = CreateModel<Number_>(s.model);
            mdl0->Allocate(prd.TimeLine(), prd.DefLine());
            auto rng = CreateRNG(s.rsg, mdl0->SimDim(), s.bb);
            Vector_<> g(mdl0->SimDim());
            const size_t np = mdl0->Parameters().size(), nc = prd.ConstVarNames().size();
            r.risks.assign(np + nc, 0.0);
            r.rabs.assign(np + nc, 0.0);
            for (int i = 0; i < s.npaths; ++i) {
                rng->FillNormal(&g);
                tape.Clear();
                auto mdl = CreateModel<Number_>(s.model);
                for (Number_* p : mdl->Parameters())
                    p->PutOnTape();
                mdl->Allocate(prd.TimeLine(), prd.DefLine());
                auto collect = [&](auto& e, auto&& run) {
                    for (Number_& c : e.ConstVarVals())
                        c.PutOnTape();
                    mdl->Init(prd.TimeLine(), prd.DefLine());
                    AAD::Scenario_<Number_> path;
                    AllocatePath(prd.DefLine(), path);
                    InitializePath(path);
                    mdl->GeneratePath(g, &path);
                    run(path);
                    Number_ res = e.VarVals()[prd.PayOffIdx()];
                    res.PropagateToStart();
                    r.sum += res.value();
                    r.abs += std::fabs(res.value());
                    for (size_t j = 0; j < np; ++j) {
                        double a = mdl->Parameters()[j]->Adjoint() / s.npaths;
                        r.risks[j] += a;
                        r.rabs[j] += std::fabs(a);
                    }
                    for (size_t j = 0; j < nc; ++j) {
                        double a = e.ConstVarVals()[j].Adjoint() / s.npaths;
                        r.risks[np + j] += a;
                        r.rabs[np + j] += std::fabs(a);
                    }
                };
                if (s.compiled) { // compiling changes neither the value nor any derivative
                    auto ev = prd.BuildEvaluator<Number_>();
                    collect(ev, [&](auto& path) { prd.Evaluate(path, ev); });
                } else {
                    auto ev = prd.BuildFuzzyEvaluator<Number_>(nested, eps);
                    collect(ev, [&](auto& path) { prd.Evaluate(path, ev); });
                }
            }
        }
        if (old)
            Number_::SetTape(*old);
        return r;
    }
    bool close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-11 * scale + 1e-12 || (std::isnan(a) && std::isnan(b)); }

    void start_pool() {
        unsigned hw = 1 + (unsigned)sim_rnd(4);
        sim_set_hw(hw);
        sim_quiet(1);
        ThreadPool_::GetInstance()->Start(1 + sim_rnd(hw), true);
        sim_quiet(0);
    }

    struct Job {
        Spec spec;
        std::unique_ptr<ScriptProduct_> prd;
        Handle_<ScriptProductData_> data;
        Ref ref;
        int nested = -1;
        double eps = 0.01;
        bool viaPublic = false;
    };
    void check_value(const Job& j, double got, const char* what) {
        if (!close(got, j.ref.sum, j.ref.abs))
            sim_violation("wrong-value", "%s: product %d, %d paths (%s%s%s): simulation gives %s, its paths sum to %s", what, j.spec.desc, j.spec.npaths,
                          j.spec.rsg.c_str(), j.spec.bb ? ",bb" : "", j.spec.compiled ? ",compiled" : "", fmt(got), fmt(j.ref.sum));
    }
    void run_value(Job& j) {
        double got;
        if (j.viaPublic)
            got = ValueByMonteCarlo(j.data, j.spec.model, j.spec.npaths, j.spec.rsg, j.spec.bb, false)["PV"] * j.spec.npaths;
        else
            got = MCSimulation<double>(*j.prd, j.spec.model, (size_t)j.spec.npaths, j.spec.rsg, j.spec.bb, j.spec.compiled).aggregated_;
        sim::Pause z;
        sim_note("value of product %d over %d paths: %s", j.spec.desc, j.spec.npaths, fmt(got));
        check_value(j, got, "value");
    }
    void run_aad(Job& j) {
        std::vector<double> risks;
        double got;
        if (j.viaPublic) {
            auto m = ValueByMonteCarlo(j.data, j.spec.model, j.spec.npaths, j.spec.rsg, j.spec.bb, true, j.eps);
            sim::Pause z;
            got = m["PV"] * j.spec.npaths;
            auto mdl = CreateModel<double>(j.spec.model);
            for (const auto& n : Vector::Join(mdl->ParameterLabels(), j.prd->ConstVarNames())) {
                auto it = m.find("d_" + n);
                if (it == m.end())
                    sim_violation("missing-risk", "no sensitivity to %s", n.c_str());
                risks.push_back(it->second);
            }
        } else {
            auto held = std::make_unique<SimResults_>(
                MCSimulation<Number_>(*j.prd, j.spec.model, (size_t)j.spec.npaths, j.spec.rsg, j.spec.bb, j.spec.compiled, j.nested, j.eps));
            SimResults_ r(*held);
            held.reset();
            got = r.aggregated_;
            auto mdl = CreateModel<double>(j.spec.model);
            for (const auto& n : Vector::Join(mdl->ParameterLabels(), j.prd->ConstVarNames()))
                risks.push_back(r[n]);
            if (r.risks_.size() != risks.size())
                sim_violation("missing-risk", "%zu sensitivities, expected %zu", (size_t)r.risks_.size(), risks.size());
            for (size_t k = 0; k < risks.size(); ++k)
                if (!close(r.risks_[k], risks[k], 1.0 + std::fabs(risks[k])))
                    sim_violation("wrong-risk", "sensitivity %zu is %s by position and %s by name", k, fmt(r.risks_[k]), fmt(risks[k]));
        }
        sim::Pause z;
        sim_note("aad value of product %d over %d paths: %s, first risk %s", j.spec.desc, j.spec.npaths, fmt(got), fmt(risks.empty() ? 0 : risks[0]));
        check_value(j, got, "aad value");
        if (risks.size() != j.ref.risks.size())
            sim_violation("missing-risk", "%zu sensitivities, expected %zu", risks.size(), j.ref.risks.size());
        for (size_t k = 0; k < risks.size(); ++k)
            if (!close(risks[k], j.ref.risks[k], 1.0 + j.ref.rabs[k]))
                sim_violation("wrong-risk", "product %d, %d paths (%s%s%s): sensitivity %zu is %s, path by path it is %s", j.spec.desc, j.spec.npaths,
                              j.spec.rsg.c_str(), j.spec.bb ? ",bb" : "", j.spec.compiled ? ",compiled" : "", k, fmt(risks[k]), fmt(j.ref.risks[k]));
    }
    void prepare(Job& j, bool aad) {
        j.spec = make_spec(aad);
        j.viaPublic = !j.spec.compiled && sim_rnd_bool(1, 4);
        sim::Pause z;
        j.prd = build(j.spec, aad, &j.nested);
        if (j.viaPublic)
            j.data = NewScriptProduct("prd", j.spec.dates, j.spec.events);
        j.ref = aad ? reference_aad(j.spec, *j.prd, j.nested, j.eps) : reference(j.spec, *j.prd);
    }
    void set_today() {
        sim::Pause z;
        Global::Dates_::SetEvaluationDate(EVAL);
    }
}

// -------------------------------------------------------------------------------------------------- C04
SIM_WORKLOAD(mc) {
    set_today();
    start_pool();
    sim_set_batch(1 + (int)sim_rnd(9));
    if (sim_rnd_bool(1, 3))
        sim_alloc_reuse(1);
    int ncall = sim_rnd_bool(1, 2) ? 1 : 2 + (int)sim_rnd(2);
    std::vector<Job> jobs((size_t)ncall);
    int opi = 0;
    std::vector<std::vector<int>> on((size_t)ncall);
    bool shared = sim_rnd_bool(1, 3);
    for (int i = 0; i < ncall; ++i) {
        prepare(jobs[i], false);
        int reps = 1 + (int)sim_rnd(2);
        for (int k = 0; k < reps; ++k)
            if (sim_op(opi++))
                on[i].push_back(k);
    }
    bool nested = sim_rnd_bool(1, 4);
    auto call = [&](int i) {
        for (int k : on[i]) {
            (void)k;
            if (nested && (i + k) % 2) { // a simulation started from inside the pool
                Job& j = jobs[i];
                TaskHandle_ h = ThreadPool_::GetInstance()->SpawnTask([&j] {
                    run_value(j);
                    return true;
                });
                ThreadPool_::GetInstance()->ActiveWait(h);
                h.get();
            } else
                run_value(jobs[shared ? 0 : i]);
        }
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < ncall; ++i)
        ts.emplace_back([&, i] { call(i); });
    call(0);
    for (auto& t : ts)
        t.join();
    if (ncall > 1)
        sim_probe(0);
    if (nested)
        sim_probe(1);
}

// -------------------------------------------------------------------------------------------------- C05
SIM_WORKLOAD(mcaad) {
    set_today();
    start_pool();
    sim_set_batch(1 + (int)sim_rnd(5));
    if (sim_rnd_bool(1, 3))
        sim_alloc_reuse(1);
    int ncall = sim_rnd_bool(2, 3) ? 1 : 2;
    std::vector<Job> jobs((size_t)ncall);
    int opi = 0;
    std::vector<int> reps((size_t)ncall, 0);
    std::vector<int> tapemode((size_t)ncall, 0);
    for (int i = 0; i < ncall; ++i) {
        prepare(jobs[i], true);
        int n = 1 + (int)sim_rnd(2);
        for (int k = 0; k < n; ++k)
            reps[i] += sim_op(opi++) ? 1 : 0;
        tapemode[i] = (int)sim_rnd(3);
    }
    auto call = [&](int i) {
        Tape_ mine;
        if (tapemode[i]) {
            Number_::SetTape(mine);
            // a computation of the caller that is under way across the simulation
            Number_ x(3.0), y(4.0);
            if (tapemode[i] == 2)
                mine.Mark();
            Number_ z = x * y + exp(x);
            for (int k = 0; k < reps[i]; ++k)
                run_aad(jobs[i]);
            if (Number_::Tape() != &mine)
                sim_violation("tape-not-restored", "the caller's tape is not current after the simulation");
            Number_ w = z * y;
            w.PropagateToStart();
            double ey = 3.0 * 4.0 + std::exp(3.0) + 4.0 * 3.0, ex = 4.0 * (4.0 + std::exp(3.0));
            if (!close(x.Adjoint(), ex, ex) || !close(y.Adjoint(), ey, ey))
                sim_violation("tape-disturbed", "the caller's own derivatives are %s, %s instead of %s, %s", fmt(x.Adjoint()), fmt(y.Adjoint()), fmt(ex), fmt(ey));
        } else {
            Tape_* before = Number_::Tape();
            for (int k = 0; k < reps[i]; ++k)
                run_aad(jobs[i]);
            if (Number_::Tape() != before)
                sim_violation("tape-not-restored", "the calling thread's current tape changed");
        }
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < ncall; ++i)
        ts.emplace_back([&, i] { call(i); });
    std::thread t0([&] { call(0); });
    t0.join();
    for (auto& t : ts)
        t.join();
    if (ncall > 1)
        sim_probe(0);
    // no pool thread may be left recording on a tape that is gone
    ThreadPool_* pool = ThreadPool_::GetInstance();
    std::vector<TaskHandle_> hs;
    for (size_t k = 0; k < 2 * pool->NumThreads(); ++k)
        hs.push_back(pool->SpawnTask([] {
            if (ThreadPool_::ThreadNum() && Number_::Tape())
                sim_violation("dangling-tape", "a pool thread still records on the tape of a finished simulation");
            return true;
        }));
    for (auto& h : hs)
        pool->ActiveWait(h);
}

// -------------------------------------------------------------------------------------------------- C06
SIM_WORKLOAD(mcfail) {
    set_today();
    start_pool();
    sim_set_batch(1 + (int)sim_rnd(5));
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    bool aad = sim_rnd_bool(1, 2);
    Job j;
    prepare(j, aad);
    int opi = 0;
    int mode = (int)sim_rnd(3); // 0: allocation failures anywhere, 1: a task throws, 2: allocation failures in tasks of the caller's thread only
    int reps = 1 + (int)sim_rnd(2);
    for (int k = 0; k < reps; ++k) {
        if (!sim_op(opi++))
            continue;
        Tape_ mine;
        if (aad)
            Number_::SetTape(mine);
        uint64_t before = sim_fault_count(F_ALLOC);
        bool threw = false;
        String_ rsg = j.spec.rsg;
        if (mode == 1)
            rsg = "no such generator";
        unsigned rates[] = {300, 1500, 8000, 40000};
        sim_fault_rate(F_ALLOC, mode == 1 ? 0 : rates[sim_rnd(4)], 1 + (unsigned)sim_rnd(3));
        try {
            if (mode == 0)
                sim_alloc_faults_all(1);
            else if (mode == 2)
                sim_alloc_faults(1);
            double got;
            Vector_<> risks;
            if (aad) {
                SimResults_ r = MCSimulation<Number_>(*j.prd, j.spec.model, (size_t)j.spec.npaths, rsg, j.spec.bb, j.spec.compiled, j.nested, j.eps);
                sim_pause();
                got = r.aggregated_;
                risks = r.risks_;
                sim_resume();
            } else
                got = MCSimulation<double>(*j.prd, j.spec.model, (size_t)j.spec.npaths, rsg, j.spec.bb, j.spec.compiled).aggregated_;
            sim_alloc_faults_all(0);
            sim_alloc_faults(0);
            sim::Pause z;
            if (mode == 1)
                sim_violation("failure-swallowed", "the tasks fail (unknown generator), but the simulation returns %s", fmt(got));
            sim_note("returned %s with %llu allocation failures", fmt(got), (unsigned long long)(sim_fault_count(F_ALLOC) - before));
            if (sim_fault_count(F_ALLOC) != before)
                sim_probe(2);
            check_value(j, got, "value after an absorbed failure");
            for (size_t q = 0; q < j.ref.risks.size(); ++q)
                if (!close(risks[q], j.ref.risks[q], 1.0 + j.ref.rabs[q]))
                    sim_violation("wrong-risk", "after an absorbed failure, sensitivity %zu is %s instead of %s", q, fmt(risks[q]), fmt(j.ref.risks[q]));
        } catch (const std::bad_alloc&) {
            sim_alloc_faults_all(0);
            sim_alloc_faults(0);
            threw = true;
            if (sim_fault_count(F_ALLOC) == before)
                sim_violation("spurious-failure", "bad_alloc although no allocation failed");
            sim_note("bad_alloc raised");
            sim_probe(0);
        } catch (const std::exception& e) {
            sim_alloc_faults_all(0);
            sim_alloc_faults(0);
            threw = true;
            if (mode != 1 && sim_fault_count(F_ALLOC) == before)
                sim_violation("spurious-failure", "the simulation raises '%s' although nothing failed", e.what());
            sim_note("exception raised");
            sim_probe(1);
        }
        if (aad && Number_::Tape() != &mine)
            sim_violation("tape-not-restored", "the caller's tape is not current after the simulation %s", threw ? "failed" : "returned");
        // the engine is still usable
        sim_fault_rate(F_ALLOC, 0, 0);
        if (aad)
            run_aad(j);
        else
            run_value(j);
        Number_::SetTape((Tape_*)nullptr);
    }
}

// -------------------------------------------------------------------------------------------------- streams
// A generator positioned at a point gives the same points as one that was read from the start, whichever thread
// positions it, in whatever order, however it was used before and however far away the point is.
SIM_WORKLOAD(streams) {
    start_pool();
    ThreadPool_* pool = ThreadPool_::GetInstance();
    String_ method = sim_rnd_bool(1, 2) ? "mrg32" : "irn";
    bool mrg = method == "mrg32";
    bool bb = sim_rnd_bool(1, 2);
    bool own = sim_rnd_bool(2, 3); // own seed and precision, or those of the engine
    bool precise = own && sim_rnd_bool(1, 2);
    int seed = 1 + (int)sim_rnd(2000000);
    size_t dim = 1 + sim_rnd(5);
    bool clone = sim_rnd_bool(1, 2);
    auto make = [&]() -> std::unique_ptr<Random_> {
        if (!own)
            return CreateRNG(method, dim, bb);
        std::unique_ptr<Random_> g(New(RNGType_(mrg ? "MRG32" : "IRN"), seed, dim, precise));
        if (bb)
            g.reset(new BrownianBridge_(std::move(g)));
        return g;
    };
    // windows of points read from the start: the first is at 0, the others further away
    struct Window {
        size_t from;
        int n;
        std::vector<std::vector<double>> seq[2]; // uniform, normal
    };
    std::vector<Window> ws;
    size_t at = 0;
    int nw = 1 + (int)sim_rnd(3);
    static const size_t FAR[] = {7, 60, 500, 4000, 20000};
    for (int w = 0; w < nw; ++w) {
        ws.push_back({at, 1 + (int)sim_rnd(16), {}});
        at += (size_t)ws.back().n + sim_rnd(FAR[sim_rnd(mrg ? 5 : 2)]);
    }
    {
        sim::Pause z;
        for (int kind = 0; kind < 2; ++kind) {
            auto g = make();
            Vector_<> v(dim);
            size_t i = 0;
            for (auto& w : ws) {
                for (; i < w.from; ++i)
                    kind ? g->FillNormal(&v) : g->FillUniform(&v);
                for (int k = 0; k < w.n; ++k, ++i) {
                    kind ? g->FillNormal(&v) : g->FillUniform(&v);
                    w.seq[kind].emplace_back(v.begin(), v.end());
                }
            }
        }
    }
    int kinds = (int)sim_rnd(3); // uniform, normal, both
    // cut the windows into chunks, handed to whichever thread comes first, each thread reusing its generator
    struct Chunk {
        int w, from, to, kind;
    };
    std::vector<Chunk> ch;
    for (int w = 0; w < nw; ++w)
        for (int a = 0; a < ws[w].n;) {
            int b = std::min(ws[w].n, a + 1 + (int)sim_rnd(6));
            ch.push_back({w, a, b, kinds == 2 ? (int)sim_rnd(2) : kinds});
            if (sim_rnd_bool(1, 6))
                ch.push_back(ch.back()); // read twice
            a = b;
        }
    for (size_t i = ch.size(); i > 1; --i)
        std::swap(ch[i - 1], ch[sim_rnd(i)]);
    size_t nt = pool->NumThreads();
    std::vector<std::unique_ptr<Random_>> gens(nt);
    auto proto = make();
    if (clone && sim_rnd_bool(1, 2)) { // the clones are taken from a generator that was used
        Vector_<> v(dim);
        if (sim_rnd_bool(1, 2))
            proto->SkipTo(sim_rnd(50));
        int used = (int)sim_rnd(4);
        for (int i = 0; i < used; ++i)
            sim_rnd_bool(1, 2) ? proto->FillNormal(&v) : proto->FillUniform(&v);
    }
    for (auto& g : gens) {
        if (clone)
            g.reset(proto->Clone());
        else
            g = make();
    }
    char what[80];
    snprintf(what, sizeof what, "%s%s%s seed %d", method.c_str(), bb ? "+bridge" : "", precise ? " precise" : "", own ? seed : -1);
    std::vector<TaskHandle_> hs;
    int opi = 0;
    for (auto& c : ch) {
        if (!sim_op(opi++))
            continue;
        hs.push_back(pool->SpawnTask([&, c] {
            Random_& g = *gens[ThreadPool_::ThreadNum()];
            const Window& w = ws[c.w];
            if (g.NDim() != dim)
                sim_violation("wrong-dimension", "generator of dimension %zu, expected %zu", g.NDim(), dim);
            g.SkipTo(w.from + (size_t)c.from);
            for (int i = c.from; i < c.to; ++i) {
                Vector_<> v(dim);
                c.kind ? g.FillNormal(&v) : g.FillUniform(&v);
                for (size_t k = 0; k < dim; ++k)
                    if (!(std::fabs(v[k] - w.seq[c.kind][i][k]) <= 1e-12))
                        sim_violation("stream-mismatch", "%s: %s point %zu (read from %zu) coordinate %zu is %s, sequentially it is %s", what,
                                      c.kind ? "normal" : "uniform", w.from + i, w.from + c.from, k, fmt(v[k]), fmt(w.seq[c.kind][i][k]));
            }
            return true;
        }));
    }
    for (auto& h : hs) {
        pool->ActiveWait(h);
        h.get();
    }
    if (mrg && sim_op(opi++)) {
        // very far away: positions differ, and reading on from one reaches the next
        sim::Pause z;
        size_t far = ((size_t)1 << (20 + sim_rnd(22))) + sim_rnd(1000);
        int kind = kinds == 2 ? (int)sim_rnd(2) : kinds;
        auto &g = gens[0], &h = gens[nt - 1];
        std::unique_ptr<Random_> h2(h->Clone());
        g->SkipTo(far);
        size_t step = 1 + sim_rnd(9);
        Vector_<> v(dim), u(dim);
        for (size_t i = 0; i <= step; ++i)
            kind ? g->FillNormal(&v) : g->FillUniform(&v);
        h2->SkipTo(far + step);
        kind ? h2->FillNormal(&u) : h2->FillUniform(&u);
        for (size_t k = 0; k < dim; ++k)
            if (!(std::fabs(v[k] - u[k]) <= 1e-12))
                sim_violation("stream-mismatch", "%s: %s point %zu coordinate %zu is %s when read on from %zu and %s when skipped to", what,
                              kind ? "normal" : "uniform", far + step, k, fmt(v[k]), far, fmt(u[k]));
        for (auto& w : ws)
            for (auto& row : w.seq[kind]) {
                size_t same = 0;
                for (size_t k = 0; k < dim; ++k)
                    same += row[k] == v[k];
                if (same == dim && dim > 1)
                    sim_violation("stream-repeats", "%s: %s point %zu is the same as one near the start", what, kind ? "normal" : "uniform", far + step);
            }
    }
}

// -------------------------------------------------------------------------------------------------- C17
// Valuations run while other threads move the evaluation date. Each must be the value as of one date that was
// current at some moment during the call.
SIM_WORKLOAD(asof) {
    const Date_ DATES[3] = {EVAL, Date_(2022, 12, 21), Date_(2023, 1, 15)};
    set_today();
    if (sim_rnd_bool(2, 3))
        start_pool();
    else {
        sim_set_hw(1);
        sim_quiet(1);
        ThreadPool_::GetInstance()->Start(1, true);
        sim_quiet(0);
    }
    sim_set_batch(4 + (int)sim_rnd(20));
    if (sim_rnd_bool(1, 3))
        sim_alloc_reuse(1);
    struct AsOf {
        Job j;
        bool aad = false;
        Ref ref[3];
        Vector_<> line[3];
    };
    int nval = 1 + (int)sim_rnd(2), nset = 1 + (int)sim_rnd(2), opi = 0;
    std::vector<AsOf> js((size_t)nval);
    for (auto& a : js) {
        a.aad = sim_rnd_bool(1, 3);
        a.j.spec = make_spec(a.aad);
        a.j.spec.npaths = 1 + (int)sim_rnd(4);
        a.j.viaPublic = sim_rnd_bool(2, 3);
        if (a.j.viaPublic)
            a.j.spec.compiled = false;
        sim::Pause z;
        a.j.data = NewScriptProduct("prd", a.j.spec.dates, a.j.spec.events);
        for (int d = 0; d < 3; ++d) {
            Global::Dates_::SetEvaluationDate(DATES[d]);
            auto p = build(a.j.spec, a.aad, &a.j.nested);
            a.ref[d] = a.aad ? reference_aad(a.j.spec, *p, a.j.nested, a.j.eps) : reference(a.j.spec, *p);
            a.line[d] = p->TimeLine();
        }
    }
    set_today();
    struct Set {
        int d;
        uint64_t inv, ret;
    };
    std::vector<std::vector<Set>> sets((size_t)nset + 1);
    sets[0].push_back({0, 0, 0});
    struct Call {
        int v;
        uint64_t inv, ret;
        double got;
        Vector_<> risks, line;
        bool hasLine = false;
    };
    std::vector<std::vector<Call>> calls((size_t)nval);
    std::vector<std::vector<int>> plan((size_t)nset), todo((size_t)nval);
    for (auto& p : plan) {
        int n = 1 + (int)sim_rnd(4);
        for (int k = 0; k < n; ++k) {
            int d = (int)sim_rnd(3);
            if (sim_op(opi++))
                p.push_back(d);
        }
    }
    for (auto& p : todo) {
        int n = 1 + (int)sim_rnd(2);
        for (int k = 0; k < n; ++k)
            if (sim_op(opi++))
                p.push_back(k);
    }
    auto value = [&](int v) {
        AsOf& a = js[(size_t)v];
        for (size_t k = 0; k < todo[v].size(); ++k) {
            Call c;
            c.v = v;
            c.inv = sim_seq();
            if (a.j.viaPublic) {
                auto m = ValueByMonteCarlo(a.j.data, a.j.spec.model, a.j.spec.npaths, a.j.spec.rsg, a.j.spec.bb, a.aad, a.j.eps);
                c.ret = sim_seq();
                sim::Pause z;
                c.got = m["PV"] * a.j.spec.npaths;
            } else {
                int nested;
                auto p = build(a.j.spec, a.aad, &nested);
                sim_yield();
                double got;
                if (a.aad)
                    got = MCSimulation<Number_>(*p, a.j.spec.model, (size_t)a.j.spec.npaths, a.j.spec.rsg, a.j.spec.bb, a.j.spec.compiled, nested, a.j.eps)
                              .aggregated_;
                else
                    got = MCSimulation<double>(*p, a.j.spec.model, (size_t)a.j.spec.npaths, a.j.spec.rsg, a.j.spec.bb, a.j.spec.compiled).aggregated_;
                c.ret = sim_seq();
                sim::Pause z;
                c.got = got;
                c.line = p->TimeLine();
                c.hasLine = true;
            }
            sim::Pause z;
            sim_note("valuation %d of product %d gives %s", (int)k, a.j.spec.desc, fmt(c.got));
            calls[v].push_back(c);
        }
    };
    auto setter = [&](int s) {
        for (int d : plan[s]) {
            Set x{d, sim_seq(), 0};
            Global::Dates_::SetEvaluationDate(DATES[d]);
            x.ret = sim_seq();
            sim::Pause z;
            sim_note("evaluation date %d set", d);
            sets[(size_t)s + 1].push_back(x);
        }
    };
    std::vector<std::thread> ts;
    for (int s = 0; s < nset; ++s)
        ts.emplace_back([&, s] { setter(s); });
    for (int v = 1; v < nval; ++v)
        ts.emplace_back([&, v] { value(v); });
    value(0);
    for (auto& t : ts)
        t.join();
    sim::Pause z;
    std::vector<Set> all;
    for (auto& v : sets)
        all.insert(all.end(), v.begin(), v.end());
    for (auto& v : calls)
        for (auto& c : v) {
            const AsOf& a = js[(size_t)c.v];
            bool ok = false;
            bool may[3] = {false, false, false};
            for (const Set& s : all) {
                if (s.inv > c.ret)
                    continue;
                bool gone = false;
                for (const Set& t : all)
                    gone |= t.inv > s.ret && t.ret < c.inv;
                if (!gone)
                    may[s.d] = true;
            }
            for (int d = 0; d < 3; ++d)
                ok |= may[d] && close(c.got, a.ref[d].sum, a.ref[d].abs) && (!c.hasLine || c.line == a.line[d]);
            if (may[0] + may[1] + may[2] > 1)
                sim_probe(0);
            if (!ok) {
                std::string refs;
                for (int d = 0; d < 3; ++d)
                    if (may[d])
                        refs += std::string(" ") + fmt(a.ref[d].sum);
                sim_violation("torn-date", "product %d is valued at %s; as of the dates current during the call it is worth%s", a.j.spec.desc, fmt(c.got), refs.c_str());
            }
        }
}

namespace {
    // A script as the tree it means: printed for the library, and valued here by walking it.
    enum { X_SPOT, X_VAR, X_K, X_CONST, X_ADD, X_SUB, X_MUL, X_DIV, X_POW, X_MAX, X_MIN, X_NEG, X_POS, X_SQRT, X_LOG, X_EXP };
    struct Expr {
        int op = X_CONST, var = 0;
        double c = 0;
        double size = 1; // how many separate values it may have at most
        std::vector<Expr> args;
    };
    struct Cond {
        int op = 0; // 0..5 comparisons, 6 AND, 7 OR
        std::vector<Cond> sub;
        Expr l, r;
        double eps = -1;
        bool colon = true;
    };
    struct Stmt {
        int var = 0; // a, b, c, opt
        bool pays = false, iff = false, hasElse = false;
        Expr e;
        Cond c;
        std::vector<Stmt> yes, no;
    };
    struct When {
        double spot, numeraire;
        bool past;
    };
    struct Worth { // what a script is worth on one path
        double v[4] = {0, 0, 0, 0};
        bool near = false;   // some comparison is so close that rounding may decide it
        bool tied = false;   // two arguments of MAX or MIN are equal, or a comparison is at its tie: no slope is claimed
        bool fuzzy = false;  // some comparison is within its width of smoothing
    };
    const double DEF_EPS = 0.5;

    String_ num(double x) {
        char t[40];
        snprintf(t, sizeof t, "%.10g", x);
        return String_(t);
    }
    String_ text(const Expr& e) {
        auto a = [&](int i) { return text(e.args[(size_t)i]); };
        auto list = [&](const char* f) {
            String_ out(f);
            for (size_t i = 0; i < e.args.size(); ++i)
                out += (i ? ", " : "(") + text(e.args[i]);
            return out + ")";
        };
        switch (e.op) {
        case X_SPOT:
            return "spot()";
        case X_VAR:
            return String_(1, "abc"[e.var]);
        case X_K:
            return "K";
        case X_CONST:
            return num(e.c);
        case X_ADD:
            return "(" + a(0) + " + " + a(1) + ")";
        case X_SUB:
            return "(" + a(0) + " - " + a(1) + ")";
        case X_MUL:
            return "(" + a(0) + " * " + a(1) + ")";
        case X_DIV:
            return "(" + a(0) + " / " + a(1) + ")";
        case X_POW:
            return "(" + a(0) + " ^ " + a(1) + ")";
        case X_NEG:
            return "(-" + a(0) + ")";
        case X_POS:
            return "(+" + a(0) + ")";
        case X_MAX:
            return list("MAX");
        case X_MIN:
            return list("MIN");
        case X_SQRT:
            return list("SQRT");
        case X_LOG:
            return list("LOG");
        default:
            return list("EXP");
        }
    }
    String_ text(const Cond& c) {
        static const char* cmp[] = {" > ", " >= ", " < ", " <= ", " = ", " != "};
        if (c.op >= 6)
            return text(c.sub[0]) + (c.op == 6 ? String_(" AND ") : String_(" OR ")) + text(c.sub[1]);
        String_ l = text(c.l);
        if (l[0] == '(') // a parenthesis would open a condition
            l = "0 + " + l;
        l += cmp[c.op] + text(c.r);
        if (c.eps >= 0)
            l += (c.colon ? " : " : " ; ") + num(c.eps);
        return l;
    }
    String_ text(const std::vector<Stmt>& ss) {
        String_ out;
        for (const Stmt& s : ss)
            if (s.iff) {
                out += "IF " + text(s.c) + " THEN " + text(s.yes);
                if (s.hasElse)
                    out += "ELSE " + text(s.no);
                out += "END ";
            } else
                out += (s.var == 3 ? String_("opt") : String_(1, "abc"[s.var])) + (s.pays ? " pays " : " = ") + text(s.e) + " ";
        return out;
    }
    double value(const Expr& e, const When& w, Worth& r) {
        double x[4] = {0, 0, 0, 0};
        for (size_t i = 0; i < e.args.size(); ++i)
            x[i] = value(e.args[i], w, r);
        switch (e.op) {
        case X_SPOT:
            return w.spot;
        case X_VAR:
            return r.v[e.var];
        case X_K:
            return 8;
        case X_CONST:
            return e.c;
        case X_ADD:
            return x[0] + x[1];
        case X_SUB:
            return x[0] - x[1];
        case X_MUL:
            return x[0] * x[1];
        case X_DIV:
            return x[0] / x[1];
        case X_POW:
            return std::pow(x[0], x[1]);
        case X_NEG:
            return -x[0];
        case X_POS:
            return x[0];
        case X_SQRT:
            return std::sqrt(x[0]);
        case X_LOG:
            return std::log(x[0]);
        case X_EXP:
            return std::exp(x[0]);
        default: {
            size_t best = 0;
            for (size_t i = 1; i < e.args.size(); ++i)
                if (e.op == X_MAX ? x[i] > x[best] : x[i] < x[best])
                    best = i;
            for (size_t i = 0; i < e.args.size(); ++i)
                r.tied |= i != best && std::fabs(x[i] - x[best]) < 1e-7 * (1 + std::fabs(x[best]));
            return x[best];
        }
        }
    }
    bool value(const Cond& c, const When& w, Worth& r) {
        if (c.op >= 6) { // both sides count for smoothing
            bool a = value(c.sub[0], w, r), b = value(c.sub[1], w, r);
            return c.op == 6 ? a && b : a || b;
        }
        double l = value(c.l, w, r), m = value(c.r, w, r), x = l - m, scale = 1 + std::fabs(l) + std::fabs(m);
        r.near |= x != 0 && std::fabs(x) < 1e-9 * scale;
        r.tied |= std::fabs(x) < 1e-7 * scale;
        r.fuzzy |= std::fabs(x) < 0.5 * (c.eps < 0 ? DEF_EPS : c.eps) + 1e-7 * scale;
        switch (c.op) {
        case 0:
            return x > 0;
        case 1:
            return x >= 0;
        case 2:
            return x < 0;
        case 3:
            return x <= 0;
        case 4:
            return x == 0;
        default:
            return x != 0;
        }
    }
    void value(const std::vector<Stmt>& ss, const When& w, Worth& r) {
        for (const Stmt& s : ss)
            if (s.iff)
                value(value(s.c, w, r) ? s.yes : s.no, w, r);
            else {
                double x = value(s.e, w, r);
                if (!s.pays)
                    r.v[s.var] = x;
                else if (!w.past) // what was paid is gone
                    r.v[s.var] += x / w.numeraire;
            }
    }

    // Preparing a script tracks every value a variable may have, and a long script of nothing but constants would
    // keep it busy for ever.
    double gen_size[4];
    bool gen_past;
    const double GEN_MAX = 40;
    Expr lit(double x) {
        Expr e;
        e.c = x;
        return e;
    }
    Expr mk(int op, std::vector<Expr> a) {
        Expr e;
        e.op = op;
        for (auto& x : a)
            e.size *= x.size;
        e.args = std::move(a);
        return e;
    }
    Expr spot_now() {
        if (gen_past) // the library has no fixings yet
            return lit(2);
        Expr e;
        e.op = X_SPOT;
        return e;
    }
    Expr gen_expr(int depth) {
        if (depth <= 0 || sim_rnd_bool(1, 3)) {
            static const double lits[] = {0, 1, 2, 8}; // their sums and products are exact
            size_t k = sim_rnd(10);
            if (k < 2)
                return spot_now();
            if (k >= 6)
                return lit(lits[k - 6]);
            Expr e;
            e.op = k == 5 ? X_K : X_VAR;
            if (k < 5) {
                e.var = (int)k - 2;
                e.size = gen_size[e.var];
            }
            return e;
        }
        Expr l = gen_expr(depth - 1), r = gen_expr(depth - 1), out;
        switch (sim_rnd(14)) {
        case 0:
            out = mk(X_ADD, {l, r});
            break;
        case 1:
            out = mk(X_SUB, {l, r});
            break;
        case 2:
            out = mk(X_MUL, {l, r});
            break;
        case 3:
            out = mk(X_MAX, {l, r});
            break;
        case 4:
            out = mk(X_MIN, {l, r});
            break;
        case 6:
            out = mk(X_DIV, {l, mk(X_MAX, {r, lit(0.5)})});
            break;
        case 7:
            out = mk(X_SQRT, {mk(X_ADD, {mk(X_MAX, {l, lit(0.25)}), lit(0.01)})}); // never the root of a square
            break;
        case 8:
            out = mk(X_LOG, {mk(X_ADD, {mk(X_MAX, {l, lit(0.5)}), lit(0.01)})});
            break;
        case 9:
            out = mk(X_EXP, {mk(X_MUL, {lit(0.99), mk(X_MIN, {l, lit(1.5)})})});
            break;
        case 10:
            out = mk(X_POW, {mk(X_MAX, {l, lit(0.5)}), mk(X_MIN, {mk(X_MAX, {r, lit(0)}), lit(1.9)})});
            break;
        case 11:
            out = mk(X_POS, {l});
            break;
        case 12:
            out = mk(X_MAX, {l, r, gen_expr(depth - 1)});
            break;
        case 13: {
            Expr m = gen_expr(depth - 1), n = gen_expr(depth - 1);
            out = mk(X_MIN, {l, r, m, n});
            break;
        }
        default:
            out = mk(X_NEG, {l});
        }
        return out.size > GEN_MAX ? spot_now() : out;
    }
    Cond gen_cond(int depth, bool leftmost = true) {
        Cond c;
        if (depth > 0 && sim_rnd_bool(1, 4)) {
            c.op = 6 + (int)sim_rnd(2);
            c.sub.push_back(gen_cond(depth - 1, false));
            c.sub.push_back(gen_cond(depth - 1, false));
            // without parentheses AND binds more than OR, whatever side it is on
            if (c.op == 6 && (c.sub[0].op == 7 || c.sub[1].op == 7))
                c.op = 7;
            return c;
        }
        c.op = (int)sim_rnd(6);
        c.l = gen_expr(depth - 1);
        c.r = gen_expr(depth - 1);
        if (sim_rnd_bool(1, 8)) { // its own width of smoothing
            c.colon = sim_rnd_bool(1, 2);
            c.eps = c.colon ? 0.25 : 1.5;
        }
        return c;
    }
    std::vector<Stmt> gen_stmts(int n, int depth, bool inside = false) {
        std::vector<Stmt> out;
        for (int i = 0; i < n; ++i) {
            Stmt s;
            if (depth > 0 && sim_rnd_bool(1, 2)) {
                s.iff = true;
                s.c = gen_cond(2);
                s.yes = gen_stmts(1 + (int)sim_rnd(2), depth - 1, true);
                if ((s.hasElse = sim_rnd_bool(1, 2)))
                    s.no = gen_stmts(1 + (int)sim_rnd(2), depth - 1, true);
            } else {
                s.var = (int)sim_rnd(3);
                s.pays = sim_rnd_bool(1, 6);
                s.e = gen_expr(2);
                double was = gen_size[s.var], now = s.pays ? was * s.e.size : s.e.size;
                if (inside)
                    now += was;
                if (now > GEN_MAX) {
                    s.e = spot_now();
                    now = s.pays ? was : 1;
                    if (inside)
                        now += was;
                }
                gen_size[s.var] = now;
            }
            out.push_back(s);
        }
        return out;
    }
    struct Outcome {
        std::vector<std::pair<std::string, double>> plain, compiled, fuzzy, aad, aadCompiled, aadFuzzy, slopes, slopesCompiled, slopesFuzzy;
        Vector_<> line;
        std::vector<double> defs;
        bool hasCompiled = false, hasFuzzy = false;
        std::string payoff;
    };
}

// One product is prepared, compiled and evaluated again and again, in any order, with allocation failures in
// between, and must keep giving what a product prepared once gives.
SIM_WORKLOAD(reprepare) {
    sim_step_cap(120000000); // the sets of possible values may grow with every statement
    {
        sim::Pause z;
        RegisterAll_::Init(1);
    }
    set_today();
    Vector_<Cell_> dates;
    Vector_<String_> events;
    std::vector<std::pair<bool, std::vector<Stmt>>> meaning; // in the past?, statements; in order of time
    auto ev = [&](const Cell_& d, const String_& e) {
        dates.push_back(d);
        events.push_back(e);
    };
    auto on = [&](const Date_& d, const std::vector<Stmt>& ss, bool past = false) {
        ev(Cell_(d), text(ss));
        meaning.emplace_back(past, ss);
    };
    ev(Cell_("K"), String_("8"));
    gen_size[0] = gen_size[1] = gen_size[2] = 1;
    bool macro = sim_rnd_bool(1, 4), schedule = sim_rnd_bool(1, 4);
    if (macro)
        ev(Cell_("SHIFT"), String_("(spot() - 0.5 * K)"));
    gen_past = true;
    if (sim_rnd_bool(1, 12)) { // a long life behind it
        int n = 100 + (int)sim_rnd(60);
        Stmt pay;
        pay.pays = true;
        pay.var = (int)sim_rnd(3);
        pay.e = lit(0.1);
        for (int k = 0; k < n; ++k)
            on(Date_(2007, 1, 15).AddDays(30 * k), {pay}, true);
    }
    if (sim_rnd_bool(1, 3))
        on(Date_(2021, 6, 21), gen_stmts(1 + (int)sim_rnd(2), 1), true);
    gen_past = false;
    on(Date_(2022, 12, 21), gen_stmts(1 + (int)sim_rnd(3), 2));
    if (sim_rnd_bool(2, 3))
        on(Date_(2023, 6, 21), gen_stmts(1 + (int)sim_rnd(3), 2));
    if (schedule) {
        static const char* F[] = {"6m", "4m", "9m"};
        String_ when = String_("START: 2022-06-21 END: 2023-12-21 FREQ: ") + F[sim_rnd(3)] + (sim_rnd_bool(1, 2) ? " CALENDAR: CN.SSE BizRule: Following" : "");
        Expr e = gen_expr(1);
        gen_size[1] *= 5;
        ev(Cell_(when), "b = b + DCF(ACT365F, PeriodBegin, PeriodEnd) * " + text(e.size > 1 ? spot_now() : e));
    }
    {
        Stmt last;
        last.var = 3;
        last.pays = true;
        last.e = gen_expr(2);
        if (macro) {
            Expr k;
            k.op = X_K;
            Expr m = mk(X_MAX, {mk(X_SUB, {spot_now(), mk(X_MUL, {lit(0.5), k})}), lit(0)});
            ev(Cell_(Date_(2024, 6, 21)), "opt pays " + text(last.e) + " + MAX(SHIFT, 0)");
            last.e = mk(X_ADD, {last.e, m});
            meaning.emplace_back(false, std::vector<Stmt>{last});
        } else
            on(Date_(2024, 6, 21), {last});
    }
    int alt = (int)sim_rnd(3); // the evaluation date moves on while the product lives
    std::vector<double> spots;
    for (int i = 0; i < 12; ++i)
        spots.push_back(sim_rnd_bool(1, 4) ? 8.0 : 6.0 + 0.37 * (double)sim_rnd(12));

    std::vector<Worth> refs; // what the script is worth on each path
    for (int k = 0; k < 4 && !schedule; ++k) {
        sim::Pause z;
        Worth r;
        size_t i = 0;
        for (auto& m : meaning) {
            When w{0, 1, m.first};
            if (!m.first) {
                w.spot = spots[(k * 3 + i) % 12] + (k & 1 ? 0.00137 * (double)(i + 1) : 0.0);
                w.numeraire = 1.0 + 0.05 * (double)i;
                ++i;
            }
            value(m.second, w, r);
        }
        refs.push_back(r);
    }
    auto evaluate = [&](const ScriptProduct_& p, Outcome& o, int nested, bool fuzzy, bool compiled) {
        for (int k = 0; k < 4; ++k) {
            AAD::Scenario_<> path;
            AllocatePath(p.DefLine(), path);
            InitializePath(path);
            for (size_t i = 0; i < path.size(); ++i) {
                path[i].spot_ = spots[(k * 3 + i) % 12] + (k & 1 ? 0.00137 * (double)(i + 1) : 0.0);
                path[i].numeraire_ = 1.0 + 0.05 * (double)i;
            }
            auto put = [&](auto& to, const auto& vals) {
                for (size_t i = 0; i < p.VarNames().size(); ++i)
                    to.emplace_back(std::string(p.VarNames()[i].c_str()) + "@" + std::to_string(k), vals[i]);
            };
            {
                auto e = p.BuildEvaluator<double>();
                p.Evaluate(path, e);
                put(o.plain, e.VarVals());
            }
            if (compiled) {
                auto s = p.BuildEvalState<double>();
                p.EvaluateCompiled(path, s);
                put(o.compiled, s.VarVals());
                o.hasCompiled = true;
            }
            { // the same with derivatives
                using AAD::Number_;
                AAD::Tape_ tape;
                struct Scope {
                    AAD::Tape_* old = Number_::Tape();
                    explicit Scope(AAD::Tape_* t) { Number_::SetTape(t); }
                    ~Scope() { Number_::SetTape(old); }
                } scope(&tape);
                AAD::Scenario_<Number_> apath;
                AllocatePath(p.DefLine(), apath);
                InitializePath(apath);
                for (size_t i = 0; i < apath.size(); ++i) {
                    apath[i].spot_ = Number_(path[i].spot_);
                    apath[i].numeraire_ = Number_(path[i].numeraire_);
                }
                auto derivatives = [&](auto& to, auto& slopes, const Vector_<Number_>& vals) {
                    std::vector<double> plain;
                    for (size_t i = 0; i < vals.size(); ++i)
                        plain.push_back(vals[i].value());
                    put(to, plain);
                    Number_ res = vals[p.PayOffIdx()] * 1.0;
                    for (size_t i = 0; i < apath.size(); ++i)
                        apath[i].spot_.Adjoint() = 0.0;
                    res.PropagateToStart();
                    for (size_t i = 0; i < apath.size() && !refs.empty() && !refs[(size_t)k].tied && !refs[(size_t)k].near; ++i) // at a tie either argument may lend its slope
                        slopes.emplace_back("spot" + std::to_string(i) + "@" + std::to_string(k), apath[i].spot_.Adjoint());
                };
                {
                    auto e = p.BuildEvaluator<Number_>();
                    p.Evaluate(apath, e);
                    derivatives(o.aad, o.slopes, e.VarVals());
                }
                if (compiled) {
                    tape.ResetAdjoints();
                    auto s = p.BuildEvalState<Number_>();
                    p.EvaluateCompiled(apath, s);
                    derivatives(o.aadCompiled, o.slopesCompiled, s.VarVals());
                }
                if (fuzzy) {
                    tape.ResetAdjoints();
                    auto e = p.BuildFuzzyEvaluator<Number_>(nested, DEF_EPS);
                    p.Evaluate(apath, e);
                    derivatives(o.aadFuzzy, o.slopesFuzzy, e.VarVals());
                }
            }
            if (fuzzy) {
                auto e = p.BuildFuzzyEvaluator<double>(nested, DEF_EPS);
                p.Evaluate(path, e);
                put(o.fuzzy, e.VarVals());
                o.hasFuzzy = true;
            }
        }
        o.line = p.TimeLine();
        for (const auto& d : p.DefLine()) {
            o.defs.push_back(d.numeraire_);
            for (double x : d.discountMats_)
                o.defs.push_back(x);
            for (const auto& f : d.forwardMats_)
                for (double x : f)
                    o.defs.push_back(x);
        }
        o.payoff = p.PayOffIdx() < p.VarNames().size() ? p.VarNames()[p.PayOffIdx()].c_str() : "?";
    };
    auto same = [&](const char* what, const auto& got, const auto& want, const char* hist, bool there = true) {
        if (!there)
            return;
        int common = 0;
        for (auto& [n, v] : got)
            for (auto& [m, w] : want)
                if (n == m) {
                    ++common;
                    if (!close(v, w, 1.0 + std::fabs(w)))
                        sim_violation("changed-by-preparation", "%s: %s of %s is %s, prepared once it is %s", hist, what, n.c_str(), fmt(v), fmt(w));
                }
        if (!common && !want.empty())
            sim_violation("changed-by-preparation", "%s: no %s in common", hist, what);
    };
    Outcome once[2]; // plain and fuzzy preparation
    std::unique_ptr<ScriptProduct_> prd;
    {
        sim::Pause z;
        for (int f = 0; f < 2; ++f) {
            ScriptProduct_ p(dates, events, "opt");
            int nested = (int)p.PreProcess(f == 1, false);
            p.Compile();
            evaluate(p, once[f], nested, f == 1, true);
        }
        // neither the simplification nor the compilation changes what the script means
        Outcome raw;
        ScriptProduct_ p(dates, events, "opt");
        int nested = (int)p.PreProcess(false, true);
        p.Compile();
        evaluate(p, raw, nested, false, true);
        for (size_t i = 0; i < events.size(); ++i)
            sim_note("event %d: %s", (int)i, events[i].c_str());
        same("compiled value", raw.compiled, raw.plain, "not simplified");
        for (auto* w : {&raw, &once[0], &once[1]}) {
            same("value with derivatives", w->aad, w->plain, "prepared once");
            same("compiled value with derivatives", w->aadCompiled, w->plain, "prepared once");
            same("derivative", w->slopes, raw.slopes, "prepared once");
            same("compiled derivative", w->slopesCompiled, raw.slopes, "prepared once");
        }
        same("smoothed value with derivatives", once[1].aadFuzzy, once[1].fuzzy, "prepared once");
        same("value", once[0].plain, raw.plain, "simplified");
        same("compiled value", once[0].compiled, raw.plain, "simplified");
        same("value", once[1].plain, raw.plain, "simplified for smoothing");
        // and the values are those the script asks for; smoothing changes them only near a tie
        for (size_t k = 0; k < refs.size(); ++k)
            for (int v = 0; v < 4; ++v) {
                static const char* names[] = {"A", "B", "C", "OPT"};
                std::string who = std::string(names[v]) + "@" + std::to_string(k);
                double want = refs[k].v[v];
                if (refs[k].near || !std::isfinite(want))
                    continue;
                auto find = [&](const auto& l, const char* what) {
                    for (auto& [n, x] : l)
                        if (!strcasecmp(n.c_str(), who.c_str())) {
                            sim_probe(2);
                            if (!close(x, want, 10.0 * (1.0 + std::fabs(want))))
                                sim_violation("not-what-the-script-says", "%s of %s is %s; walking the script gives %s", what, who.c_str(), fmt(x), fmt(want));
                        }
                };
                find(raw.plain, "value");
                if (!refs[k].fuzzy) {
                    sim_probe(3);
                    find(once[1].fuzzy, "smoothed value away from ties");
                }
            }
        prd = std::make_unique<ScriptProduct_>(dates, events, "opt");
        for (size_t i = 0; i < events.size(); ++i)
            sim_note("event %d: %s", (int)i, events[i].c_str());
    }
    unsigned rates[] = {0, 2000, 10000, 50000};
    std::string hist;
    int n = 2 + (int)sim_rnd(5);
    bool ready = false, fuzzyReady = false, compiled = false;
    int nested = 0;
    for (int k = 0; k < n; ++k) {
        int what = (int)sim_rnd(4);
        bool fz = sim_rnd_bool(1, 2), skip = sim_rnd_bool(1, 3);
        unsigned rate = rates[sim_rnd(4)], cnt = 1 + (unsigned)sim_rnd(3);
        bool move = sim_rnd_bool(1, 4);
        if (!sim_op(k))
            continue;
        if (move && alt) {
            sim::Pause z;
            Global::Dates_::SetEvaluationDate(alt == 1 ? Date_(2023, 1, 15) : Date_(2022, 1, 3));
        }
        uint64_t before = sim_fault_count(F_ALLOC);
        sim_fault_rate(F_ALLOC, rate, cnt);
        bool failed = false;
        try {
            if (what == 0 && ready) {
                compiled = false;
                sim_alloc_faults(1);
                prd->Compile();
                sim_alloc_faults(0);
                compiled = true;
                sim::Pause z;
                hist += "Compile ";
            } else {
                ready = fuzzyReady = compiled = false;
                sim_alloc_faults(1);
                nested = (int)prd->PreProcess(fz, skip);
                sim_alloc_faults(0);
                ready = true;
                fuzzyReady = fz;
                sim::Pause z;
                hist += fz ? "PreProcess(fuzzy) " : skip ? "PreProcess(skip) " : "PreProcess ";
            }
        } catch (const std::exception& e) {
            sim_alloc_faults(0);
            sim::Pause z;
            failed = true;
            sim_probe(0);
            hist += "failure ";
            sim_note("failure");
            if (sim_fault_count(F_ALLOC) == before)
                sim_violation("spurious-failure", "%s: '%s' although nothing failed", hist.c_str(), e.what());
        }
        sim_fault_rate(F_ALLOC, 0, 0);
        if (failed || !ready)
            continue;
        sim::Pause z;
        sim_note("%s", hist.c_str());
        Outcome o;
        const Outcome& w = once[fuzzyReady];
        if (prd->TimeLine() != w.line || prd->DefLine().size() != w.line.size())
            sim_violation("timeline", "%s: the time line has %zu dates from %s on, prepared once it has %zu from %s on", hist.c_str(), prd->TimeLine().size(),
                          fmt(prd->TimeLine().empty() ? 0 : prd->TimeLine()[0]), w.line.size(), fmt(w.line.empty() ? 0 : w.line[0]));
        evaluate(*prd, o, nested, fuzzyReady, compiled);
        if (o.defs != w.defs)
            sim_violation("timeline", "%s: the simulation data asked for differ", hist.c_str());
        if (o.payoff != w.payoff)
            sim_violation("payoff", "%s: the payoff is '%s' instead of '%s'", hist.c_str(), o.payoff.c_str(), w.payoff.c_str());
        same("value", o.plain, w.plain, hist.c_str());
        same("value with derivatives", o.aad, w.plain, hist.c_str());
        same("derivative", o.slopes, w.slopes, hist.c_str());
        same("compiled value with derivatives", o.aadCompiled, w.plain, hist.c_str(), o.hasCompiled);
        same("compiled derivative", o.slopesCompiled, w.slopes, hist.c_str(), o.hasCompiled);
        same("smoothed derivative", o.slopesFuzzy, w.slopesFuzzy, hist.c_str(), o.hasFuzzy);
        if (o.hasCompiled)
            same("compiled value", o.compiled, w.compiled, hist.c_str());
        if (o.hasFuzzy)
            same("smoothed value", o.fuzzy, w.fuzzy, hist.c_str());
    }
}

namespace {
    std::vector<std::string> words(const String_& s) {
        std::vector<std::string> out;
        size_t i = 0;
        auto wordy = [](char c) { return std::isalnum((unsigned char)c) || c == '_' || c == '.'; };
        while (i < s.size()) {
            size_t j = i + 1;
            if (wordy(s[i]))
                while (j < s.size() && wordy(s[j]))
                    ++j;
            else if (j < s.size() && s[j] == '=' && (s[i] == '!' || s[i] == '>' || s[i] == '<'))
                ++j;
            else if (s[i] == ' ') {
                ++i;
                continue;
            }
            out.push_back(std::string(s.begin() + (long)i, s.begin() + (long)j));
            i = j;
        }
        return out;
    }
    String_ joined(const std::vector<std::string>& w) {
        String_ out;
        for (auto& x : w)
            out += String_(x.c_str()) + " ";
        return out;
    }
    bool is(const std::string& a, const char* b) { return !strcasecmp(a.c_str(), b); }
    // Can no script end like this?
    bool unfinished(const String_& text) {
        int open = 0, ifs = 0;
        auto w = words(text);
        for (auto& x : w) {
            open += (x == "(") - (x == ")");
            ifs += is(x, "IF") - is(x, "END");
        }
        if (open > 0 || ifs > 0)
            return true;
        if (w.empty())
            return false;
        static const char* ops[] = {"+", "-", "*", "/", "^", "=", ",", ">", ">=", "<", "<=", "!=", "pays", "and", "or", "max", "min", "spot", "sqrt", "log", "exp"};
        for (const char* o : ops)
            if (is(w.back(), o))
                return true;
        return false;
    }
    void damage(std::vector<std::string>& w) {
        static const char* odd[] = {"(", ")", ",", "IF", "END", "THEN", "ELSE", "=", "pays", "MAX", "DCF", "SPOT", "AND", "OR", "!=", ":", ";", "^", "K", "-", "1.5.2", "x"};
        int n = 1 + (int)sim_rnd(2);
        while (n-- && !w.empty()) {
            size_t i = sim_rnd(w.size()), j = sim_rnd(w.size());
            switch (sim_rnd(6)) {
            case 0:
                w.erase(w.begin() + (long)i);
                break;
            case 1:
                w.insert(w.begin() + (long)i, std::string(w[j]));
                break;
            case 2:
                std::swap(w[i], w[j]);
                break;
            case 3:
                w[i] = odd[sim_rnd(22)];
                break;
            case 4:
                w.resize(i);
                break;
            default:
                w.erase(w.begin() + (long)std::min(i, j), w.begin() + (long)std::max(i, j));
            }
        }
    }
}

// Products are made of texts that are whole, cut short or damaged, while memory runs out: each is understood or
// refused, and none changes what is made of the next.
SIM_WORKLOAD(texts) {
    sim_step_cap(120000000);
    {
        sim::Pause z;
        RegisterAll_::Init(1);
    }
    set_today();
    struct Text {
        Vector_<Cell_> dates;
        Vector_<String_> events;
        bool mustFail = false, mustWork = false;
        std::vector<std::pair<bool, std::vector<Stmt>>> meaning;
        int payments = -1; // a schedule's
    };
    std::vector<std::pair<Date_, std::vector<Stmt>>> script;
    const char* F[] = {"6m", "4m", "9m", "3m"};
    const int FM[] = {6, 4, 9, 3};
    {
        sim::Pause z;
        gen_size[0] = gen_size[1] = gen_size[2] = 1;
        gen_past = true;
        if (sim_rnd_bool(1, 3))
            script.emplace_back(Date_(2021, 6, 21), gen_stmts(1 + (int)sim_rnd(2), 1));
        gen_past = false;
        script.emplace_back(Date_(2022, 12, 21), gen_stmts(1 + (int)sim_rnd(3), 2));
        if (sim_rnd_bool(1, 2))
            script.emplace_back(Date_(2023, 6, 21), gen_stmts(1 + (int)sim_rnd(3), 2));
        Stmt last;
        last.var = 3;
        last.pays = true;
        last.e = gen_expr(2);
        script.emplace_back(Date_(2024, 6, 21), std::vector<Stmt>{last});
    }
    double spots[4];
    for (double& x : spots)
        x = 6.0 + 0.37 * (double)sim_rnd(12);
    int n = 2 + (int)sim_rnd(6);
    unsigned rates[] = {0, 0, 1000, 10000};
    for (int k = 0; k < n; ++k) {
        Text t;
        unsigned rate = rates[sim_rnd(4)], cnt = 1 + (unsigned)sim_rnd(2);
        bool fuzzy = sim_rnd_bool(1, 2);
        {
            sim::Pause z;
            int kind = (int)sim_rnd(7);
            t.dates.push_back(Cell_("K"));
            t.events.push_back("8");
            size_t at = sim_rnd(script.size());
            for (size_t i = 0; i < script.size(); ++i) {
                t.dates.push_back(Cell_(script[i].first));
                t.events.push_back(text(script[i].second));
                t.meaning.emplace_back(script[i].first < Date_(2022, 1, 1), script[i].second);
            }
            String_& e = t.events[at + 1];
            switch (kind) {
            case 0: // whole
                t.mustWork = true;
                break;
            case 1: { // cut between two statements
                t.mustWork = true;
                auto& m = t.meaning[at].second;
                m.resize(sim_rnd(m.size() + 1));
                e = text(m);
                break;
            }
            case 2: // cut anywhere
                e = e.substr(0, sim_rnd(e.size() + 1));
                t.mustFail = unfinished(e);
                break;
            case 3: { // pieces lost, doubled, exchanged
                if (sim_rnd_bool(1, 3)) {
                    static const char junk[] = "()=<>+-*/^,;:.019aK_$ \n\x80";
                    for (int j = 1 + (int)sim_rnd(3); j && !e.empty(); --j)
                        e[sim_rnd(e.size())] = junk[sim_rnd(sizeof junk - 1)];
                } else {
                    auto w = words(e);
                    damage(w);
                    e = joined(w);
                }
                break;
            }
            case 4: { // what no script may do
                t.mustFail = true;
                static const char* bad[] = {"K = 1 ", "K pays 2 ", "MAX = 1 ", "a = spot( ", "a = (1 2) ", "IF a > 1 ", "IF a THEN b = 1 END ", "b = DCF(ACT365F) ", "b = DCF(ACT365F, 2022-06-21) ", "b = DCF ", "c = MIN(1) ",
                                            "IF a > 1 THEN b = 2 ELSE ", "a = 1 + ", "a ", "END ", "c = LOG ", "c = () ", "a = SQRT(1, 2) ", "a = 1 ) ", "IF a > THEN b = 1 END "};
                e = sim_rnd_bool(1, 2) ? e + bad[sim_rnd(20)] : bad[sim_rnd(20)] + e;
                if (sim_rnd_bool(1, 6)) {
                    e = text(script[at].second);
                    Text u;
                    u.mustFail = true;
                    u.dates.push_back(Cell_("K"));
                    u.events.push_back("9");
                    for (size_t i = 0; i < t.dates.size(); ++i) {
                        u.dates.push_back(t.dates[i]);
                        u.events.push_back(t.events[i]);
                    }
                    t = u;
                }
                break;
            }
            default: { // a schedule, whole or not
                size_t f = sim_rnd(4);
                std::vector<std::vector<std::string>> clauses = {{"START", ":", "2022", "-", "06", "-", "21"}, {"END", ":", "2023", "-", "12", "-", "21"}, {"FREQ", ":", F[f]}};
                if (sim_rnd_bool(1, 2))
                    clauses.push_back({"CALENDAR", ":", "CN.SSE"});
                if (sim_rnd_bool(1, 2))
                    clauses.push_back({"BizRule", ":", "Following"});
                if (sim_rnd_bool(1, 2))
                    clauses.push_back({"FIXING", ":", sim_rnd_bool(1, 2) ? "BEGIN" : "END"});
                for (size_t i = clauses.size() - 1; i > 0; --i)
                    std::swap(clauses[i], clauses[sim_rnd(i + 1)]);
                size_t drop = sim_rnd(clauses.size() + 1);
                int how = (int)sim_rnd(5);
                std::vector<std::string> w;
                bool lost = false;
                for (size_t i = 0; i < clauses.size(); ++i) {
                    auto c = clauses[i];
                    if (i == drop && how == 1) { // a clause is missing
                        lost = c[0] == "START" || c[0] == "END" || c[0] == "FREQ";
                        continue;
                    }
                    if (i == drop && how == 2) { // cut in a clause
                        c.resize(1 + sim_rnd(c.size() - 1));
                        lost = true;
                        w.insert(w.end(), c.begin(), c.end());
                        break;
                    }
                    if (how == 3 && i == drop) {
                        if (c[0] == "FREQ") { // does not advance
                            c[2] = sim_rnd_bool(1, 2) ? "0m" : "0d";
                            lost = true;
                        } else if (c.size() > 3) { // no date the library has
                            static const char* years[] = {"1969", "2200", "0", "20231"};
                            c[2] = years[sim_rnd(4)];
                            lost = true;
                        }
                    }
                    w.insert(w.end(), c.begin(), c.end());
                }
                if (how == 4)
                    damage(w);
                t.mustFail = lost;
                t.mustWork = !lost && how != 4;
                t.payments = (18 + FM[f] - 1) / FM[f];
                String_ when;
                for (auto& x : w)
                    when += (when.empty() || x == "-" || when.back() == '-' || x == ":" ? String_() : String_(" ")) + String_(x.c_str());
                if (when.find(":") == String_::npos) {
                    t.mustFail = t.mustWork = false; // the name of a macro
                    when += "_x";
                }
                t.dates.clear();
                t.events.clear();
                t.dates.push_back(Cell_(when));
                t.events.push_back("n = n + 1 b = b + DCF(ACT365F, PeriodBegin, PeriodEnd)");
                t.dates.push_back(Cell_(Date_(2024, 6, 21)));
                t.events.push_back("opt pays n");
            }
            }
            for (size_t i = 0; i < t.events.size(); ++i)
                sim_note("text %d: %s", k, t.events[i].c_str());
            if (kind > 4)
                sim_note("when %d: %s", k, Cell::ToString(t.dates[0]).c_str());
        }
        if (!sim_op(k))
            continue;
        bool failed = false;
        Vector_<double> vals, cvals;
        Vector_<String_> names;
        uint64_t before = sim_fault_count(F_ALLOC);
        sim_fault_rate(F_ALLOC, rate, cnt);
        try {
            sim_alloc_faults(1);
            ScriptProduct_ p(t.dates, t.events, "opt");
            int nested = (int)p.PreProcess(fuzzy, false);
            p.Compile();
            AAD::Scenario_<> path;
            AllocatePath(p.DefLine(), path);
            InitializePath(path);
            for (size_t i = 0; i < path.size(); ++i) {
                path[i].spot_ = spots[i & 3];
                path[i].numeraire_ = 1.0 + 0.05 * (double)i;
            }
            auto e = p.BuildEvaluator<double>();
            p.Evaluate(path, e);
            auto s = p.BuildEvalState<double>();
            p.EvaluateCompiled(path, s);
            if (fuzzy) {
                auto z = p.BuildFuzzyEvaluator<double>(nested, DEF_EPS);
                p.Evaluate(path, z);
            }
            sim_alloc_faults(0);
            sim::Pause z;
            vals = e.VarVals();
            cvals = s.VarVals();
            names = p.VarNames();
        } catch (const std::exception& x) {
            sim_alloc_faults(0);
            sim::Pause z;
            failed = true;
            sim_note("text %d refused: %s", k, std::string(x.what()).substr(0, 60).c_str());
        }
        sim_alloc_faults(0);
        sim_fault_rate(F_ALLOC, 0, 0);
        sim::Pause z;
        bool faulted = sim_fault_count(F_ALLOC) != before;
        sim_probe(failed ? 0 : 1);
        if (faulted && failed) {
            sim_probe(4);
            continue;
        }
        if (t.mustFail && !failed)
            sim_violation("bad-text-accepted", "text %d was accepted although no script is like this", k);
        if (t.mustWork && failed)
            sim_violation("good-text-refused", "text %d was refused although it is whole", k);
        if (!t.mustWork || failed)
            continue;
        auto look = [&](const char* who, double& out) {
            for (size_t i = 0; i < names.size(); ++i)
                if (!strcasecmp(names[i].c_str(), who)) {
                    out = vals[i];
                    if (!close(vals[i], cvals[i], 1.0 + std::fabs(vals[i])))
                        sim_violation("not-what-the-script-says", "%s is %s, compiled %s", who, fmt(vals[i]), fmt(cvals[i]));
                    return true;
                }
            return false;
        };
        double got = 0;
        if (t.payments >= 0) {
            sim_probe(2);
            if (!look("n", got) || got != t.payments)
                sim_violation("not-what-the-script-says", "the schedule has %d periods, %s counted", t.payments, fmt(got));
            continue;
        }
        Worth r;
        size_t i = 0;
        for (auto& m : t.meaning) {
            When w{0, 1, m.first};
            if (!m.first) {
                w.spot = spots[i & 3];
                w.numeraire = 1.0 + 0.05 * (double)i;
                ++i;
            }
            value(m.second, w, r);
        }
        if (r.near)
            continue;
        static const char* who[] = {"a", "b", "c", "opt"};
        for (int v = 0; v < 4; ++v)
            if (look(who[v], got) && std::isfinite(r.v[v])) {
                sim_probe(3);
                if (!close(got, r.v[v], 10.0 * (1.0 + std::fabs(r.v[v]))))
                    sim_violation("not-what-the-script-says", "%s is %s; walking the script gives %s", who[v], fmt(got), fmt(r.v[v]));
            }
    }
}

// -------------------------------------------------------------------------------------------------- C19: valuations keep nothing
// Each valuation has its pool started and stopped around it, so what its workers keep for the next one is gone, too.
SIM_WORKLOAD(keepmc) {
    sim_step_cap(200000000);
    set_today();
    unsigned hw = 1 + (unsigned)sim_rnd(3);
    sim_set_hw(hw);
    size_t nw = 1 + sim_rnd(hw);
    sim_set_batch(1 + (int)sim_rnd(5));
    bool aad = sim_rnd_bool(1, 2);
    Job j;
    prepare(j, aad);
    bool bad = sim_rnd_bool(1, 6); // every task fails
    String_ rsg = bad ? String_("no such generator") : j.spec.rsg;
    auto* pool = ThreadPool_::GetInstance();
    int rounds = 2 + (int)sim_rnd(4);
    auto value = [&](bool faults) {
        Tape_ mine;
        if (aad)
            Number_::SetTape(mine);
        pool->Start(nw, true);
        try {
            if (faults)
                sim_alloc_faults_all(1);
            if (aad && j.viaPublic && !bad)
                ValueByMonteCarlo(j.data, j.spec.model, j.spec.npaths, rsg, j.spec.bb, true, j.eps);
            else if (j.viaPublic && !bad)
                ValueByMonteCarlo(j.data, j.spec.model, j.spec.npaths, rsg, j.spec.bb, false);
            else if (aad)
                MCSimulation<Number_>(*j.prd, j.spec.model, (size_t)j.spec.npaths, rsg, j.spec.bb, j.spec.compiled, j.nested, j.eps);
            else
                MCSimulation<double>(*j.prd, j.spec.model, (size_t)j.spec.npaths, rsg, j.spec.bb, j.spec.compiled);
            sim_alloc_faults_all(0);
        } catch (const std::exception&) {
            sim_alloc_faults_all(0);
        }
        pool->Stop();
        Number_::SetTape((Tape_*)nullptr);
    };
    auto round = [&](bool faults) { // by a thread of its own, for the same reason
        std::thread t([&] { value(faults); });
        t.join();
    };
    sim_fault_rate(F_ALLOC, 0, 0);
    round(false);
    round(false);
    uint64_t before = sim_live_blocks();
    static const unsigned rates[] = {0, 300, 1500, 8000, 40000};
    for (int r = 0; r < rounds; ++r) {
        unsigned rate = rates[sim_rnd(5)];
        if (!sim_op(r))
            continue;
        uint64_t f0 = sim_fault_count(F_ALLOC);
        sim_fault_rate(F_ALLOC, rate, 1 + (unsigned)sim_rnd(2));
        sim_origins(1);
        round(true);
        sim_fault_rate(F_ALLOC, 0, 0);
        round(false);
        sim_origins(0);
        sim_probe(sim_fault_count(F_ALLOC) != f0 ? 1 : 0);
        uint64_t now = sim_live_blocks();
        if (now > before)
            sim_kept("memory-kept", ("a valuation keeps " + std::to_string(now - before) + " blocks of memory after the pool has stopped").c_str());
        before = now;
    }
}
