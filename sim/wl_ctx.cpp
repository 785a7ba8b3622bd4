// Workloads for scoped context: the notes attached to errors, and environments with auditors.
#include <cmath>
#include <cstdio>
#include <cstring>
#include <future>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/storage/audit.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/json.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/utilities/environment.hpp>
#include <dal/utilities/exceptions.hpp>
#include "sim.hpp"

using namespace Dal;

// -------------------------------------------------------------------------------- notes
namespace {
    struct Want {
        std::string name, value;
    };
    std::vector<std::vector<Want>>* mirror_of; // per simulated thread: what is open there
    std::vector<Want>& mirror() { return (*mirror_of)[(size_t)sim_tid()]; }
    struct Mirror {
        Mirror(const std::string& n, const std::string& v) {
            sim::Pause z;
            mirror().push_back({n, v});
        }
        ~Mirror() {
            sim::Pause z;
            mirror().pop_back();
        }
    };
    std::vector<std::string> lines_after(const std::string& text, const std::string& msg, bool* found) {
        std::vector<std::string> r;
        size_t p = text.find(msg);
        *found = p != std::string::npos;
        if (!*found)
            return r;
        p += msg.size();
        while (p < text.size() && text[p] == '\n') {
            size_t q = text.find('\n', p + 1);
            if (q == std::string::npos)
                q = text.size();
            r.push_back(text.substr(p + 1, q - p - 1));
            p = q;
        }
        return r;
    }
    // the message carries the notes that were open, in order, and nothing else (a callee may add its own behind them)
    bool holds(const std::string& line, const std::string& what) { // as a word of its own
        if (what.empty())
            return true;
        for (size_t p = line.find(what); p != std::string::npos; p = line.find(what, p + 1)) {
            size_t e = p + what.size();
            if (what.find('.') != std::string::npos)
                while (e < line.size() && line[e] == '0')
                    ++e;
            if ((p == 0 || !isalnum((unsigned char)line[p - 1])) && (e == line.size() || !isalnum((unsigned char)line[e])))
                return true;
        }
        return false;
    }
    void check_text(const std::string& text, const std::string& msg, const std::vector<Want>& want, bool more, const char* where) {
        sim::Pause z;
        bool found;
        auto got = lines_after(text, msg, &found);
        if (!found)
            sim_violation("message-lost", "%s: the error does not carry its message '%s': %.100s", where, msg.c_str(), text.c_str());
        for (size_t i = 0; i < want.size(); ++i) {
            if (i >= got.size())
                sim_violation("note-lost", "%s: the error carries %zu notes instead of %zu; '%s' is missing", where, got.size(), want.size(), want[i].name.c_str());
            if (!holds(got[i], want[i].name) || !holds(got[i], want[i].value))
                sim_violation("note-wrong", "%s: note %zu is '%s' instead of '%s = %s'", where, i, got[i].c_str(), want[i].name.c_str(), want[i].value.c_str());
        }
        if (!more && got.size() > want.size())
            sim_violation("note-left", "%s: the error carries a note that is not open: '%s'", where, got[want.size()].c_str());
    }
    bool notes_faulty;
    struct Faults { // allocation failures are allowed in this scope
        Faults() {
            if (notes_faulty)
                sim_alloc_faults(1);
        }
        ~Faults() {
            if (notes_faulty)
                sim_alloc_faults(0);
        }
    };
    void go(int depth, int& budget);
    void raise_and_check(int kind) {
        std::string msg, text;
        std::vector<Want> want;
        {
            sim::Pause z;
            char b[60];
            snprintf(b, sizeof b, "boom %d.%llu", sim_tid(), (unsigned long long)sim_seq());
            msg = b;
            want = mirror();
            text.reserve(8192);
        }
        bool more = false, memory = false;
        try {
            Faults f;
            switch (kind) {
            case 0: THROW(msg);
            case 1: THROW(msg.c_str());
            case 2: THROW2(String_(msg), ScriptError_);
            case 3: REQUIRE(msg.empty(), msg); break;
            default: {
                more = true;
                JSON::ReadString("{ \"~type\": \"Nobody\" }", true); // the library's own error, with its own notes
            }
            }
            sim_violation("no-error", "nothing was raised");
        } catch (const Exception_& e) {
            sim::Pause z;
            text = e.what();
            if (kind >= 4)
                msg = "builder";
        } catch (const std::bad_alloc&) {
            memory = true;
        }
        if (memory) {
            sim_probe(0);
            if (!notes_faulty)
                sim_violation("spurious-failure", "out of memory although no allocation failed");
            return;
        }
        check_text(text, msg, want, more, "caught here");
    }
    struct Talker { // uses notes of its own while the stack is unwound
        int v;
        bool raise;
        int depth = 0;
        int* budget = nullptr;
        ~Talker() {
            try {
                NOTICE2("farewell", v);
                Mirror m("farewell", std::to_string(v));
                if (raise)
                    raise_and_check(v % 4);
                if (budget && v % 3 == 0) { // an error within the unwinding of another, caught here, then anything else
                    try {
                        int last = v + 1;
                        NOTICE(last);
                        Mirror ml("last", std::to_string(last));
                        go(depth + 1, *budget);
                        THROW("while leaving");
                    } catch (const Exception_&) {
                        sim_probe(4);
                    }
                    raise_and_check(v % 5);
                }
            } catch (const std::bad_alloc&) {
            }
        }
    };
    struct Thrown {
        std::string msg, text;
        std::vector<Want> want;
    };
    void deep(int n, int v, int depth, int& budget) {
        if (n == 0) {
            if (budget > 6)
                budget = 6;
            raise_and_check(v % 5);
            go(depth + 4, budget);
            return;
        }
        Faults f;
        NOTICE2("level", v);
        Mirror m("level", std::to_string(v));
        deep(n - 1, v + 1, depth, budget);
    }
    // opens scopes, raises, catches, at random depths
    void go(int depth, int& budget) {
        while (budget-- > 0) {
            int z = sim_rnd_bool(1, 20) ? 12 : (int)sim_rnd(12);
            if (depth > 7 && (z < 7 || z == 12))
                z = 7 + z % 5;
            switch (z) {
            case 0: {
                int number = sim_rnd_bool(1, 8) ? (sim_rnd_bool(1, 2) ? -2147483647 - 1 : 0) : (int)sim_rnd(1000000) - (int)sim_rnd(2) * 500000;
                Faults f;
                NOTICE(number);
                Mirror m("number", std::to_string(number));
                go(depth + 1, budget);
                break;
            }
            case 1: {
                double amount = ((double)sim_rnd(100000) + 0.5) * (sim_rnd_bool(1, 4) ? -1.0 : 1.0);
                Faults f;
                NOTICE(amount);
                Mirror m("amount", std::to_string((int)amount) + ".5");
                go(depth + 1, budget);
                break;
            }
            case 2: {
                String_ label;
                std::string plain;
                {
                    sim::Pause zz;
                    plain = std::string(sim_rnd_bool(1, 6) ? sim_rnd(300) : 0, 'x') + "text" + std::to_string(sim_rnd(100000));
                    label = plain.c_str();
                }
                Faults f;
                if (sim_rnd_bool(1, 3)) {
                    const char* letters = plain.c_str();
                    NOTICE(letters);
                    Mirror m("letters", plain);
                    go(depth + 1, budget);
                    break;
                }
                NOTICE2("label", label);
                Mirror m("label", plain);
                go(depth + 1, budget);
                break;
            }
            case 3: {
                Date_ day = Date_(2023, 1, 1).AddDays((int)sim_rnd(365));
                std::string plain;
                {
                    sim::Pause zz;
                    plain = Date::ToString(day).c_str();
                }
                Faults f;
                if (sim_rnd_bool(1, 3)) {
                    DateTime_ when(day, 10, 20, 30);
                    NOTICE(when);
                    {
                        sim::Pause zz;
                        plain = DateTime::ToString(when).c_str();
                    }
                    Mirror m("when", plain);
                    go(depth + 1, budget);
                    break;
                }
                NOTICE(day);
                Mirror m("day", plain);
                go(depth + 1, budget);
                break;
            }
            case 4: {
                static const char* WORDS[] = {"alpha", "beta", "gamma", "delta"};
                const char* w = WORDS[sim_rnd(4)];
                Faults f;
                NOTE(w);
                Mirror m(w, "");
                go(depth + 1, budget);
                break;
            }
            case 12: { // many at once
                deep((int)sim_rnd(70), 1 + (int)sim_rnd(100000), depth, budget);
                break;
            }
            case 5: { // left by an error that is caught here
                auto before = mirror().size();
                try {
                    Talker t{(int)sim_rnd(1000), (bool)sim_rnd(2), depth + 1, &budget};
                    int inner = (int)sim_rnd(1000000);
                    Faults f;
                    NOTICE(inner);
                    Mirror m("inner", std::to_string(inner));
                    go(depth + 1, budget);
                    if (sim_rnd_bool(1, 2))
                        THROW("leaving");
                } catch (const Exception_&) {
                    sim_probe(1);
                } catch (const std::bad_alloc&) {
                    sim_probe(0);
                }
                (void)before;
                break;
            }
            case 6: { // an error that is rethrown to an outer scope keeps the notes of where it was raised
                Thrown t;
                bool raised = false;
                try {
                    int origin = (int)sim_rnd(1000000);
                    NOTICE(origin);
                    Mirror m("origin", std::to_string(origin));
                    {
                        sim::Pause zz;
                        t.msg = "travelling " + std::to_string(sim_seq());
                        t.want = mirror();
                    }
                    try {
                        THROW(t.msg);
                    } catch (...) {
                        int other = 17; // handling it does not add to it
                        NOTICE(other);
                        throw;
                    }
                } catch (const Exception_& e) {
                    sim::Pause zz;
                    t.text = e.what();
                    raised = true;
                }
                if (raised)
                    check_text(t.text, t.msg, t.want, false, "rethrown");
                break;
            }
            case 11: return;
            default: raise_and_check((int)sim_rnd(5)); break;
            }
        }
    }
    void talk(int n) {
        int budget = n;
        while (budget > 0) {
            auto before = mirror().size();
            try {
                go(0, budget);
            } catch (const std::bad_alloc&) {
                sim_probe(0);
            } catch (const Exception_&) {
                sim_violation("stray-error", "an error that was handled turns up again");
            }
            if (mirror().size() != before)
                sim_violation("harness", "mirror is off");
        }
    }
}

SIM_WORKLOAD(notes) {
    int nt = 1 + (int)sim_rnd(4);
    notes_faulty = sim_rnd_bool(1, 3);
    bool pooled = sim_rnd_bool(1, 3);
    {
        sim::Pause z;
        mirror_of = new std::vector<std::vector<Want>>(64);
    }
    if (notes_faulty)
        sim_fault_rate(F_ALLOC, 2000 + (unsigned)sim_rnd(100000), 5);
    std::vector<int> steps;
    for (int t = 0; t < nt; ++t)
        steps.push_back(sim_op(t) ? 3 + (int)sim_rnd(50) : 0);
    int ntasks = pooled ? 1 + (int)sim_rnd(4) : 0;
    std::vector<Thrown> thrown((size_t)ntasks);
    ThreadPool_* pool = ThreadPool_::GetInstance();
    if (pooled)
        pool->Start(1 + sim_rnd(2));
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t)
        ts.emplace_back([&, t] { talk(steps[(size_t)t]); });
    {
        int caller = 4711;
        NOTICE(caller);
        Mirror m("caller", "4711");
        std::vector<TaskHandle_> hs;
        std::vector<int> which;
        for (int k = 0; k < ntasks; ++k)
            if (sim_op(100 + k)) {
                hs.push_back(pool->SpawnTask([&, k] {
                    int task = 100000 + k;
                    NOTICE(task);
                    Mirror mm("task", std::to_string(task));
                    {
                        sim::Pause z;
                        thrown[(size_t)k].msg = "task " + std::to_string(k) + " fails";
                        thrown[(size_t)k].want = mirror();
                    }
                    THROW(thrown[(size_t)k].msg);
                    return true;
                }));
                which.push_back(k);
            }
        talk(steps[0]);
        for (size_t i = 0; i < hs.size(); ++i) {
            std::string text;
            try {
                int waiting = 5;
                NOTICE(waiting);
                Mirror mm("waiting", "5");
                pool->ActiveWait(hs[i]);
                hs[i].get();
                sim_violation("no-error", "a task's error is lost");
            } catch (const Exception_& e) {
                sim::Pause z;
                text = e.what();
            }
            sim_probe(2);
            check_text(text, thrown[(size_t)which[i]].msg, thrown[(size_t)which[i]].want, false, "from a task");
        }
        raise_and_check(0);
    }
    for (auto& t : ts)
        t.join();
    notes_faulty = false;
    if (pooled)
        pool->Stop();
    raise_and_check(1); // nothing is open any more
    std::thread fresh([] { raise_and_check(0); }); // nor in a new thread
    fresh.join();
}

// -------------------------------------------------------------------------------- environments and auditors
namespace {
    struct Red : Environment::Entry_ {
        int v;
        explicit Red(int x) : v(x) {}
    };
    struct Blue : Environment::Entry_ {
        int v;
        explicit Blue(int x) : v(x) {}
    };
    struct Slot { // the reference's idea of one entry
        int kind; // 0 red, 1 blue, 2 auditor, 3 fixings
        int v;
        AuditorImp_* a = nullptr;
        FixingsAccess_* f = nullptr;
    };
    struct Auditing {
        AuditorImp_ a;
        std::multimap<std::string, Handle_<Storable_>> ref; // what it should remember, in order of notice
        int mode = 0;
    };
    struct Env {
        int who;
        bool faulty;
        int deepest = 5;
        std::vector<Slot> chain; // innermost last; the shared base is first, in reverse order
        std::vector<Auditing*> auditors; // those in the chain, innermost last
        std::map<AuditorImp_*, Auditing*> by;
        std::vector<Handle_<Storable_>> things;
    };
    Handle_<Storable_> thing(int k) {
        Vector_<> x, f;
        for (int i = 0; i < 2; ++i)
            x.push_back(i), f.push_back(k);
        if (k % 2)
            return Handle_<Storable_>(new Interp1Linear_("i", x, f));
        Matrix_<Cell_> c(1, 1);
        c(0, 0) = Cell_((double)k);
        return Handle_<Storable_>(new Box_("b", c));
    }
    void look(Env& e, const Environment_* _env) {
        // what the library finds
        std::vector<int> reds, blues, all;
        int red = -1, blue = -1;
        try {
            if (e.faulty)
                sim_alloc_faults(1);
            switch ((int)sim_rnd(3)) {
            case 0: {
                auto r = Environment::Collect<Red>(_env);
                auto b = Environment::Collect<Blue>(_env);
                sim_alloc_faults(0);
                sim::Pause z;
                for (auto p : r)
                    reds.push_back(p->v);
                for (auto p : b)
                    blues.push_back(p->v);
                std::vector<int> wr, wb;
                for (size_t i = e.chain.size(); i-- > 0;)
                    (e.chain[i].kind == 0 ? wr : e.chain[i].kind == 1 ? wb : all).push_back(e.chain[i].v);
                if (reds != wr || blues != wb)
                    sim_violation("wrong-entries", "T%d: %zu red and %zu blue entries are found instead of %zu and %zu, or in another order", e.who, reds.size(), blues.size(), wr.size(), wb.size());
                break;
            }
            case 1: {
                auto r = Environment::Find<Red>(_env);
                auto b = Environment::Find<Blue>(_env);
                sim_alloc_faults(0);
                red = r ? r->v : -1, blue = b ? b->v : -1;
                int wr = -1, wb = -1;
                for (auto& s : e.chain)
                    if (s.kind < 2)
                        (s.kind == 0 ? wr : wb) = s.v;
                if (red != wr || blue != wb)
                    sim_violation("wrong-entry", "T%d: entry %d/%d is found instead of the innermost one %d/%d", e.who, red, blue, wr, wb);
                break;
            }
            default: {
                size_t n = 0;
                Environment::Iterate(_env, [&](const Environment::Entry_&) { ++n; });
                sim_alloc_faults(0);
                if (n != e.chain.size())
                    sim_violation("wrong-entries", "T%d: %zu entries are visited instead of %zu", e.who, n, e.chain.size());
            }
            }
        } catch (const std::bad_alloc&) {
            sim_alloc_faults(0);
            sim_probe(0);
            if (!e.faulty)
                sim_violation("spurious-failure", "T%d: out of memory although no allocation failed", e.who);
        }
    }
    const char* KEYS[] = {"spot", "spot rate", "vol"};
    void audit(Env& e, const Environment_* _env) {
        int k = (int)sim_rnd(3);
        String_ key(KEYS[k]);
        Handle_<Storable_> h = e.things[(size_t)sim_rnd(e.things.size())];
        bool refused = false, memory = false;
        for (auto a : e.auditors)
            refused = refused || a->mode == AuditorImp_::PASSIVE || a->mode == AuditorImp_::SHOWING;
        bool raised = false;
        try {
            if (e.faulty)
                sim_alloc_faults(1);
            Environment::Audit(_env, key, h);
            sim_alloc_faults(0);
        } catch (const std::bad_alloc&) {
            sim_alloc_faults(0);
            memory = true;
            sim_probe(0);
        } catch (const Exception_&) {
            sim_alloc_faults(0);
            raised = true;
        }
        sim::Pause z;
        if (memory && !e.faulty)
            sim_violation("spurious-failure", "T%d: out of memory although no allocation failed", e.who);
        if (!memory && raised != refused)
            sim_violation("audit-refusal", "T%d: auditing %s although an auditor is%s in a mode that refuses", e.who, raised ? "is refused" : "is accepted", refused ? "" : " not");
        // innermost auditors see it first; an error stops the rest from seeing it
        for (size_t i = e.auditors.size(); i-- > 0;) {
            Auditing* a = e.auditors[i];
            if (a->mode == AuditorImp_::PASSIVE || a->mode == AuditorImp_::SHOWING)
                break;
            auto old = a->mode;
            { // after a failure each auditor has noticed it entirely or not at all
                a->a.mode_ = AuditorImp_::SHOWING;
                auto got = a->a.Find(key);
                a->a.mode_ = (decltype(a->a.mode_))old;
                auto want0 = a->ref, want1 = a->ref;
                if (a->mode == AuditorImp_::READING_EXCLUSIVE)
                    want1.erase(KEYS[k]);
                want1.insert({KEYS[k], h});
                auto same = [&](std::multimap<std::string, Handle_<Storable_>>& w) {
                    auto r = w.equal_range(KEYS[k]);
                    size_t n = 0;
                    for (auto p = r.first; p != r.second; ++p, ++n)
                        if (n >= got.size() || got[(int)n].get() != p->second.get())
                            return false;
                    return n == got.size();
                };
                bool s1 = same(want1);
                if (!memory && !s1)
                    sim_violation("audit-wrong", "T%d: the %zu records of '%s' are not those audited, in order", e.who, got.size(), KEYS[k]);
                if (!s1 && !same(want0))
                    sim_violation("audit-torn", "T%d: a failed notice leaves %zu records of '%s', neither those before nor those after it", e.who, got.size(), KEYS[k]);
                if (s1)
                    a->ref = want1;
            }
        }
    }
    void recall(Env& e, const Environment_* _env) {
        int k = (int)sim_rnd(3);
        String_ key(KEYS[k]);
        bool boxes = sim_rnd_bool(1, 2);
        Handle_<Box_> b;
        Handle_<Interp1_> f;
        bool raised = false, memory = false;
        try {
            if (e.faulty)
                sim_alloc_faults(1);
            boxes ? Environment::Recall(_env, key, &b) : Environment::Recall(_env, key, &f);
            sim_alloc_faults(0);
        } catch (const std::bad_alloc&) {
            sim_alloc_faults(0);
            memory = true;
            sim_probe(0);
        } catch (const Exception_&) {
            sim_alloc_faults(0);
            raised = true;
        }
        sim::Pause z;
        if (memory) {
            if (!e.faulty)
                sim_violation("spurious-failure", "T%d: out of memory although no allocation failed", e.who);
            return;
        }
        std::map<const Storable_*, int> distinct;
        for (auto a : e.auditors)
            if (a->mode == AuditorImp_::SHOWING) {
                auto r = a->ref.equal_range(KEYS[k]);
                for (auto p = r.first; p != r.second; ++p)
                    if (!!dynamic_cast<const Box_*>(p->second.get()) == boxes)
                        distinct[p->second.get()]++;
            }
        const Storable_* got = boxes ? (const Storable_*)b.get() : (const Storable_*)f.get();
        if (distinct.size() > 1) {
            sim_probe(2);
            if (!raised)
                sim_violation("conflict-hidden", "T%d: %zu different objects were recorded as '%s' and recalling one raises no error", e.who, distinct.size(), KEYS[k]);
        } else {
            if (raised)
                sim_violation("recall-refused", "T%d: recalling '%s' fails although %zu object was recorded", e.who, KEYS[k], distinct.size());
            const Storable_* want = distinct.empty() ? nullptr : distinct.begin()->first;
            if (got != want)
                sim_violation("wrong-recall", "T%d: recalling '%s' gives %s", e.who, KEYS[k], !got ? "nothing" : want ? "another object" : "an object nobody recorded");
            if (got)
                sim_probe(1);
        }
    }
    const char* NAMES[] = {"FX[EUR/USD]", "FX[USD/EUR]", "EQ[X]"};
    const int NTIMES = 5;
    DateTime_ fix_time(int k) { return k < 3 ? DateTime_(Date_(2024, 1, 1 + k), 11, 0, 0) : DateTime_(Date_(2024, 1, 2), 10 + (k - 3), k == 3 ? 59 : 0, k == 3 ? 59 : 1); }
    double fix_value(int i) { return sim_rnd_bool(3, 4) ? 0.5 + (double)sim_rnd(100) : i == 2 || sim_rnd_bool(1, 4) ? -(double)sim_rnd(3) * 1.25 : 1e-5 * (double)(1 + sim_rnd(100)); }
    void fill_fixings(FixingsAccess_& f) {
        for (int i = 0; i < 3; ++i)
            if (sim_rnd_bool(1, 2)) {
                Fixings_::vals_t v;
                for (int k = 0; k < NTIMES; ++k)
                    if (sim_rnd_bool(1, 2))
                        v[fix_time(k)] = fix_value(i);
                f.fixings_[NAMES[i]] = Handle_<Fixings_>(new Fixings_(NAMES[i], v));
            }
    }
    void fix(Env& e, const Environment_* _env) {
        int i = (int)sim_rnd(3), k = (int)sim_rnd(NTIMES);
        bool quiet = sim_rnd_bool(1, 2), fx = i < 2 && sim_rnd_bool(1, 2), own = !fx && sim_rnd_bool(1, 4);
        std::unique_ptr<FixHistory_> hist; // fixings somebody has in hand
        const double NONE = -1e300;
        double got = 0, want = NONE;
        bool raised = false;
        std::unique_ptr<Index::Fx_> ix;
        {
            sim::Pause z;
            FixingsAccess_* f = nullptr;
            for (auto& s : e.chain)
                f = s.kind == 3 ? s.f : f;
            auto value = [&](int n) {
                if (!f || !f->fixings_.count(NAMES[n]))
                    return NONE;
                auto& v = f->fixings_[NAMES[n]]->vals_;
                auto p = v.find(fix_time(k));
                return p == v.end() ? NONE : p->second;
            };
            want = value(i);
            if (own) {
                FixHistory_::vals_t v;
                for (int q = 0; q < NTIMES; ++q)
                    if (sim_rnd_bool(1, 2))
                        v[fix_time(q)] = fix_value(i);
                hist.reset(new FixHistory_(v));
                want = v.count(fix_time(k)) ? v[fix_time(k)] : NONE;
            }
            if (fx) {
                quiet = false;
                double inv = value(1 - i);
                if (want == NONE && inv != NONE)
                    want = 1.0 / inv;
                Ccy_ eur("EUR"), usd("USD");
                ix.reset(new Index::Fx_(i == 0 ? usd : eur, i == 0 ? eur : usd));
                if (ix->Name() != NAMES[i])
                    sim_violation("harness", "index %s is called %s", NAMES[i], ix->Name().c_str());
            }
        }
        try {
            String_ name(NAMES[i]);
            DateTime_ when = fix_time(k);
            if (e.faulty)
                sim_alloc_faults(1);
            got = fx ? ix->Fixing(_env, when) : own ? hist->Find(when, quiet) : Index::PastFixing(_env, name, when, quiet);
            sim_alloc_faults(0);
        } catch (const std::bad_alloc&) {
            sim_alloc_faults(0);
            sim_probe(0);
            if (!e.faulty)
                sim_violation("spurious-failure", "T%d: out of memory although no allocation failed", e.who);
            return;
        } catch (const Exception_&) {
            sim_alloc_faults(0);
            raised = true;
        }
        if (want == NONE) {
            if (quiet ? raised || !(got <= -Dal::INF) : !raised)
                sim_violation("fixing-invented", "T%d: a fixing of %s that is not there %s", e.who, NAMES[i], raised ? "raises although asked quietly" : "is returned");
        } else if (raised || std::fabs(got - want) > 1e-12 * std::max(1.0, std::fabs(want)))
            sim_violation("wrong-fixing", "T%d: the fixing of %s %s %.17g instead of %.17g", e.who, NAMES[i], raised ? "raises" : "is", got, want);
        else
            sim_probe(3);
    }
    void live(Env& e, const Environment_*& _env, int depth, int& budget) {
        while (budget-- > 0) {
            int z = (int)sim_rnd(13);
            if (depth > e.deepest && (z < 4 || z == 10))
                z = 4 + z % 6;
            switch (z) {
            case 0: {
                Red r((int)sim_rnd(1000));
                ENV_ADD(r);
                e.chain.push_back({0, r.v});
                live(e, _env, depth + 1, budget);
                e.chain.pop_back();
                break;
            }
            case 1: {
                Blue r((int)sim_rnd(1000));
                ENV_ADD(r);
                e.chain.push_back({1, r.v});
                live(e, _env, depth + 1, budget);
                e.chain.pop_back();
                break;
            }
            case 2: {
                Auditing* a;
                {
                    sim::Pause zz;
                    a = new Auditing;
                    a->mode = (int)sim_rnd(4);
                    if (sim_rnd_bool(2, 3))
                        a->mode = sim_rnd_bool(1, 2) ? AuditorImp_::READING : AuditorImp_::READING_EXCLUSIVE;
                }
                a->a.mode_ = (decltype(a->a.mode_))a->mode;
                {
                    ENV_ADD(a->a);
                    e.chain.push_back({2, 0, &a->a});
                    e.auditors.push_back(a);
                    live(e, _env, depth + 1, budget);
                    e.auditors.pop_back();
                    e.chain.pop_back();
                }
                sim::Pause zz;
                delete a;
                break;
            }
            case 3: { // a scope left by an error
                const Environment_* outer = _env;
                size_t n = e.chain.size();
                try {
                    Red r((int)sim_rnd(1000));
                    ENV_ADD(r);
                    Blue q((int)sim_rnd(1000));
                    ENV_ADD(q);
                    e.chain.push_back({0, r.v});
                    e.chain.push_back({1, q.v});
                    look(e, _env);
                    throw 1;
                } catch (int) {
                }
                e.chain.resize(n);
                if (_env != outer)
                    sim_violation("scope-left", "T%d: leaving a scope by an error does not restore the environment", e.who);
                look(e, _env);
                break;
            }
            case 4:
            case 5: audit(e, _env); break;
            case 6:
                if (!e.auditors.empty()) { // turn one of them to showing or back
                    Auditing* a = e.auditors[(size_t)sim_rnd(e.auditors.size())];
                    a->mode = (int)sim_rnd(4);
                    a->a.mode_ = (decltype(a->a.mode_))a->mode;
                }
                break;
            case 7:
                for (auto a : e.auditors)
                    if (sim_rnd_bool(2, 3))
                        a->a.mode_ = (decltype(a->a.mode_))(a->mode = AuditorImp_::SHOWING);
                recall(e, _env);
                break;
            case 8: look(e, _env); break;
            case 10: {
                FixingsAccess_ f;
                {
                    sim::Pause zz;
                    fill_fixings(f);
                }
                {
                    ENV_ADD(f);
                    e.chain.push_back({3, 0, nullptr, &f});
                    live(e, _env, depth + 1, budget);
                    e.chain.pop_back();
                }
                break;
            }
            case 11:
            case 12: fix(e, _env); break;
            default:
                look(e, _env);
                if (depth)
                    return;
            }
        }
    }
}

SIM_WORKLOAD(env) {
    int nt = 1 + (int)sim_rnd(3);
    bool faulty = sim_rnd_bool(1, 3);
    if (faulty)
        sim_fault_rate(F_ALLOC, 2000 + (unsigned)sim_rnd(100000), 5);
    int nb = (int)sim_rnd(4);
    std::unique_ptr<Environment::Base_> base;
    std::vector<Slot> bs;
    std::vector<Handle_<Storable_>> things;
    {
        sim::Pause z;
        Vector_<Handle_<Environment::Entry_>> v;
        for (int i = 0; i < nb; ++i) {
            int x = (int)sim_rnd(1000), k = (int)sim_rnd(3);
            if (k == 2) { // fixings everybody shares
                auto f = new FixingsAccess_;
                fill_fixings(*f);
                v.push_back(Handle_<Environment::Entry_>(f));
                bs.insert(bs.begin(), Slot{3, 0, nullptr, f});
                continue;
            }
            v.push_back(k == 0 ? Handle_<Environment::Entry_>(new Red(x)) : Handle_<Environment::Entry_>(new Blue(x)));
            bs.insert(bs.begin(), Slot{k, x});
        }
        base.reset(new Environment::Base_(v));
        for (int i = 0; i < 5; ++i)
            things.push_back(thing(i));
    }
    auto run = [&](int t, int n) {
        Env e;
        {
            sim::Pause z;
            e.who = t, e.faulty = faulty, e.things = things;
            if (sim_rnd_bool(1, 6))
                e.deepest = 40;
            if (nb)
                e.chain = bs;
        }
        const Environment_* _env = nb ? base.get() : nullptr;
        const Environment_* outer = _env;
        live(e, _env, 0, n);
        if (_env != outer)
            sim_violation("scope-left", "T%d: the environment is not restored at the end", t);
        look(e, _env);
        sim::Pause z;
        e = Env();
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t)
        if (sim_op(t))
            ts.emplace_back([&run, t] { run(t, 5 + (int)sim_rnd(60)); });
    run(0, 5 + (int)sim_rnd(60));
    for (auto& t : ts)
        t.join();
}

// What environments, audits and notes took, they give back.
SIM_WORKLOAD(keepenv) {
    uint64_t before = 0;
    for (int i = 0; i < 4; ++i) {
        sim_origins(1);
        std::thread t([] { wl_env(); });
        t.join();
        sim_origins(0);
        uint64_t now = sim_live_blocks();
        if (i && now > before)
            sim_kept("memory-kept", ("environments keep " + std::to_string(now - before) + " blocks of memory").c_str());
        before = now;
    }
}
