// Workloads for process-wide state: object repository, global dates and fixings, registries and one-time initialisation.
#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/currency/init.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/parser/equity.hpp>
#include <dal/indice/parser/init.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/calendars/init.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/holidays.hpp>
#include <public/src/global.hpp>
#include <public/src/repository.hpp>
#include "keep.hpp"
#include "sim.hpp"
#include "lin.hpp"

using namespace Dal;

// ------------------------------------------------------------------------------------------------ C07: repository
namespace {
    enum { R_ADD, R_FETCH, R_ERASEP, R_ERASEO, R_SIZE, R_FIND, R_ERASEV };
    const char* RN[] = {"add", "fetch", "erase-pattern", "erase-object", "size", "find", "erase-list"};
    const char* MODES[] = {"NONE", "NAME_NONEMPTY", "NAME", "TYPE"};
    const char* NAMES[] = {"", "aa", "ab", "b", "aab", "a", "aa~b", "aa b"}; // some names begin like others, also like their tags
    const char* TYPES[] = {"Box", "Other", "Others"};
    struct Other_ : Storable_ {
        long v_;
        Other_(const String_& n, long v, const char* t) : Storable_(t, n), v_(v) {}
        void Write(Archive::Store_&) const override {}
    };
    struct RObj {
        int type, name;
        Handle_<Storable_> h;
        String_ tag; // as returned by the first Add
    };
    std::vector<RObj>* RO;
    struct Pat {
        const char* re;
        int type, name; // -1 any
    };
    // (the last one is no regular expression: calls with it fail)
    const Pat PATS[] = {{"~Box~", 0, -1}, {"~Other~aa~0", 1, 1}, {"[^a]~b~0", -1, 3}, {"~aa~0", -1, 1}, {".*", -1, -1}, {"^~Box~ab~", 0, 2}, {"^~Others~", 2, -1}, {"~aab~", -1, 4}, {"~aa~b~", -1, 6}, {"~aa b~", -1, 7}, {"(", -2, -2}};
    const long NPATS = 10;
    struct RModel {
        uint64_t s = 0; // bit i: object i is in
        std::map<long, std::pair<int, int>> calls; // erase-list: objects treated, objects found
        uint64_t mask(int type, int name) const {
            uint64_t m = 0;
            for (size_t i = 0; i < RO->size(); ++i)
                if ((type < 0 || (*RO)[i].type == type) && (name < 0 || (*RO)[i].name == name))
                    m |= 1ull << i;
            return m;
        }
        bool apply(const lin::Op& o) {
            switch (o.kind) {
            case R_ADD: {
                if (o.r < 0)
                    return true; // failed: no effect
                const RObj& x = (*RO)[o.a];
                if (o.b == 2 || (o.b == 1 && x.name != 0))
                    s &= ~mask(x.type, x.name);
                else if (o.b == 3)
                    s &= ~mask(x.type, -1);
                s |= 1ull << o.a;
                return true;
            }
            case R_FETCH: return o.r < -1 || (o.r >= 0 ? (s >> o.a & 1) && o.r == o.a : !(s >> o.a & 1));
            case R_ERASEP: {
                if (PATS[o.a].type == -2)
                    return o.r == -1;
                uint64_t m = mask(PATS[o.a].type, PATS[o.a].name) & s;
                s &= ~m;
                return o.r == __builtin_popcountll(m);
            }
            case R_ERASEO: {
                bool was = s >> o.a & 1;
                s &= ~(1ull << o.a);
                return o.r == (long)was;
            }
            case R_ERASEV: { // one object of a list given to one call: the objects go one by one, the call reports how many were there
                auto& c = calls[o.b];
                ++c.first;
                c.second += (int)(s >> o.a & 1);
                s &= ~(1ull << o.a);
                return c.second <= o.r % 100 && c.second + (o.r / 100 - c.first) >= o.r % 100;
            }
            case R_SIZE: return o.r == __builtin_popcountll(s);
            case R_FIND: return o.r < 0 || (uint64_t)o.r == (mask(PATS[o.a].type, PATS[o.a].name) & s);
            }
            return false;
        }
        std::string digest() const {
            std::string d((const char*)&s, 8);
            for (auto& c : calls) {
                d += (char)c.first;
                d += (char)c.second.second; // how many were treated is known from the operations done
            }
            return d;
        }
    };
    struct RThread {
        std::vector<lin::Op> plan, hist;
        bool allocf = false;
    };
    void check_content(const Storable_& x, int i) {
        // reading through the handle: the object is alive and unchanged
        const RObj& o = (*RO)[i];
        if (x.type_ != TYPES[o.type] || x.name_ != NAMES[o.name])
            sim_violation("wrong-object", "object %d comes back as %s '%s'", i, x.type_.c_str(), x.name_.c_str());
        if (o.type == 0) {
            auto b = dynamic_cast<const Box_*>(&x);
            if (!b || Cell::ToDouble(b->contents_(0, 0)) != (double)i)
                sim_violation("wrong-object", "object %d comes back with another content", i);
        } else {
            auto b = dynamic_cast<const Other_*>(&x);
            if (!b || b->v_ != i)
                sim_violation("wrong-object", "object %d comes back with another content", i);
        }
    }
    int which(const Handle_<Storable_>& h) {
        for (size_t i = 0; i < RO->size(); ++i)
            if ((*RO)[i].h.get() == h.get())
                return (int)i;
        return -1;
    }
    void run_rthread(RThread& t) {
        ObjectAccess_ acc;
        for (auto& p : t.plan) {
            lin::Op o = p;
            o.inv = sim_seq();
            bool failed = false;
            if (t.allocf && (p.kind == R_ADD || p.kind == R_FETCH || p.kind == R_FIND))
                sim_alloc_faults(1);
            try {
                switch (p.kind) {
                case R_ADD: {
                    RepositoryErase_ mode{String_(MODES[p.b])};
                    String_ tag = acc.Add((*RO)[p.a].h, mode);
                    sim_alloc_faults(0);
                    o.r = 0;
                    if (tag != (*RO)[p.a].tag)
                        sim_violation("unstable-tag", "object %ld gets tag %s, and %s elsewhere", p.a, tag.c_str(), (*RO)[p.a].tag.c_str());
                    break;
                }
                case R_FETCH: {
                    Handle_<Storable_> h;
                    if (p.b) { // a call that insists
                        try {
                            h = acc.Fetch((*RO)[p.a].tag);
                            sim_alloc_faults(0);
                            if (!h)
                                sim_violation("wrong-object", "fetching object %ld gives nothing and raises nothing", p.a);
                        } catch (const Exception_&) { // not there
                            sim_alloc_faults(0);
                        }
                    } else
                        h = acc.Fetch((*RO)[p.a].tag, true);
                    sim_alloc_faults(0);
                    o.r = h ? which(h) : -1;
                    if (h)
                        check_content(*h, (int)p.a);
                    break;
                }
                case R_ERASEP: o.r = acc.Erase(String_(PATS[p.a].re)); break;
                case R_ERASEO: o.r = acc.Erase(*(*RO)[p.a].h) ? 1 : 0; break;
                case R_ERASEV: {
                    Vector_<Handle_<Storable_>> v;
                    for (size_t i = 0; i < RO->size(); ++i)
                        if (p.a >> i & 1)
                            v.push_back((*RO)[p.b ? RO->size() - 1 - i : i].h);
                    o.r = EraseRepository(v);
                    break;
                }
                case R_SIZE: o.r = p.a ? SizeRepository() : acc.Size(); break;
                case R_FIND: {
                    auto v = p.b ? FindRepository(String_(PATS[p.a].re)) : acc.Find(String_(PATS[p.a].re));
                    sim_alloc_faults(0);
                    uint64_t m = 0;
                    for (auto& h : v) {
                        int i = which(h);
                        if (i < 0)
                            sim_violation("wrong-object", "find returns an object that was never added");
                        if (m >> i & 1)
                            sim_violation("duplicate-object", "find returns object %d twice", i);
                        check_content(*h, i);
                        m |= 1ull << i;
                    }
                    o.r = (long)m;
                    break;
                }
                }
            } catch (const std::exception& e) {
                sim_alloc_faults(0);
                bool bad = (p.kind == R_ERASEP || p.kind == R_FIND) && PATS[p.a].type == -2;
                if (!t.allocf && !bad)
                    sim_violation("spurious-failure", "%s raises '%s'", RN[p.kind], e.what());
                failed = true;
                sim_probe(0);
            }
            sim_alloc_faults(0);
            if (failed)
                o.r = p.kind == R_FETCH ? -2 : -1;
            o.ret = sim_seq();
            if (o.kind == R_ERASEV) {
                long n = __builtin_popcountl(p.a), found = o.r;
                if (found < 0 || found > n)
                    sim_violation("wrong-count", "erasing %ld objects reports %ld", n, found);
                o.b = (long)o.inv; // names the call
                o.r = n * 100 + found;
                for (size_t i = 0; i < RO->size(); ++i)
                    if (p.a >> i & 1) {
                        o.a = (long)(p.b ? RO->size() - 1 - i : i);
                        t.hist.push_back(o);
                    }
                sim_note("%s(%lx,%ld) -> %ld [%llu,%llu]", RN[p.kind], p.a, p.b, found, (unsigned long long)o.inv, (unsigned long long)o.ret);
                continue;
            }
            sim_note("%s(%ld,%ld) -> %ld [%llu,%llu]", RN[p.kind], p.a, p.b, o.r, (unsigned long long)o.inv, (unsigned long long)o.ret);
            t.hist.push_back(o);
        }
    }
}

SIM_WORKLOAD(repo) {
    int nobj = 2 + (int)sim_rnd(5), nt = 2 + (int)sim_rnd(3), maxops = 2 + (int)sim_rnd(4);
    bool few = sim_rnd_bool(1, 2);
    int base = sim_rnd_bool(1, 2) ? 1 : sim_rnd_bool(1, 2) ? 4 : 6;
    std::vector<RObj> objs;
    RO = &objs;
    for (int i = 0; i < nobj; ++i) {
        RObj o;
        o.type = few ? 0 : (int)sim_rnd(3);
        o.name = few ? (base == 6 && sim_rnd_bool(1, 2) ? 1 : base + (int)sim_rnd(2)) : (int)sim_rnd(8);
        sim::Pause z;
        if (o.type == 0) {
            Matrix_<Cell_> m(1, 1);
            m(0, 0) = Cell_((double)i);
            o.h = Handle_<Storable_>(new Box_(NAMES[o.name], m));
        } else
            o.h = Handle_<Storable_>(new Other_(NAMES[o.name], i, TYPES[o.type]));
        objs.push_back(o);
    }
    {
        // learn the tags: a tag depends on the object only
        sim::Pause z;
        ObjectAccess_ acc;
        for (auto& o : objs) {
            o.tag = acc.Add(o.h, RepositoryErase_("NONE"));
            if (!acc.Erase(*o.h))
                sim_violation("lost-object", "an object just added cannot be erased");
        }
    }
    if (sim_rnd_bool(1, 3))
        sim_fault_rate(F_ALLOC, 20000 + (unsigned)sim_rnd(80000), 3);
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    std::vector<RThread> th((size_t)nt);
    int opi = 0;
    bool regexy = sim_rnd_bool(1, 2);
    for (auto& t : th) {
        t.allocf = sim_rnd_bool(1, 3);
        int n = 1 + (int)sim_rnd(maxops);
        for (int k = 0; k < n; ++k) {
            lin::Op o;
            int z = (int)sim_rnd(regexy ? 11 : 9);
            o.a = (long)sim_rnd(nobj);
            if (z < 4)
                o.kind = R_ADD, o.b = sim_rnd_bool(1, 5) ? 0 : 1 + (long)sim_rnd(3);
            else if (z < 6)
                o.kind = R_FETCH, o.b = (long)sim_rnd(2);
            else if (z == 6) {
                o.kind = sim_rnd_bool(1, 2) ? R_ERASEO : R_ERASEV;
                if (o.kind == R_ERASEV)
                    o.a = 1 + (long)sim_rnd((1u << nobj) - 1), o.b = (long)sim_rnd(2);
            }
            else if (z == 7 || z == 8)
                o.kind = R_SIZE, o.a = (long)sim_rnd(2);
            else if (z == 9)
                o.kind = R_ERASEP, o.a = sim_rnd_bool(1, 10) ? NPATS : (long)sim_rnd(NPATS);
            else
                o.kind = R_FIND, o.a = (long)sim_rnd(NPATS), o.b = (long)sim_rnd(2);
            if (sim_op(opi++))
                t.plan.push_back(o);
        }
    }
    std::vector<std::thread> ts;
    for (auto& t : th)
        ts.emplace_back([&t] { run_rthread(t); });
    for (auto& t : ts)
        t.join();
    RThread fin; // what is left
    for (int i = 0; i < nobj; ++i) {
        lin::Op o;
        o.kind = R_FETCH;
        o.a = i;
        fin.plan.push_back(o);
    }
    lin::Op sz;
    sz.kind = R_SIZE;
    fin.plan.push_back(sz);
    run_rthread(fin);
    sim::Pause z;
    std::vector<lin::Op> all = fin.hist;
    for (auto& t : th)
        for (auto& h : t.hist)
            all.push_back(h);
    if (!lin::linearizable(all, RModel(), 400000))
        sim_violation("not-linearizable", "no sequential order of the %zu repository operations explains their results", all.size());
    // an erased object is released: nobody but the harness owns objects that are not in the repository
    ObjectAccess_ acc;
    (void)acc.Erase(String_(".*"));
    for (int i = 0; i < nobj; ++i)
        if (objs[i].h.use_count() != 1)
            sim_violation("object-leaked", "object %d is still owned by the repository after everything was erased", i);
}

// objects that only the repository and those who fetched them own: they live exactly as long as somebody has them
namespace {
    int KEPT_LIVE;
    struct Kept_ : Storable_ {
        long magic_, id_;
        Kept_(const String_& n, long id) : Storable_("Kept", n), magic_(0x5eed), id_(id) {
            sim::Pause z;
            ++KEPT_LIVE;
        }
        ~Kept_() override {
            if (magic_ != 0x5eed)
                sim_violation("released-twice", "an object is released twice");
            magic_ = 0;
            sim::Pause z;
            --KEPT_LIVE;
        }
        void Write(Archive::Store_&) const override {}
    };
    void check_alive(const Handle_<Storable_>& h, const char* when) {
        auto k = dynamic_cast<const Kept_*>(h.get());
        if (!k || k->magic_ != 0x5eed)
            sim_violation("dead-object", "%s, a fetched object is dead", when);
    }
}
SIM_WORKLOAD(owners) {
    KEPT_LIVE = 0;
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    if (sim_rnd_bool(1, 3))
        sim_fault_rate(F_ALLOC, 20000 + (unsigned)sim_rnd(60000), 2);
    int nt = 1 + (int)sim_rnd(3), nnames = 1 + (int)sim_rnd(3);
    std::vector<String_> tags; // of objects added so far, by whomever
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) {
        struct Step {
            int name, mode, from, erase;
            bool faults;
        };
        std::vector<Step> plan;
        for (int k = 1 + (int)sim_rnd(3); k > 0; --k) {
            Step st{(int)sim_rnd(nnames), (int)sim_rnd(4), (int)sim_rnd(3), (int)sim_rnd(4), sim_rnd_bool(1, 3)};
            plan.push_back(st);
        }
        ts.emplace_back([plan, i, &tags] {
            ObjectAccess_ acc;
            for (auto& st : plan) {
                Handle_<Storable_> mine(new Kept_(NAMES[1 + st.name], i));
                String_ tag;
                try {
                    RepositoryErase_ mode{String_(MODES[st.mode])};
                    sim_alloc_faults(st.faults);
                    tag = acc.Add(mine, mode);
                    sim_alloc_faults(0);
                } catch (const std::bad_alloc&) {
                    sim_alloc_faults(0);
                    if (mine.use_count() != 1)
                        sim_violation("object-leaked", "adding failed, and the repository has the object");
                    sim_probe(0);
                    continue;
                }
                check_alive(mine, "after adding it");
                mine.reset();
                {
                    sim::Pause z;
                    tags.push_back(tag);
                    if (st.from == 1)
                        tag = tags[tags.size() / 2];
                }
                if (st.from == 2) {
                    Vector_<Handle_<Storable_>> found = acc.Find(String_("^~Kept~"));
                    sim_yield();
                    for (auto& h : found)
                        check_alive(h, "after a search");
                    if (st.erase)
                        (void)EraseRepository(found);
                    sim_yield();
                    for (auto& h : found)
                        check_alive(h, "after erasing what was found");
                } else {
                    Handle_<Storable_> h = acc.Fetch(tag, true);
                    if (!h)
                        continue;
                    sim_yield();
                    check_alive(h, "while it is held");
                    if (st.erase == 1)
                        (void)acc.Erase(*h);
                    else if (st.erase == 2)
                        (void)acc.Erase(String_(".*"));
                    sim_yield();
                    check_alive(h, "after it was erased");
                }
            }
        });
    }
    for (auto& t : ts)
        t.join();
    sim::Pause z;
    ObjectAccess_ acc;
    int n = acc.Size();
    if (KEPT_LIVE != n)
        sim_violation("object-leaked", "%d objects are alive and the repository has %d", KEPT_LIVE, n);
    for (auto& h : acc.Find(String_(".*")))
        check_alive(h, "at the end");
    (void)acc.Erase(String_(".*"));
    if (KEPT_LIVE || acc.Size())
        sim_violation("object-leaked", "%d objects are alive after everything was erased", KEPT_LIVE);
}

// ------------------------------------------------------------------------------------------------ C08: globals
namespace {
    const int DAY0 = 19000; // simulated clock, days since 1970-01-01 (2022-01-08)
    Date_ day(int k) {      // k-th day of the simulated calendar
        sim::Pause z;
        return Date_(2022, 1, 8).AddDays(k);
    }
    enum { G_SETE, G_GETE, G_SETA, G_GETA, G_APPEND, G_REPLACE, G_HIST, G_ERASE };
    const char* GN[] = {"set-eval", "get-eval", "set-acct", "get-acct", "append-fixings", "replace-fixings", "history", "erase-dates"};
    // dates are small integers: 0..9 days the clock may show, 100+ explicitly set dates; -1 unset
    struct GModel {
        long d[2] = {-1, -1};
        std::map<int, long> fix[2]; // time slot -> value
        bool apply(const lin::Op& o) {
            switch (o.kind) {
            case G_SETE:
            case G_SETA:
                if (o.r >= 0)
                    d[o.kind == G_SETA] = o.a;
                return true;
            case G_GETE:
            case G_GETA: {
                if (o.r < 0)
                    return true; // failed: whatever it did, it did not report a date
                long& x = d[o.kind == G_GETA];
                if (x < 0) { // first use: the day shown by the clock at some moment during the call, and it sticks
                    if (o.r >= 64 || !((uint64_t)o.b >> o.r & 1))
                        return false;
                    x = o.r;
                    return true;
                }
                return x == o.r;
            }
            case G_ERASE: {
                long n = (d[0] >= 0) + (d[1] >= 0);
                d[0] = d[1] = -1;
                return o.r == n;
            }
            }
            return false;
        }
        std::string digest() const {
            std::string s((const char*)d, sizeof d);
            return s;
        }
    };
    struct FModel {
        std::map<int, long> fix;
        bool apply(const lin::Op& o, const std::map<int, long>& what) {
            switch (o.kind) {
            case G_REPLACE: fix.clear(); // fall through
            case G_APPEND:
                for (auto& kv : what)
                    fix[kv.first] = kv.second;
                return o.r == (long)fix.size();
            }
            return fix == what;
        }
    };
    struct FOp {
        lin::Op o;
        int index = 0;
        std::map<int, long> what; // argument, or result of history
    };
    // wrapper so that the checker can look the maps up
    std::vector<FOp>* FO;
    struct FM {
        FModel m[3];
        bool apply(const lin::Op& o) {
            const FOp& f = (*FO)[o.a];
            if (o.r == -9)
                return true; // failed
            return m[f.index].apply(f.o, f.what);
        }
        std::string digest() const {
            std::string s;
            for (auto& x : m) {
                for (auto& kv : x.fix)
                    s += std::to_string(kv.first) + "=" + std::to_string(kv.second) + ",";
                s += ";";
            }
            return s;
        }
    };
    struct GThread {
        std::vector<FOp> plan, hist;
        bool allocf = false;
    };
    long date_code(const Date_& d) {
        sim::Pause z;
        long k = d - Date_(2022, 1, 8);
        if (k >= 0 && k < 60)
            return k;
        k = d - Date_(2010, 1, 1);
        if (k >= 0 && k < 60)
            return 100 + k;
        return 10000 + (d - Date_(1970, 1, 1));
    }
    Date_ code_date(long c) {
        sim::Pause z;
        return c >= 100 ? Date_(2010, 1, 1).AddDays((int)c - 100) : Date_(2022, 1, 8).AddDays((int)c);
    }
    DateTime_ slot_time(int s) {
        sim::Pause z;
        static const double FRACTIONS[] = {0.0, 0.5, 0.5 + 1.0 / 86400.0, 86399.0 / 86400.0};
        return DateTime_(Date_(2020, 2, 28).AddDays(s / 4), FRACTIONS[s % 4]);
    }
    int time_slot(const DateTime_& t) {
        for (int s = 0; s < 12; ++s)
            if (!(t < slot_time(s)) && !(slot_time(s) < t))
                return s;
        return -1;
    }
    const char* IDX[] = {"EQ[A]", "EQ[B]", "EQ[A]~B"}; // one begins like another's tag
    double code_value(long v) { return v % 5 == 0 ? -1.0 / (double)v : v % 5 == 1 ? 0.1 * (double)v : v % 5 == 2 ? 1e-300 * (double)v : v == 3 ? 0.0 : (double)v; }
    long value_code(double x) {
        for (long v = 0; v < 200; ++v)
            if (code_value(v) == x)
                return v;
        return -1;
    }
    struct Jump {
        uint64_t seq;
        int day;
    };
    std::vector<Jump>* JUMPS; // harness state, written while paused
    uint64_t days_between(uint64_t a, uint64_t b) {
        uint64_t m = 0;
        int cur = 0;
        for (auto& j : *JUMPS) {
            if (j.seq <= a)
                cur = j.day;
            else if (j.seq < b)
                m |= 1ull << j.day;
        }
        return m | 1ull << cur;
    }
    void run_gthread(GThread& t) {
        for (auto& p : t.plan) {
            FOp f = p;
            lin::Op& o = f.o;
            o.inv = sim_seq();
            try {
                if (t.allocf && o.kind != G_ERASE)
                    sim_alloc_faults(1);
                switch (o.kind) {
                case G_SETE: {
                    Date_ d = code_date(o.a);
                    if (o.b)
                        SetEvaluationDate(d);
                    else
                        XGLOBAL::SetEvaluationDate(d);
                    break;
                }
                case G_SETA: Global::Dates_::SetAccountingDate(code_date(o.a)); break;
                case G_GETE: o.r = date_code(Global::Dates_::EvaluationDate()); break;
                case G_GETA: o.r = date_code(Global::Dates_::AccountingDate()); break;
                case G_APPEND:
                case G_REPLACE: {
                    Global::FixHistory_ h;
                    {
                        sim::Pause z;
                        for (auto& kv : f.what)
                            h.vals_.push_back(std::make_pair(slot_time(kv.first), code_value(kv.second)));
                    }
                    o.r = XGLOBAL::StoreFixings(IDX[f.index], h, o.kind == G_APPEND);
                    break;
                }
                case G_HIST: {
                    Global::FixHistory_ h = Global::Fixings_().History(IDX[f.index]);
                    sim_alloc_faults(0);
                    sim::Pause z;
                    f.what.clear();
                    int last = -1;
                    for (auto& v : h.vals_) {
                        int s = time_slot(v.first);
                        if (s < 0)
                            sim_violation("wrong-fixing", "a fixing comes back at a time nobody stored");
                        if (s <= last)
                            sim_violation("fixings-order", "the history is not in chronological order");
                        last = s;
                        f.what[s] = value_code(v.second);
                    }
                    break;
                }
                case G_ERASE: o.r = ObjectAccess_().Erase(String_("GLOBAL##(Eval|Acc)")); break;
                }
                sim_alloc_faults(0);
            } catch (const std::exception& e) {
                sim_alloc_faults(0);
                if (!t.allocf)
                    sim_violation("spurious-failure", "%s raises '%s'", GN[o.kind], e.what());
                o.r = -9;
                sim_probe(0);
            }
            o.ret = sim_seq();
            sim_note("%s(%ld) index %d -> %ld (%zu fixings) [%llu,%llu]", GN[o.kind], o.a, f.index, o.r, f.what.size(), (unsigned long long)o.inv,
                     (unsigned long long)o.ret);
            t.hist.push_back(f);
        }
    }
    // a store as a client would install it: no locking of its own
    using StoreResult = decltype(std::declval<Global::Store_&>().Get(String_()));
    struct PlainStore_ : Global::Store_ {
        std::map<String_, Matrix_<Cell_>> m_;
        Matrix_<Cell_> none_;
        void Set(const String_& n, const Matrix_<Cell_>& v) override { m_[n] = v; }
        StoreResult Get(const String_& n) override {
            auto p = m_.find(n);
            return p == m_.end() ? none_ : p->second;
        }
    };
}

SIM_WORKLOAD(globals) {
    std::vector<Jump> jumps;
    JUMPS = &jumps;
    sim_clock_set((int64_t)DAY0 * 86400 + (int64_t)sim_rnd(86000));
    bool dates = sim_rnd_bool(1, 2); // a run is about dates or about fixings
    bool plain = sim_rnd_bool(1, 2);
    if (plain) {
        sim::Pause z;
        Global::SetTheFixingsStore(new PlainStore_);
        if (sim_rnd_bool(1, 2))
            Global::SetTheDateStore(new PlainStore_);
        else
            plain = false;
    }
    if (sim_rnd_bool(1, 3))
        sim_fault_rate(F_ALLOC, 10000 + (unsigned)sim_rnd(60000), 3);
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    int nt = 2 + (int)sim_rnd(3), maxops = 2 + (int)sim_rnd(3);
    std::vector<GThread> th((size_t)nt);
    int opi = 0;
    long val = 1;
    bool erase = dates && !plain && sim_rnd_bool(1, 3);
    for (auto& t : th) {
        t.allocf = sim_rnd_bool(1, 3);
        int n = 1 + (int)sim_rnd(maxops);
        for (int k = 0; k < n; ++k) {
            FOp f;
            f.index = (int)sim_rnd(2);
            int z = (int)sim_rnd(10);
            if (dates) {
                f.o.kind = z < 3 ? G_SETE : z < 6 ? G_GETE : z < 7 ? G_SETA : G_GETA;
                if (z == 9)
                    f.o.kind = erase ? G_ERASE : G_GETE;
                f.o.a = f.o.kind == G_SETE || f.o.kind == G_SETA ? 100 + val++ : 0;
                f.o.b = (long)sim_rnd(2);
            } else {
                f.index = (int)sim_rnd(5) / 2;
                f.o.kind = z < 5 ? G_APPEND : z < 6 ? G_REPLACE : G_HIST;
                if (f.o.kind != G_HIST)
                    for (int q = sim_rnd_bool(1, 8) ? 0 : 1 + (int)sim_rnd(3); q > 0; --q)
                        f.what[(int)sim_rnd(12)] = val++;
            }
            if (sim_op(opi++))
                t.plan.push_back(f);
        }
    }
    std::vector<std::thread> ts;
    for (auto& t : th)
        ts.emplace_back([&t] { run_gthread(t); });
    if (dates && sim_rnd_bool(2, 3)) // the clock moves to other days while the threads run (forwards and back)
        for (int k = 0, d = 0; k < 3; ++k) {
            sim_yield();
            sim::Pause z;
            int nd = (int)sim_rnd(6);
            sim_clock_jump((int64_t)(nd - d) * 86400);
            sim_note("clock moves to day %d", nd);
            d = nd;
            jumps.push_back({sim_seq(), d});
        }
    for (auto& t : ts)
        t.join();
    GThread fin;
    for (int k = 0; k < (dates ? 2 : 3); ++k) {
        FOp f;
        f.o.kind = dates ? (k ? G_GETA : G_GETE) : G_HIST;
        f.index = k;
        fin.plan.push_back(f);
    }
    run_gthread(fin);
    sim::Pause z;
    std::vector<FOp> all = fin.hist;
    for (auto& t : th)
        for (auto& h : t.hist)
            all.push_back(h);
    FO = &all;
    std::vector<lin::Op> ops;
    for (size_t i = 0; i < all.size(); ++i) {
        lin::Op o = all[i].o;
        if (dates) {
            if (o.kind == G_GETE || o.kind == G_GETA)
                o.b = (long)days_between(o.inv, o.ret);
        } else
            o.a = (long)i;
        ops.push_back(o);
    }
    bool ok = dates ? lin::linearizable(ops, GModel(), 400000) : lin::linearizable(ops, FM(), 400000);
    if (!ok)
        sim_violation("not-linearizable", "no sequential order of the %zu operations on the global %s explains their results", ops.size(), dates ? "dates" : "fixings");
}

// scoped overrides of a date: nested scopes on one thread, left normally or by an exception, while other threads read
// that date and use the other one
namespace {
    struct Leave {};
    struct ScopeRun {
        bool eval = false; // which date is overridden
        std::vector<long> stack;
        std::set<long> ever;
        long next = 0;
        int opi = 0;
        bool faults = false;
        Date_ get() const { return eval ? Global::Dates_::EvaluationDate() : Global::Dates_::AccountingDate(); }
        void expect(long c, const char* when) {
            long g = date_code(get());
            sim_note("%s: date %ld", when, g);
            if (g != c)
                sim_violation("override-not-restored", "%s the date is %ld, expected %ld", when, g, c);
        }
        void allow(long c) {
            sim::Pause z;
            ever.insert(c);
        }
        void body(int depth, long outer) {
            int n = 1 + (int)sim_rnd(2);
            for (int k = 0; k < n; ++k) {
                bool on = sim_op(opi++), leave = sim_rnd_bool(1, 4), move = sim_rnd_bool(1, 3), set = sim_rnd_bool(1, 4), deeper = depth < 2 && sim_rnd_bool(1, 2);
                if (!on)
                    continue;
                long d = 100 + next++;
                allow(d);
                try {
                    Date_ dt = code_date(d);
                    sim_alloc_faults(faults);
                    auto o1 = eval ? XGLOBAL::SetEvaluationDateInScope(dt) : XGLOBAL::SetAccountingDateInScope(dt);
                    sim_alloc_faults(0);
                    expect(d, "inside the scope");
                    long in = d;
                    if (set) {
                        in = 100 + next++;
                        allow(in);
                        Date_ d2 = code_date(in);
                        eval ? XGLOBAL::SetEvaluationDate(d2) : XGLOBAL::SetAccountingDate(d2);
                    }
                    if (move) {
                        auto o2(std::move(o1));
                        expect(in, "after moving the override");
                        if (deeper)
                            body(depth + 1, in);
                        if (leave)
                            throw Leave();
                    } else {
                        if (deeper)
                            body(depth + 1, in);
                        if (leave)
                            throw Leave();
                    }
                } catch (const Leave&) {
                } catch (const std::bad_alloc&) { // (one fault per run, so putting the date back works)
                    sim_alloc_faults(0);
                    sim_probe(0);
                }
                expect(outer, "after the scope");
            }
        }
    };
}
SIM_WORKLOAD(scopes) {
    std::vector<Jump> jumps;
    JUMPS = &jumps;
    sim_clock_set((int64_t)DAY0 * 86400 + (int64_t)sim_rnd(86000));
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    if (sim_rnd_bool(1, 3)) {
        sim::Pause z;
        Global::SetTheDateStore(new PlainStore_);
    }
    ScopeRun r;
    r.eval = sim_rnd_bool(1, 2);
    r.faults = sim_rnd_bool(1, 3);
    if (r.faults)
        sim_fault_rate(F_ALLOC, 20000 + (unsigned)sim_rnd(80000), 1);
    bool preset = sim_rnd_bool(1, 2);
    long base = 0;
    if (preset) {
        base = 100 + r.next++;
        sim::Pause z;
        Date_ d = code_date(base);
        r.eval ? XGLOBAL::SetEvaluationDate(d) : XGLOBAL::SetAccountingDate(d);
    }
    r.allow(base);
    int nt = 1 + (int)sim_rnd(2);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) {
        int kind = (int)sim_rnd(2);
        ts.emplace_back([&r, kind, i] {
            for (int k = 0; k < 3; ++k) {
                if (kind) { // the other date is unaffected
                    Date_ d = code_date(100 + 20 + 10 * i + k);
                    if (i == 0) {
                        r.eval ? XGLOBAL::SetAccountingDate(d) : XGLOBAL::SetEvaluationDate(d);
                        Date_ g = r.eval ? Global::Dates_::AccountingDate() : Global::Dates_::EvaluationDate();
                        if (g != d)
                            sim_violation("date-lost", "a date just set and used by nobody else reads back as %ld", date_code(g));
                    }
                } else {
                    long g = date_code(r.get());
                    sim::Pause z;
                    if (!r.ever.count(g))
                        sim_violation("date-from-nowhere", "a reader sees date %ld, which nobody set", g);
                }
            }
        });
    }
    if (sim_rnd_bool(1, 2))
        r.expect(base, "at the start");
    r.body(0, base);
    r.expect(base, "at the end");
    for (auto& t : ts)
        t.join();
    sim_clock_jump(3 * 86400); // the default sticks
    r.expect(base, "after the clock moved");
}

// ------------------------------------------------------------------------------------------------ C09: registries
namespace {
    enum { Y_ADD, Y_LOOK, Y_REG, Y_PARSE, Y_COUNT, Y_EXT, Y_BASIS, Y_LIST };
    const char* YN[] = {"add-centre", "look-up-centre", "register-parser", "parse", "count-business-days", "register-day-count", "look-up-day-count", "list-day-counts"};
    const char* CENTRES[] = {"C.A", "C.B", "C.C"};
    const char* PREF[] = {"XA", "XB"};
    struct NamedIndex_ : Index_ {
        String_ n_;
        explicit NamedIndex_(const String_& n) : n_(n) {}
        String_ Name() const override { return n_; }
    };
    template <int K_> Index_* parser(const String_& n) { return new NamedIndex_(n + "/" + String::FromInt(K_)); }
    Index::parser_t PARSERS[] = {parser<0>, parser<1>, parser<2>, parser<3>};
    // day-count extensions: the first two claim a common name, so only one of them can be registered
    const char* BASIS[] = {"ZED0", "ZED1", "ZED2", "ZED/X"};
    const int EXT_NAMES[3][2] = {{0, 3}, {1, 3}, {2, 2}};
    struct Ext_ : DayBasis_::Extension_ {
        int e_;
        explicit Ext_(int e) : e_(e) {}
        const char* String() const override { return BASIS[e_]; }
        double operator()(const Date_&, const Date_&, const DayBasis::Context_*) const override { return 1.0 + e_; }
    };
    Vector_<Date_> centre_hols(int c) {
        sim::Pause z;
        Vector_<Date_> r;
        for (int k = 0; k < 4 + c; ++k) {
            Date_ d = Date_(2021, 1, 4).AddDays(7 * k + c); // Monday + c
            r.push_back(d);
        }
        return r;
    }
    Vector_<Date_> centre_ww(int c) {
        sim::Pause z;
        Vector_<Date_> r;
        for (int k = 0; k < 2; ++k)
            r.push_back(Date_(2021, 1, 9).AddDays(7 * (k + c) + k)); // Saturday, Sunday
        return r;
    }
    bool is_bus(uint64_t centres, const Date_& d) {
        bool h = false, w = false;
        for (int c = 0; c < 3; ++c)
            if (centres >> c & 1) {
                for (auto& x : centre_hols(c))
                    h |= x == d;
                for (auto& x : centre_ww(c))
                    w |= x == d;
            }
        return w || (!Date::IsWeekEnd(d) && !h);
    }
    struct YModel {
        int centre = 0;          // bit per centre
        int ext = 0;             // bit per day-count extension
        bool frozen = false;     // no registration after listing all day counts
        int par[2] = {-1, -1};   // which parser is registered under the prefix: the first one stays
        bool apply(const lin::Op& o) {
            switch (o.kind) {
            case Y_ADD:
                if (o.r < 0 || o.b < 0)
                    return o.r <= 0;
                if (o.r == 0)
                    return centre >> o.a & 1;
                if (centre >> o.a & 1)
                    return false;
                centre |= 1 << o.a;
                return true;
            case Y_LOOK: return o.r < 0 || o.r == (centre >> o.a & 1);
            case Y_COUNT: return o.r < 0 || (o.r == 1) == ((centre & o.a) == o.a);
            case Y_REG:
                if (o.r >= 0 && par[o.a] < 0)
                    par[o.a] = (int)o.b;
                return true;
            case Y_PARSE: return o.r < 0 || o.r == par[o.a] + 1;
            case Y_EXT: {
                bool refuse = frozen || ext >> o.a & 1 || (o.a < 2 && (ext & 3));
                if (o.r < 0)
                    return true;
                if (o.r == 0 || refuse)
                    return o.r == 0 && refuse;
                ext |= 1 << o.a;
                return true;
            }
            case Y_BASIS: {
                int want = o.a < 3 ? (ext >> o.a & 1 ? (int)o.a + 1 : 0) : ext & 1 ? 1 : ext & 2 ? 2 : 0;
                return o.r < 0 || o.r == want;
            }
            case Y_LIST:
                frozen = true;
                return o.r == ext;
            }
            return false;
        }
        std::string digest() const { return std::string(1, (char)centre) + (char)ext + (char)frozen + (char)(par[0] + 1) + (char)(par[1] + 1); }
    };
    struct YThread {
        std::vector<lin::Op> plan, hist;
        bool allocf = false;
    };
    void run_ythread(YThread& t) {
        for (auto& p : t.plan) {
            lin::Op o = p;
            o.inv = sim_seq();
            Vector_<Date_> hols = centre_hols((int)(p.a % 3)), ww = centre_ww((int)(p.a % 3));
            String_ cname, pname;
            Date_ d0, d1;
            {
                sim::Pause z;
                cname = p.kind == Y_COUNT ? String_() : String_(CENTRES[p.a % 3]);
                if (p.kind == Y_COUNT)
                    for (int c = 0; c < 3; ++c)
                        if (p.a >> c & 1)
                            cname += String_(cname.empty() ? "" : " ") + CENTRES[c];
                pname = String_(PREF[p.a % 2]) + "[q]";
                d0 = Date_(2021, 1, 1).AddDays((int)std::max(0l, p.b));
                d1 = d0.AddDays(10 + (int)std::max(0l, p.b));
            }
            try {
                if (t.allocf)
                    sim_alloc_faults(1);
                switch (p.kind) {
                case Y_ADD:
                    if (p.b < 0) { // a centre with impossible days is refused
                        sim::Pause z;
                        if (p.b == -1)
                            hols.push_back(Date_(2021, 12, 25)); // a Saturday
                        else if (p.b == -2)
                            ww.push_back(Date_(2021, 12, 24)); // a Friday
                        else
                            hols.push_back(Date_(2020, 12, 24)); // out of order
                    }
                    Holidays::AddCenter(cname, hols, ww);
                    o.r = 1;
                    break;
                case Y_LOOK: {
                    Handle_<HolidayCenterData_> h;
                    if (p.b % 2)
                        h = Holidays::OfCenter(cname);
                    else
                        h = Holidays::OfCenter(Holidays::CenterIndex(cname));
                    sim_alloc_faults(0);
                    o.r = 1;
                    if (!h || h->center_ != cname || !(h->holidays_ == hols) || !(h->workWeekends_ == ww))
                        sim_violation("wrong-centre", "centre %s comes back with another content", cname.c_str());
                    break;
                }
                case Y_COUNT: {
                    Holidays_ h(cname);
                    bool b0 = h.IsHoliday(d0);
                    Date_ nb = Holidays::NextBus(h, d0), pb = Holidays::PrevBus(h, d0);
                    CountBusDays_ cnt(h);
                    int n = cnt(d0, d1);
                    sim_alloc_faults(0);
                    o.r = 1;
                    sim::Pause z;
                    int want = 0;
                    for (Date_ d = d0; d < d1; ++d)
                        want += is_bus((uint64_t)p.a, d);
                    Date_ wn = d0, wp = d0;
                    while (!is_bus((uint64_t)p.a, wn))
                        ++wn;
                    while (!is_bus((uint64_t)p.a, wp))
                        --wp;
                    (void)b0;
                    if (n != want || nb != wn || pb != wp)
                        sim_violation("wrong-calendar", "calendar '%s': %d business days, expected %d", cname.c_str(), n, want);
                    break;
                }
                case Y_REG: Index::RegisterParser(String_(PREF[p.a]), PARSERS[p.b]); break;
                case Y_PARSE: {
                    Handle_<Index_> ix(Index::Parse(pname));
                    sim_alloc_faults(0);
                    String_ n = ix->Name();
                    o.r = 1 + (n.back() - '0');
                    if (n.substr(0, pname.size()) != pname)
                        sim_violation("wrong-index", "parsing %s gives index %s", pname.c_str(), n.c_str());
                    break;
                }
                case Y_EXT: {
                    Handle_<DayBasis_::Extension_> e(new Ext_((int)p.a));
                    Vector_<String_> names;
                    for (int k = 0; k < (p.a == 2 ? 1 : 2); ++k)
                        names.push_back(BASIS[EXT_NAMES[p.a][k]]);
                    DayBasis::RegisterExtension(names, e);
                    o.r = 1;
                    break;
                }
                case Y_BASIS: {
                    DayBasis_ b{String_(BASIS[p.a])};
                    sim_alloc_faults(0);
                    o.r = (long)b(d0, d1, nullptr);
                    if (o.r < 1 || o.r > 3 || strcmp(b.String(), BASIS[o.r - 1]))
                        sim_violation("wrong-day-count", "day count %s comes back as %s", BASIS[p.a], b.String());
                    break;
                }
                case Y_LIST: {
                    Vector_<DayBasis_> all;
                    try {
                        all = DayBasisListAll();
                    } catch (const std::bad_alloc&) { // may or may not have closed the list: ask again
                        sim_alloc_faults(0);
                        all = DayBasisListAll();
                    }
                    sim_alloc_faults(0);
                    sim::Pause z;
                    std::multiset<std::string> names;
                    o.r = 0;
                    for (auto& b : all) {
                        names.insert(b.String());
                        for (int e = 0; e < 3; ++e)
                            if (!strcmp(b.String(), BASIS[e]))
                                o.r |= 1 << e;
                    }
                    for (const char* f : {"ACT_365F", "ACT_365L", "ACT_360", "ACT_ACT", "BOND"})
                        if (names.count(f) != 1)
                            sim_violation("wrong-list", "the list of day counts has %s %zu times", f, names.count(f));
                    if ((int)all.size() != 5 + __builtin_popcountl((unsigned long)o.r))
                        sim_violation("wrong-list", "the list of day counts has %d entries, %d of them extensions", (int)all.size(), __builtin_popcountl((unsigned long)o.r));
                    break;
                }
                }
                sim_alloc_faults(0);
            } catch (const std::bad_alloc&) {
                sim_alloc_faults(0);
                o.r = -1;
                sim_probe(0);
            } catch (const Exception_&) {
                sim_alloc_faults(0);
                o.r = 0; // unknown / duplicate
                sim_probe(1);
            }
            o.ret = sim_seq();
            sim_note("%s(%ld,%ld) -> %ld [%llu,%llu]", YN[p.kind], p.a, p.b, o.r, (unsigned long long)o.inv, (unsigned long long)o.ret);
            t.hist.push_back(o);
        }
    }
}

SIM_WORKLOAD(registry) {
    int nt = 2 + (int)sim_rnd(3), maxops = 2 + (int)sim_rnd(4);
    if (sim_rnd_bool(1, 3))
        sim_fault_rate(F_ALLOC, 10000 + (unsigned)sim_rnd(60000), 3);
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    int mix = (int)sim_rnd(4); // 0 centres, 1 parsers, 2 all, 3 day counts
    std::vector<YThread> th((size_t)nt);
    int opi = 0;
    for (auto& t : th) {
        t.allocf = sim_rnd_bool(1, 3);
        int n = 1 + (int)sim_rnd(maxops);
        for (int k = 0; k < n; ++k) {
            lin::Op o;
            int z = (int)sim_rnd(10);
            bool par = mix == 1 || (mix == 2 && sim_rnd_bool(1, 2));
            if (mix == 3 || (mix == 2 && sim_rnd_bool(1, 3))) {
                o.kind = z < 5 ? Y_EXT : z < 9 ? Y_BASIS : Y_LIST;
                o.a = (long)sim_rnd(o.kind == Y_EXT ? 3 : 4);
            } else if (par) {
                o.kind = z < 4 ? Y_REG : Y_PARSE;
                o.a = (long)sim_rnd(2);
                o.b = (long)sim_rnd(4);
            } else {
                o.kind = z < 4 ? Y_ADD : z < 7 ? Y_LOOK : Y_COUNT;
                o.a = o.kind == Y_COUNT ? 1 + (long)sim_rnd(7) : (long)sim_rnd(3);
                o.b = (long)sim_rnd(20);
                if (o.kind == Y_ADD && sim_rnd_bool(1, 5))
                    o.b = -1 - (long)sim_rnd(3);
            }
            if (sim_op(opi++))
                t.plan.push_back(o);
        }
    }
    std::vector<std::thread> ts;
    for (auto& t : th)
        ts.emplace_back([&t] { run_ythread(t); });
    for (auto& t : ts)
        t.join();
    YThread fin;
    for (int c = 0; c < 3; ++c) {
        lin::Op o;
        o.kind = Y_LOOK;
        o.a = c;
        fin.plan.push_back(o);
    }
    for (int m : {3, 7}) {
        lin::Op o;
        o.kind = Y_COUNT;
        o.a = m;
        o.b = 5;
        fin.plan.push_back(o);
    }
    for (int c = 0; c < 2; ++c) {
        lin::Op o;
        o.kind = Y_PARSE;
        o.a = c;
        fin.plan.push_back(o);
    }
    for (int c = 0; c < 5; ++c) {
        lin::Op o;
        o.kind = c < 4 ? Y_BASIS : Y_LIST;
        o.a = c;
        fin.plan.push_back(o);
    }
    run_ythread(fin);
    sim::Pause z;
    std::vector<lin::Op> all = fin.hist;
    for (auto& t : th)
        for (auto& h : t.hist)
            all.push_back(h);
    if (!lin::linearizable(all, YModel(), 400000))
        sim_violation("not-linearizable", "no sequential order of the %zu registry operations explains their results", all.size());
}

// one-time initialisation: from several threads at once, failing and being retried
SIM_WORKLOAD(startup) {
    {
        sim::Pause z;
        std::cout.rdbuf(nullptr);
    }
    int nt = 1 + (int)sim_rnd(4);
    int mode = (int)sim_rnd(3); // 0: everything through RegisterAll_, 1: the three registries, 2: both
    unsigned hw = 1 + (unsigned)sim_rnd(3);
    sim_set_hw(hw);
    bool faulty = sim_rnd_bool(1, 2);
    if (faulty)
        sim_fault_rate(F_ALLOC, 5000 + (unsigned)sim_rnd(60000), 4);
    bool nothreads = sim_rnd_bool(1, 4);
    std::vector<int> kinds;
    for (int i = 0; i < nt; ++i)
        kinds.push_back(mode == 2 ? (int)sim_rnd(2) : mode);
    int poolsz = (int)sim_rnd(3);
    auto body = [&](int i) {
        uint64_t before = sim_fault_count(F_ALLOC) + sim_fault_count(F_CREATE);
        int stage = 0;
        for (int tries = 0;; ++tries) {
            try {
                if (faulty)
                    sim_alloc_faults(1);
                if (kinds[i] == 0)
                    RegisterAll_::Init(poolsz);
                else {
                    Calendars_::Init();
                    stage = 1;
                    CcyFacts_::Init();
                    stage = 2;
                    IndexParsers_::Init();
                }
                sim_alloc_faults(0);
                break;
            } catch (const std::exception& e) {
                sim_alloc_faults(0);
                sim_note("initialisation fails in stage %d: %s", stage, e.what());
                sim_probe(0);
                uint64_t now = sim_fault_count(F_ALLOC) + sim_fault_count(F_CREATE);
                if (now == before || tries > 12)
                    sim_violation("cannot-initialise", "initialisation raises '%.120s' although nothing failed any more", e.what());
                before = now;
            }
        }
        // from here on everything the initialisation provides is there
        try {
            auto sse = Holidays::OfCenter("CN.SSE"), ib = Holidays::OfCenter("CN.IB");
            if (sse->holidays_.empty() || ib->workWeekends_.empty())
                sim_violation("not-initialised", "a built-in calendar is empty");
            {
                sim::Pause z;
                // the built-in calendars as shipped, by size and digest
                struct Shipped {
                    const Vector_<Date_>& days;
                    size_t n;
                    uint64_t digest;
                } shipped[] = {{sse->holidays_, 377, 17768559198974946635ull}, {sse->workWeekends_, 0, 1469598103934665603ull}, {ib->holidays_, 376, 12613824811382261986ull}, {ib->workWeekends_, 137, 2508734220448088182ull}};
                for (auto& sh : shipped) {
                    uint64_t dg = 1469598103934665603ull;
                    for (auto& d : sh.days)
                        dg = (dg ^ (uint64_t)(d - Date_(2000, 1, 1))) * 1099511628211ull;
                    if ((size_t)sh.days.size() != sh.n || dg != sh.digest)
                        sim_violation("not-initialised", "a built-in calendar is not as shipped (%zu days, %llu)", (size_t)sh.days.size(), (unsigned long long)dg);
                }
            }
            Holidays_ h("CN.IB CN.SSE");
            if (h.IsHoliday(Date_(2021, 1, 4)) || !h.IsHoliday(Date_(2021, 1, 1)))
                sim_violation("not-initialised", "a built-in calendar is wrong");
            if (Ccy::Conventions::LiborFixDays()(Ccy_("CNY")) != 1 || Ccy::Conventions::LiborFixDays()(Ccy_("USD")) != 2)
                sim_violation("not-initialised", "a built-in convention is wrong");
            if (Ccy::Conventions::LiborFixHolidays()(Ccy_("CNY")).String() != "CN.IB")
                sim_violation("not-initialised", "a built-in convention is wrong");
            Handle_<Index_> ix(Index::Parse("EQ[IBM]"));
            if (!ix || ix->Name() != "EQ[IBM]")
                sim_violation("not-initialised", "a built-in index cannot be parsed");
        } catch (const Exception_& e) {
            sim_violation("not-initialised", "after initialisation: %.160s", e.what());
        }
        sim_note("thread %d initialised", i);
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < nt; ++i)
        if (sim_op(i))
            ts.emplace_back([&body, i] { body(i); });
    if (nothreads) // only now: the harness needs its own threads
        sim_fault_rate(F_CREATE, 200000, 2);
    body(0);
    for (auto& t : ts)
        t.join();
    int n = 0;
    try {
        for (int k = 0;; ++k, ++n)
            (void)Holidays::OfCenter(k);
    } catch (const Exception_&) {
    }
    if (n != 2)
        sim_violation("initialised-twice", "%d built-in calendars instead of 2", n);
}

// ------------------------------------------------------------------------------------------------ C19: nothing is kept
SIM_WORKLOAD(keepstore) {
    sim_step_cap(200000000);
    sim_clock_set((int64_t)DAY0 * 86400 + (int64_t)sim_rnd(86000));
    if (sim_rnd_bool(1, 3)) { // threads that add, find and erase objects
        uint64_t before = 0;
        for (int i = 0; i < 4; ++i) {
            sim_origins(1);
            std::thread t([] { wl_owners(); });
            t.join();
            sim_origins(0);
            uint64_t now = sim_live_blocks();
            if (i && now > before)
                sim_kept("memory-kept", ("the repository keeps " + std::to_string(now - before) + " blocks of memory of objects that were erased").c_str());
            before = now;
        }
        return;
    }
    sim_quiet(1);
    int what = (int)sim_rnd(5), mode = (int)sim_rnd(4), n = 1 + (int)sim_rnd(3), rounds = 3 + (int)sim_rnd(6);
    bool append = sim_rnd_bool(1, 2), whole = sim_rnd_bool(1, 2), nested = sim_rnd_bool(1, 2);
    auto run = [&] {
        ObjectAccess_ acc;
        switch (what) {
        case 0: // the same fixings stored again
        {
            Global::FixHistory_ h;
            for (int i = 0; i < n; ++i)
                h.vals_.push_back(std::make_pair(DateTime_(Date_(2024, 3, 4 + i), 0.5), 1.0 + i));
            XGLOBAL::StoreFixings("a keeping index of its own", h, append);
            Global::FixHistory_ got = Global::Fixings_().History("a keeping index of its own");
            break;
        }
        case 1: // dates, for good and for a while
        {
            XGLOBAL::SetEvaluationDate(Date_(2024, 5, 6));
            XGLOBAL::SetAccountingDate(Date_(2024, 5, 7));
            sim_alloc_faults(0); // a scope that cannot restore its date ends the program
            auto o1 = XGLOBAL::SetEvaluationDateInScope(Date_(2024, 6, 6));
            if (nested)
                auto o2 = XGLOBAL::SetAccountingDateInScope(Date_(2024, 6, 7));
            (void)Global::Dates_::EvaluationDate();
            break;
        }
        case 2: // an object that replaces its predecessor
        {
            Handle_<Storable_> mine(new Kept_("kept", 0));
            String_ tag = acc.Add(mine, RepositoryErase_("NAME"));
            (void)acc.Fetch(tag, true);
            break;
        }
        case 3: // objects added and erased
            for (int i = 0; i < n; ++i) {
                struct Gone {
                    ObjectAccess_& acc;
                    Handle_<Storable_> mine;
                    ~Gone() {
                        sim_alloc_faults(0);
                        (void)acc.Erase(*mine);
                    }
                } g{acc, Handle_<Storable_>(new Kept_(NAMES[1 + i % 3], i))};
                (void)acc.Add(g.mine, RepositoryErase_(MODES[mode]));
                (void)acc.Find(String_("^~Kept~"));
                (void)acc.Size();
                if (whole)
                    (void)EraseRepository(Vector_<Handle_<Storable_>>(1, g.mine));
            }
            break;
        default: // requests that are refused
            try {
                (void)acc.Fetch("~Kept~nobody~0000", false);
            } catch (const Exception_&) {
            }
            (void)acc.Fetch("~Kept~nobody~0000", true);
            (void)acc.Find(String_("nothing of this name"));
            (void)acc.Erase(String_("nothing of this name"));
        }
    };
    static const char* names[] = {"storing fixings", "setting dates", "replacing an object", "adding and erasing objects", "a refused request"};
    sim::keeps_nothing(names[what], run, rounds, 0);
}
