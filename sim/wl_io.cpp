// Workloads for files: saving and loading objects and lines on a failing disk.
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/risk/report.hpp>
#include <dal/script/event.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/json.hpp>
#include <dal/storage/splat.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/utilities/file.hpp>
#include "keep.hpp"
#include "sim.hpp"

using namespace Dal;

namespace {
    enum { K_JSON, K_SPLAT, K_LINES };
    const char* KN[] = {"json", "table", "lines"};
    const int NOBJ = 15;
    bool odd_run = false; // unusual values and sizes in this run

    double nice() { return ((double)sim_rnd(4001) - 2000.0) / 8.0; }
    double any() { // any finite number
        if (!odd_run)
            return nice();
        switch ((int)sim_rnd(7)) {
        case 0: return nice();
        case 1: return (double)(int64_t)(sim_rnd(2000000) - 1000000) / 3.0;
        case 2: return (sim_rnd_bool(1, 2) ? -1.0 : 1.0) * (double)(1 + sim_rnd(1000)) * std::pow(10.0, (double)sim_rnd(40) - 25.0);
        case 3: { // any bits
            uint64_t u = (sim_rnd(1ull << 32) << 32) | sim_rnd(1ull << 32);
            double d;
            memcpy(&d, &u, 8);
            return std::isfinite(d) ? d : 0.1;
        }
        case 4: {
            static const double E[] = {0.0, -0.0, 1e-300, 5e-324, 1.7976931348623157e308, -2147483648.0, 2147483647.0, 2147483648.0, 4294967296.5, 9007199254740993.0, 0.1, 1e22, 1e23, -1e-7, 123456.789e3};
            return E[sim_rnd(15)];
        }
        case 5: return (double)sim_rnd(100000) / 100000.0;
        default: return (double)(int64_t)(sim_rnd(20000) - 10000);
        }
    }
    Vector_<> anys(int n) {
        Vector_<> r;
        for (int i = 0; i < n; ++i)
            r.push_back(any());
        return r;
    }
    Vector_<> rising(int n) {
        Vector_<> r;
        double x = odd_run ? nice() / 3.0 : nice();
        for (int i = 0; i < n; ++i)
            r.push_back(x), x += (odd_run ? 0.1 : 0.125) * (double)(1 + sim_rnd(8));
        return r;
    }
    bool few_words; // names repeat in this run
    String_ word(int n) {
        String_ r;
        if (few_words)
            return String_(sim_rnd_bool(1, 2) ? "abc" : "b");
        for (int i = 0; i < n; ++i)
            r.push_back((char)('a' + sim_rnd(26)));
        return r;
    }
    // text of any kind: what looks like something else, what formats use for themselves, bytes of any value
    String_ text(int n, bool dates = true) {
        if (!odd_run || sim_rnd_bool(1, 3))
            return word(n);
        static const char* T[] = {"", " ", "100", "-1.5e3", "1e", "TRUE", "false", "True", "null", "=a=", "=", "==", "a,b", ",", "\"", "\"\"", "a\"b", "\"a\"", "\"a,b\"\"c\"", "\\", "a\\nb", "\\u0041", "a\nb", "\n", "\r", "a\r\n", "\t",
                                  "$1", "~", "~Bag", "$1~Bag", "{", "}", "[1]", "a:b", "a;b=c", "nan", "inf", "0x10", "+1", ".", "1.", "-", "x pays max(spot()-K, 0)", "AbC", "\xc3\xa9", "\xff", " lead", "trail ", "1,000", "name", "rows"};
        static const char* D[] = {"2020-01-01", "2020-01-01 10:00:11", "1/2/2020", "2020-99-99", "20-1-1", "2020-01-01 99:99:99"};
        switch ((int)sim_rnd(5)) {
        case 4: { // any bytes at all, sometimes many
            String_ r;
            for (int i = 0, k = sim_rnd_bool(1, 20) ? 200 + (int)sim_rnd(1500) : 1 + (int)sim_rnd(8); i < k; ++i)
                r.push_back((char)(sim_rnd_bool(1, 2) ? sim_rnd(36) : sim_rnd(256)));
            return r;
        }
        case 0:
            if (dates)
                return String_(D[sim_rnd(6)]);
            return word(n);
        case 1: {
            static const char C[] = "ab,\"\"\\\n\r\t=~$ 0123456789.e-{}[]:;'";
            String_ r;
            for (int i = 0, k = (int)sim_rnd(8); i < k; ++i)
                r.push_back(sim_rnd_bool(1, 12) ? (char)sim_rnd(256) : C[sim_rnd(sizeof(C) - 1)]);
            return r;
        }
        default: return String_(T[sim_rnd(sizeof(T) / sizeof(T[0]))]);
        }
    }
    Date_ day() { return odd_run ? Date_(1970, 1, 3).AddDays((int)sim_rnd(60000)) : Date_(2021, 5, 3).AddDays((int)sim_rnd(100)); }
    DateTime_ moment() {
        if (sim_rnd_bool(1, 6))
            return sim_rnd_bool(1, 2) ? DateTime_(day(), 0, 0, 0) : DateTime_(day(), 23, 59, 59);
        return DateTime_(day(), (int)sim_rnd(24), (int)sim_rnd(60), (int)sim_rnd(60));
    }
    int some(bool big, int least = 0) { return big ? 20 + (int)sim_rnd(100) : odd_run && sim_rnd_bool(1, 3) ? least + (int)sim_rnd(2) : 2 + (int)sim_rnd(5); }
    bool generators = true;
    bool cell_dates; // texts in cells may look like dates (a table keeps them apart, JSON has no dates of its own)
    Cell_ cell(bool any_type) {
        switch (any_type ? (int)sim_rnd(odd_run ? 6 : 5) : 0) {
        case 0: return Cell_(any());
        case 1: return Cell_(text(3, cell_dates));
        case 2: return Cell_(day());
        case 3: return Cell_((bool)sim_rnd(2));
        case 4: return Cell_(moment());
        default: return Cell_();
        }
    }
    Vector_<Date_> days(int n) {
        Vector_<Date_> d;
        Date_ x = day();
        for (int i = 0; i < n; ++i)
            d.push_back(x), x = x.AddDays(1 + (int)sim_rnd(60));
        return d;
    }
    PiecewiseLinear_ pwl() {
        int n = some(false, 1);
        Vector_<> l, r;
        for (int i = 0; i < n; ++i)
            l.push_back(nice() / 3000.0), r.push_back(nice() / 3000.0);
        return PiecewiseLinear_(days(n), l, r);
    }
    Handle_<Storable_> make_obj(int which, bool big, int depth = 0) {
        if (which == 9 && !generators)
            which = 10;
        switch (which) {
        case 0: {
            int n = some(big);
            Vector_<> x = rising(n), f = anys(n);
            return Handle_<Storable_>(new Interp1Linear_(text(4), x, f));
        }
        case 1: {
            double v[4] = {any(), any(), any(), any()};
            return Handle_<Storable_>(new BSModelData_(text(1 + (int)sim_rnd(6)), v[0], v[1], v[2], v[3]));
        }
        case 2: {
            int n = some(false, 1), m = some(false, 1);
            Matrix_<> v(n, m);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    v(i, j) = any();
            Vector_<> s = rising(n), t = rising(m);
            double w[3] = {any(), any(), any()};
            return Handle_<Storable_>(new DupireModelData_(text(3), w[0], w[1], w[2], s, t, v));
        }
        case 3: {
            int n = some(false, 1), m = some(big, 1);
            Matrix_<> v(n, m);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    v(i, j) = any();
            Vector_<> x = rising(n), y = rising(m);
            return Handle_<Storable_>(new Interp2Linear_(text(3), x, y, v));
        }
        case 4: {
            int n = some(big);
            Fixings_::vals_t v;
            for (int i = 0; i < n; ++i)
                v[moment()] = any();
            return Handle_<Storable_>(new Fixings_(text(3), v));
        }
        case 5: {
            int n = some(big, 1);
            Vector_<Date_> d = days(n);
            Vector_<> f = anys(n);
            return Handle_<Storable_>(new PiecewiseConstant_(d, f, text(3)));
        }
        case 6: { // definitions and constants, then dated events
            int n = some(big, 1), k = (int)sim_rnd(3);
            Vector_<Cell_> d;
            Vector_<String_> e;
            for (int i = 0; i < k; ++i)
                d.push_back(Cell_(word(4))), e.push_back(sim_rnd_bool(1, 2) ? String_("100") : String_("0.25"));
            for (int i = 0; i < n; ++i) {
                d.push_back(Cell_(day()));
                e.push_back(odd_run && sim_rnd_bool(1, 3) ? text(5) : sim_rnd_bool(1, 3) ? "call pays max(spot() - " + word(4) + ", 0)" : word(2) + " = " + word(3) + " + 1");
            }
            return Handle_<Storable_>(new Script::ScriptProductData_(text(3), d, e));
        }
        case 7:
        case 8: { // a box of cells of every type
            int n = some(big), m = some(false);
            if (n == 0 || m == 0)
                n = m = 0;
            Matrix_<Cell_> c(n, m);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    c(i, j) = cell(which == 8);
            return Handle_<Storable_>(new Box_(text(3), c));
        }
        case 9: {
            double seed = (double)(1 + sim_rnd(100000)), nd = (double)(1 + sim_rnd(4));
            return Handle_<Storable_>(new PseudoRSG_(sim_rnd_bool(1, 2) ? "MRG32" : "IRN", seed, nd, sim_rnd_bool(1, 2)));
        }
        case 10: {
            int n = 1 + some(big, 2);
            Vector_<> x = rising(n), f;
            for (int i = 0; i < n; ++i)
                f.push_back(nice() / 7.0);
            Interp::Boundary_ l(1 + (int)sim_rnd(3), nice()), r(1 + (int)sim_rnd(3), nice());
            return Handle_<Storable_>(Interp::NewCubic(text(3), x, f, l, r));
        }
        case 11: { // a curve, maybe on top of another one
            Handle_<DiscountCurve_> base;
            if (sim_rnd_bool(1, 2))
                base.reset(NewDiscountPWLF(text(3), pwl()));
            return Handle_<Storable_>(NewDiscountPWLF(text(3), pwl(), base));
        }
        case 12: {
            int na = 1 + (int)sim_rnd(3), total = 1;
            Vector_<Report::Axis_> ax(na);
            for (int i = 0; i < na; ++i) {
                ax[i].name_ = "axis" + String::FromInt(i);
                ax[i].size_ = 1 + (int)sim_rnd(4);
                total *= ax[i].size_;
                for (int j = 0, k = 1 + (int)sim_rnd(3); j < k; ++j)
                    ax[i].labels_.push_back(text(3));
            }
            std::unique_ptr<Report_> r(new Report_(text(3), ax));
            r->SetAll(anys(total));
            for (int i = 0; i < na; ++i)
                for (int j = 0; j < ax[i].size_; ++j)
                    if (sim_rnd_bool(3, 4)) {
                        Vector_<Cell_> row;
                        for (size_t k = 0; k < ax[i].labels_.size(); ++k)
                            row.push_back(cell(true));
                        r->AddHeaderRow(ax[i].name_, j, row);
                    }
            return Handle_<Storable_>(r.release());
        }
        default: { // a bag of other things, some of them shared
            Bag_::map_t m;
            int n = depth == 0 && sim_rnd_bool(1, 8) ? 6 + (int)sim_rnd(14) : odd_run ? (int)sim_rnd(4) : 1 + (int)sim_rnd(3);
            Handle_<DiscountCurve_> base;
            for (int i = 0; i < n; ++i) {
                Handle_<Storable_> h = make_obj(depth < 1 && sim_rnd_bool(1, 6) ? 13 : (int)sim_rnd(13), big && n < 3, depth + 1);
                if (which == 13 && sim_rnd_bool(1, 4)) { // curves on one base
                    if (!base)
                        base.reset(NewDiscountPWLF(text(3), pwl()));
                    h.reset(NewDiscountPWLF(text(3), pwl(), base));
                }
                m.insert(std::make_pair(text(3), h));
                if (which == 13 && sim_rnd_bool(1, 3))
                    m.insert(std::make_pair(text(3), h)); // the same object twice
            }
            return Handle_<Storable_>(new Bag_(text(3), m));
        }
        }
    }
    // ---- what an object holds, by two ways that share nothing with the writers and readers of files
    std::string exact(double d) {
        char b[40];
        snprintf(b, sizeof b, "%a ", d + 0.0);
        return b;
    }
    std::string exact(int i) { return exact((double)i); }
    std::string exact(bool i) { return i ? "T " : "F "; }
    std::string exact(const String_& s) { return std::to_string(s.size()) + ":" + std::string(s.data(), s.size()) + " "; }
    std::string exact(const Date_& d) { return "d" + std::to_string(Date::ToExcel(d)) + " "; }
    std::string exact(const DateTime_& d) { return "t" + std::to_string(Date::ToExcel(d.Date())) + "+" + exact(d.Frac()); }
    std::string exact(const Cell_& c) {
        if (std::holds_alternative<std::monostate>(c.val_))
            return exact(String_());
        if (auto p = std::get_if<double>(&c.val_))
            return exact(*p);
        if (auto p = std::get_if<bool>(&c.val_))
            return exact(*p);
        if (auto p = std::get_if<Date_>(&c.val_))
            return exact(*p);
        if (auto p = std::get_if<DateTime_>(&c.val_))
            return exact(*p);
        return exact(std::get<String_>(c.val_));
    }
    template <class E_> std::string exact(const Vector_<E_>& v) {
        std::string r = "[";
        for (const auto& e : v)
            r += exact((E_)e);
        return r + "]";
    }
    template <class E_> std::string exact(const Matrix_<E_>& v) {
        std::string r = "(" + std::to_string(v.Empty() ? 0 : v.Rows()) + "x" + std::to_string(v.Empty() ? 0 : v.Cols()) + " ";
        if (!v.Empty())
            for (int i = 0; i < v.Rows(); ++i)
                for (int j = 0; j < v.Cols(); ++j)
                    r += exact(v(i, j));
        return r + ")";
    }
    // the first way: an archive of our own
    struct Tree : Archive::Store_ {
        std::map<const Storable_*, int>& known_;
        std::string own_;
        std::map<std::string, std::unique_ptr<Tree>> kids_;
        explicit Tree(std::map<const Storable_*, int>& known) : known_(known) {}
        bool StoreRef(const Storable_* o) override {
            auto p = known_.find(o);
            int n = p == known_.end() ? (int)known_.size() : p->second;
            own_ += "#" + std::to_string(n);
            if (p != known_.end())
                return true;
            known_[o] = n;
            return false;
        }
        void SetType(const String_& type) override { own_ += exact(type); }
        Tree& Child(const String_& name) override {
            auto& k = kids_[std::string(name.c_str())];
            if (!k)
                k.reset(new Tree(known_));
            return *k;
        }
        template <class T_> Tree& set(const T_& v) {
            own_ += exact(v);
            return *this;
        }
        Tree& operator=(double v) override { return set(v); }
        Tree& operator=(const String_& v) override { return set(v); }
        Tree& operator=(const Date_& v) override { return set(v); }
        Tree& operator=(const DateTime_& v) override { return set(v); }
        Tree& operator=(const Vector_<>& v) override { return set(v); }
        Tree& operator=(const Vector_<int>& v) override { return set(v); }
        Tree& operator=(const Vector_<bool>& v) override { return set(v); }
        Tree& operator=(const Vector_<String_>& v) override { return set(v); }
        Tree& operator=(const Vector_<Date_>& v) override { return set(v); }
        Tree& operator=(const Vector_<DateTime_>& v) override { return set(v); }
        Tree& operator=(const Vector_<Cell_>& v) override { return set(v); }
        Tree& operator=(const Matrix_<>& v) override { return set(v); }
        Tree& operator=(const Matrix_<String_>& v) override { return set(v); }
        Tree& operator=(const Matrix_<Cell_>& v) override { return set(v); }
        Tree& operator=(const Dictionary_& v) override {
            for (const auto& kv : v)
                own_ += exact(kv.first) + exact(kv.second);
            return *this;
        }
        std::string str() const {
            std::string r = own_;
            for (auto& k : kids_)
                r += "\n{" + k.first + " " + k.second->str() + "}";
            return r;
        }
    };
    std::string tree(const Storable_& o) {
        std::map<const Storable_*, int> known;
        Tree t(known);
        o.Write(t);
        return t.str();
    }
    // the second way: what its users see
    std::string seen(const Storable_& o, std::map<const Storable_*, int>& ids) {
        auto id = ids.insert(std::make_pair(&o, (int)ids.size()));
        std::string r = "#" + std::to_string(id.first->second) + " ";
        if (!id.second)
            return r;
        r += exact(o.type_) + exact(o.name_);
        if (auto p = dynamic_cast<const Interp1Linear_*>(&o))
            r += exact(p->x()) + exact(p->f());
        else if (auto p = dynamic_cast<const BSModelData_*>(&o))
            r += exact(p->spot_) + exact(p->vol_) + exact(p->rate_) + exact(p->div_) + exact(p->parameterLabels_);
        else if (auto p = dynamic_cast<const DupireModelData_*>(&o))
            r += exact(p->spot_) + exact(p->rate_) + exact(p->repo_) + exact(p->spots_) + exact(p->times_) + exact(p->vols_);
        else if (auto p = dynamic_cast<const Interp2Linear_*>(&o)) {
            r += exact(p->x()) + exact(p->y());
            for (double x : p->x())
                for (double y : p->y())
                    r += exact((*p)(x, y));
        } else if (auto p = dynamic_cast<const Fixings_*>(&o)) {
            for (auto& v : p->vals_)
                r += exact(v.first) + exact(v.second);
        } else if (auto p = dynamic_cast<const PiecewiseConstant_*>(&o))
            r += exact(p->knotDates_) + exact(p->fRight_) + exact(p->sofar_);
        else if (auto p = dynamic_cast<const Box_*>(&o))
            r += exact(p->contents_);
        else if (auto p = dynamic_cast<const PseudoRSG_*>(&o)) {
            Vector_<> v((int)p->NDim());
            for (int i = 0; i < 2; ++i) {
                p->FillUniform(&v);
                r += exact(v);
            }
        } else if (auto p = dynamic_cast<const DiscountCurve_*>(&o)) {
            for (int i = 0; i < 40; ++i)
                r += exact((*p)(Date_(2000, 1, 1).AddDays(1000 * (i % 7)), Date_(1955, 1, 1).AddDays(900 * i)));
            Vector_<const YCComponent_*> all;
            p->Poll(&all);
            for (auto c : all)
                if (c != p)
                    r += seen(*c, ids);
        } else if (auto p = dynamic_cast<const Report_*>(&o)) {
            for (auto& a : p->Axes())
                r += exact(a) + exact(p->Size(a)) + exact(p->Header(a).labels_) + exact(p->Header(a).values_);
            auto loc = p->MakeAddress();
            std::vector<int> n;
            int total = 1;
            for (auto& a : p->Axes())
                n.push_back(p->Size(a)), total *= n.back();
            for (int i = 0; i < total; ++i) {
                int k = i, j = 0;
                for (auto& a : p->Axes()) {
                    loc[a] = k % n[(size_t)j];
                    k /= n[(size_t)j++];
                }
                r += exact((*p)[loc]);
            }
        } else if (auto p = dynamic_cast<const Interp1_*>(&o)) {
            for (double x = -300; x < 300; x += 7.25)
                r += exact((*p)(x));
        } else if (auto p = dynamic_cast<const Bag_*>(&o)) {
            for (auto& v : p->contents_)
                r += "\n" + exact(v.first) + seen(*v.second, ids);
        }
        return r;
    }
    std::string whole(const Storable_& o) {
        std::map<const Storable_*, int> ids;
        std::string a = tree(o);
        return a + "\n--\n" + seen(o, ids);
    }
    void differ(const char* kind, const std::string& want, const std::string& got) {
        size_t i = 0;
        while (i < want.size() && i < got.size() && want[i] == got[i])
            ++i;
        size_t a = i > 30 ? i - 30 : 0;
        auto clean = [](std::string s) {
            for (auto& c : s)
                if ((unsigned char)c < 32 || (unsigned char)c > 126)
                    c = '?';
            return s;
        };
        sim_violation("load-wrong", "the object loaded from %s differs from the saved one: ...%s instead of ...%s", kind, clean(got.substr(a, 90)).c_str(), clean(want.substr(a, 90)).c_str());
    }
    Vector_<String_> make_lines(bool big) {
        Vector_<String_> r;
        int n = (int)sim_rnd(big ? 60 : 8);
        for (int i = 0; i < n; ++i) {
            int z = (int)sim_rnd(10);
            r.push_back(z == 0 ? String_() : z == 1 ? word(2040 + (int)sim_rnd(20)) : z == 2 ? word(5000) : word(1 + (int)sim_rnd(90)));
            if (odd_run && sim_rnd_bool(1, 3))
                for (int k = 0; k < 3; ++k) {
                    char c = (char)sim_rnd(256);
                    r.back().push_back(c == '\n' ? ' ' : c);
                }
        }
        return r;
    }
    std::string content(const char* path) {
        long n = sim_fs_size(path);
        if (n < 0)
            return "<absent>";
        std::string s((size_t)n, 0);
        sim_fs_get(path, &s[0], (size_t)n);
        return s;
    }
    uint64_t faults() {
        uint64_t n = 0;
        for (int k : {F_ALLOC, F_OPEN, F_ENOSPC, F_WEIO, F_WSHORT, F_EINTR, F_REIO, F_RSHORT, F_CLOSE})
            n += sim_fault_count(k);
        return n;
    }
    struct Item {
        int kind;
        Handle_<Storable_> obj;
        Vector_<String_> lines;
    };
    Item make_item() {
        Item it;
        bool big = sim_rnd_bool(1, 4);
        it.kind = (int)sim_rnd(3);
        cell_dates = it.kind == K_SPLAT;
        if (it.kind == K_LINES)
            it.lines = make_lines(big);
        else
            it.obj = make_obj((int)sim_rnd(NOBJ), big);
        return it;
    }
    void save(const Item& it, const String_& path) {
        switch (it.kind) {
        case K_JSON: JSON::WriteFile(*it.obj, path); break;
        case K_SPLAT: SplatFile(path, *it.obj); break;
        default: File::Write(path, it.lines); break;
        }
    }
    void write_faults() {
        int z = (int)sim_rnd(8);
        auto rate = [] { return 3000 + (unsigned)sim_rnd(300000); };
        if (z == 0)
            sim_fault_rate(F_OPEN, rate(), 3);
        if (z == 1)
            sim_fault_rate(F_ENOSPC, rate(), 3);
        if (z == 2)
            sim_fault_rate(F_WEIO, rate(), 3);
        if (z == 3)
            sim_fs_capacity((long)sim_rnd(sim_rnd_bool(1, 2) ? 300 : 20000));
        if (z == 4)
            sim_fs_hard_fault(1, (long)sim_rnd(sim_rnd_bool(1, 2) ? 300 : 20000), sim_rnd_bool(1, 2) ? EIO : EDQUOT);
        if (z == 5 || sim_rnd_bool(1, 6))
            sim_fault_rate(F_CLOSE, rate(), 3);
        if (z == 6 || sim_rnd_bool(1, 3))
            sim_fault_rate(F_WSHORT, rate(), 1000), sim_fault_rate(F_EINTR, rate(), 1000);
        if (z == 7)
            sim_fault_rate(F_ALLOC, 500 + (unsigned)sim_rnd(60000), 2);
    }
}

// -------------------------------------------------------------------------------- C10: what is saved is on the disk
SIM_WORKLOAD(save) {
    sim_step_cap(60000000);
    int nt = 1 + (int)sim_rnd(3);
    odd_run = sim_rnd_bool(1, 2);
    few_words = sim_rnd_bool(1, 4);
    struct Op {
        Item it;
        String_ path;
        std::string want;
        int before = 0; // 0 nothing there, 1 an older and longer file, 2 an older and shorter one
        bool remove = false;
    };
    std::vector<std::vector<Op>> plan((size_t)nt);
    int opi = 0;
    {
        sim::Pause z;
        for (int t = 0; t < nt; ++t)
            for (int k = 0, n = 1 + (int)sim_rnd(3); k < n; ++k) {
                Op o;
                o.it = make_item();
                o.path = "/sim/t" + String::FromInt(t) + "_" + String::FromInt(k % 2);
                o.before = (int)sim_rnd(3);
                o.remove = sim_rnd_bool(1, 4);
                String_ ref = "/sim/ref";
                save(o.it, ref); // nothing fails here
                o.want = content(ref.c_str());
                File::Remove(ref);
                if (sim_fs_size(ref.c_str()) >= 0)
                    sim_violation("not-removed", "a removed file is still there");
                if (o.before)
                    sim_fs_put(o.path.c_str(), std::string(o.before == 1 ? o.want.size() + 50 : o.want.size() / 2, '#').c_str(), o.before == 1 ? o.want.size() + 50 : o.want.size() / 2);
                if (sim_op(opi++))
                    plan[(size_t)t].push_back(o);
            }
        if (sim_fs_open_count())
            sim_violation("file-left-open", "%d files are open after saving", sim_fs_open_count());
    }
    bool faulty = sim_rnd_bool(3, 4);
    if (faulty) {
        write_faults();
        sim_io_faults(1);
    }
    auto run = [&](int t) {
        for (auto& o : plan[(size_t)t]) {
            bool ok = false;
            uint64_t f0 = faults();
            try {
                if (faulty)
                    sim_alloc_faults(1);
                save(o.it, o.path);
                sim_alloc_faults(0);
                ok = true;
            } catch (const std::exception& e) {
                sim_alloc_faults(0);
                sim_probe(0);
                sim_note("saving %s as %s fails: %.80s", o.path.c_str(), KN[o.it.kind], e.what());
                if (faults() == f0)
                    sim_violation("spurious-failure", "saving as %s fails although nothing went wrong: %.160s", KN[o.it.kind], e.what());
            }
            sim::Pause z;
            if (ok) {
                std::string got = content(o.path.c_str());
                sim_note("saved %s as %s: %zu bytes", o.path.c_str(), KN[o.it.kind], got.size());
                if (got != o.want)
                    sim_violation("save-incomplete", "saving as %s reports success but the file has %zu bytes instead of %zu%s", KN[o.it.kind], got.size(), o.want.size(),
                                  got.size() == o.want.size() ? " (different ones)" : "");
                if (faults() != f0)
                    sim_probe(1);
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t)
        ts.emplace_back([&run, t] { run(t); });
    run(0);
    for (auto& t : ts)
        t.join();
    if (sim_fs_open_count())
        sim_violation("file-left-open", "%d files are still open after all saves ended", sim_fs_open_count());
    // the disk works again: so do the saves
    sim_io_faults(0);
    for (auto& p : plan)
        for (auto& o : p) {
            save(o.it, o.path);
            std::string got = content(o.path.c_str());
            if (got != o.want)
                sim_violation("save-incomplete", "after the faults ended, saving as %s leaves %zu bytes instead of %zu", KN[o.it.kind], got.size(), o.want.size());
            if (o.remove) {
                File::Remove(o.path);
                if (sim_fs_size(o.path.c_str()) >= 0)
                    sim_violation("not-removed", "a removed file is still there");
                bool raised = false;
                try {
                    File::Remove(o.path);
                } catch (const std::exception&) {
                    raised = true;
                }
                if (!raised)
                    sim_violation("remove-silent", "removing a file that is not there is not reported");
            }
        }
    if (sim_fs_open_count())
        sim_violation("file-left-open", "%d files are still open at the end", sim_fs_open_count());
}

// -------------------------------------------------------------------------------- C11: what is loaded is what was saved
SIM_WORKLOAD(load) {
    sim_step_cap(60000000);
    int nt = 1 + (int)sim_rnd(3), nf = 1 + (int)sim_rnd(2);
    odd_run = sim_rnd_bool(1, 2);
    few_words = sim_rnd_bool(1, 4);
    struct Src {
        Item it;
        String_ path;
        std::string text, damaged;
        int damage = 0; // 0 none, 1 torn (a prefix survived), 2 a byte changed, 3 absent, 4 tail of zeros
        std::string want; // what the object holds
    };
    const char* DN[] = {"", " (torn)", " (corrupt byte)", " (absent)", " (zeros at the end)"};
    std::vector<Src> src((size_t)nf);
    {
        sim::Pause z;
        for (int k = 0; k < nf; ++k) {
            Src& s = src[(size_t)k];
            if (sim_rnd_bool(1, 2))
                s.damage = 1 + (int)sim_rnd(4);
            generators = s.damage != 2; // a changed digit may ask for any amount of memory
            s.it = make_item();
            generators = true;
            s.path = "/sim/f" + String::FromInt(k);
            save(s.it, s.path);
            s.text = s.damaged = content(s.path.c_str());
            if (s.it.kind != K_LINES)
                s.want = whole(*s.it.obj);
            if (s.text.empty())
                s.damage = 0;
            if (s.damage)
                (void)sim_fault(F_USER2);
            size_t n = s.text.size();
            switch (s.damage) {
            case 1: s.damaged.resize(sim_rnd_bool(1, 3) ? (size_t)sim_rnd(2) : (size_t)sim_rnd(n)); break;
            case 2: {
                size_t p = (size_t)sim_rnd(n);
                s.damaged[p] = sim_rnd_bool(1, 2) ? (char)(s.damaged[p] ^ (1 << sim_rnd(8))) : "\"{}[],:0 .-~$\n"[sim_rnd(14)];
                break;
            }
            case 3: File::Remove(s.path); break;
            case 4: {
                size_t p = (size_t)sim_rnd(n);
                memset(&s.damaged[p], 0, n - p);
                break;
            }
            }
            if (s.damage && s.damage != 3) {
                File::Remove(s.path);
                sim_fs_put(s.path.c_str(), s.damaged.c_str(), s.damaged.size());
            }
            if (s.damaged == s.text && s.damage != 3)
                s.damage = 0;
        }
    }
    bool faulty = sim_rnd_bool(1, 2);
    if (faulty) {
        int z = (int)sim_rnd(5);
        auto rate = [] { return 3000 + (unsigned)sim_rnd(300000); };
        if (z == 0)
            sim_fault_rate(F_OPEN, rate(), 3);
        if (z == 1)
            sim_fault_rate(F_REIO, rate(), 3);
        if (z == 2)
            sim_fs_hard_fault(2, (long)sim_rnd(sim_rnd_bool(1, 2) ? 300 : 20000), EIO);
        if (z == 3 || sim_rnd_bool(1, 3))
            sim_fault_rate(F_RSHORT, rate(), 1000), sim_fault_rate(F_EINTR, rate(), 1000);
        if (z == 4)
            sim_fault_rate(F_ALLOC, 500 + (unsigned)sim_rnd(60000), 2);
        sim_io_faults(1);
    }
    bool last = false;
    auto load1 = [&](const Src& s) {
        uint64_t f0 = faults();
        bool ok = false;
        Handle_<Storable_> h;
        Vector_<String_> lines;
        try {
            if (faulty && !last)
                sim_alloc_faults(1);
            switch (s.it.kind) {
            case K_JSON: h = JSON::ReadFile(s.path, true); break;
            case K_SPLAT: h = UnSplatFile(s.path, true); break;
            default: File::Read(s.path, &lines); break;
            }
            sim_alloc_faults(0);
            ok = true;
        } catch (const std::exception& e) {
            sim_alloc_faults(0);
            sim_probe(0);
            if (!s.damage && faults() == f0)
                sim_violation("spurious-failure", "loading %s fails although nothing went wrong: %.200s", KN[s.it.kind], e.what());
        }
        sim_note("loading %s as %s%s: %s", s.path.c_str(), KN[s.it.kind], DN[s.damage], ok ? "an object" : "an error");
        if (!ok)
            return;
        sim::Pause z;
        if (s.damage == 3)
            sim_violation("load-of-nothing", "loading %s from a file that is not there raises no error", KN[s.it.kind]);
        if (s.it.kind == K_LINES) {
            if (s.damage == 2 || s.damage == 4)
                return;
            size_t n = 0, m = s.it.lines.size();
            for (auto& l : lines) { // a torn file holds a prefix
                auto raw = [](const String_& x) { return std::string(x.data(), x.size()); }; // texts are compared without case
                bool full = n < m && raw(l) == raw(s.it.lines[(int)n]);
                bool part = s.damage == 1 && n + 1 == lines.size() && n < m && raw(s.it.lines[(int)n]).substr(0, l.size()) == raw(l);
                if (!full && !part)
                    sim_violation("load-wrong", "line %zu comes back with %zu characters instead of %zu", n, l.size(), n < m ? s.it.lines[(int)n].size() : 0);
                ++n;
            }
            size_t must = m;
            if (s.damage == 1) {
                must = 0;
                for (char c : s.damaged)
                    must += c == '\n';
            }
            if (lines.size() < must)
                sim_violation("load-incomplete", "%zu of %zu lines come back and no error is raised", lines.size(), must);
            return;
        }
        if (!h)
            sim_violation("load-of-nothing", "loading %s%s gives no object and no error", KN[s.it.kind], DN[s.damage]);
        if (s.damage == 0) {
            std::string got = whole(*h);
            if (got != s.want)
                differ(KN[s.it.kind], s.want, got);
        } else
            (void)tree(*h); // uses the object
        if (s.damage == 1 && s.it.kind == K_JSON)
            sim_violation("load-incomplete", "an object is loaded from a torn file (%zu of %zu bytes) and no error is raised", s.damaged.size(), s.text.size());
        if (faults() != f0)
            sim_probe(1);
    };
    auto run = [&](int t) {
        for (auto& s : src)
            if (sim_op(t * nf + (int)(&s - &src[0])))
                load1(s);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t)
        ts.emplace_back([&run, t] { run(t); });
    run(0);
    for (auto& t : ts)
        t.join();
    if (sim_fs_open_count())
        sim_violation("file-left-open", "%d files are still open after all loads ended", sim_fs_open_count());
    sim_io_faults(0); // the disk works again
    last = true;
    for (auto& s : src)
        load1(s);
    for (auto& s : src)
        if (s.damage != 3 && content(s.path.c_str()) != s.damaged)
            sim_violation("file-changed", "loading changed the file");
    if (sim_fs_open_count())
        sim_violation("file-left-open", "%d files are still open at the end", sim_fs_open_count());
}

// -------------------------------------------------------------------------------- C19: saving and loading keep nothing
SIM_WORKLOAD(keepfiles) {
    sim_step_cap(200000000);
    sim_quiet(1);
    odd_run = sim_rnd_bool(1, 2);
    few_words = sim_rnd_bool(1, 4);
    bool loading = sim_rnd_bool(2, 3);
    int damage = loading ? (int)sim_rnd(4) : 0, rounds = 3 + (int)sim_rnd(6);
    Item it;
    String_ path = "/sim/keep";
    {
        sim::Pause z;
        generators = damage != 2;
        it = make_item();
        generators = true;
        save(it, path);
        std::string t = content("/sim/keep");
        if (damage == 1)
            t.resize((size_t)sim_rnd(t.size() + 1));
        else if (damage == 2 && !t.empty())
            t[sim_rnd(t.size())] = "\"{}[],:0 .-~$\n"[sim_rnd(14)];
        if (damage)
            sim_fs_put("/sim/keep", t.c_str(), t.size());
        if (damage == 3)
            File::Remove(path);
    }
    int broken = (int)sim_rnd(4);
    long after = (long)sim_rnd(sim_rnd_bool(1, 2) ? 300 : 5000);
    auto run = [&] {
        if (!broken) {
            sim_io_faults(1);
            sim_fs_hard_fault(loading ? 2 : 1, after, EIO);
        }
        struct End {
            ~End() { sim_fs_hard_fault(0, 0, 0), sim_io_faults(0); }
        } end;
        if (!loading)
            save(it, path);
        else if (it.kind == K_JSON)
            JSON::ReadFile(path, true);
        else if (it.kind == K_SPLAT)
            UnSplatFile(path, true);
        else {
            Vector_<String_> lines;
            File::Read(path, &lines);
        }
    };
    std::string name = std::string(loading ? "loading " : "saving ") + KN[it.kind] + (damage ? " of a damaged file" : "") + (broken ? "" : " on a failing disk");
    sim::keeps_nothing(name.c_str(), run, rounds, 0);
    if (sim_fs_open_count())
        sim_violation("file-left-open", "%s leaves %d files open", name.c_str(), sim_fs_open_count());
}
