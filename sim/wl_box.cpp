// Workload for the containers: histories of operations, some of which run out of memory, against a plain model.
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <dal/platform/platform.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/stacks.hpp>
#include <dal/math/vectors.hpp>
#include <dal/protocol/underlying.hpp>
#include <dal/risk/report.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/date.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/exceptions.hpp>
#include "sim.hpp"

using namespace Dal;

namespace {
    bool faults = false;
    int failures = 0;
    // runs an operation on the real container; false: it ran out of memory
    template <class F_> bool real(const char* what, F_ f) {
        try {
            if (faults)
                sim_alloc_faults(1);
            f();
            sim_alloc_faults(0);
            return true;
        } catch (const std::bad_alloc&) {
            sim_alloc_faults(0);
            if (!faults)
                sim_violation("spurious-failure", "%s: out of memory although no allocation failed", what);
            ++failures;
            sim_probe(0);
            return false;
        } catch (const std::exception& e) {
            sim_alloc_faults(0);
            if (faults && sim_fault_count(F_ALLOC)) {
                ++failures;
                return false;
            }
            sim_violation("unexpected-error", "%s raises: %.200s", what, e.what());
        }
    }
    template <class F_> bool refuses(const char* what, F_ f) { // must raise an error
        try {
            f();
        } catch (const std::bad_alloc&) {
            return false;
        } catch (const std::exception&) {
            return true;
        }
        sim_violation("no-error", "%s is accepted", what);
    }

    // values of the two element types: numbers, and texts that need memory
    double fresh_id = 0;
    template <class E_> E_ fresh();
    template <> double fresh<double>() { return fresh_id += 1; }
    template <> String_ fresh<String_>() {
        char b[60];
        snprintf(b, sizeof b, "a text that is too long to be kept in place %d", (int)(fresh_id += 1));
        return b;
    }
    std::string show(double x) {
        char b[40];
        snprintf(b, sizeof b, "%g", x);
        return b;
    }
    std::string show(const String_& s) { return s.size() > 40 ? std::string(s.c_str()).substr(42) : s.c_str(); }

    // --------------------------------------------------------------------------------------------------- matrices
    template <class E_> struct MatrixCase {
        struct Model {
            int r = 0, c = 0;
            bool known = true; // false: moved from
            std::vector<E_> v;
            E_& at(int i, int j) { return v[(size_t)(i * c + j)]; }
        };
        Matrix_<E_> m[3];
        Model w[3];
        void check(int k, const char* after) {
            if (!w[k].known)
                return;
            auto& a = m[k];
            auto& b = w[k];
            const Matrix_<E_>& ca = a;
            if (a.Rows() != b.r || a.Cols() != b.c)
                sim_violation("wrong-size", "matrix %d is %dx%d instead of %dx%d after %s", k, a.Rows(), a.Cols(), b.r, b.c, after);
            if (a.Empty() != (b.r * b.c == 0) || ca.end() - ca.begin() != b.r * b.c)
                sim_violation("wrong-size", "matrix %d of %dx%d has %d cells after %s", k, b.r, b.c, (int)(ca.end() - ca.begin()), after);
            int n = 0;
            for (int i = 0; i < b.r; ++i) {
                auto row = ca.Row(i);
                if (row.size() != b.c)
                    sim_violation("wrong-size", "row %d of matrix %d has %d cells instead of %d after %s", i, k, row.size(), b.c, after);
                for (int j = 0; j < b.c; ++j, ++n) {
                    if (!(ca(i, j) == b.at(i, j)) || !(row[j] == b.at(i, j)) || !(ca.begin()[n] == b.at(i, j)))
                        sim_violation("wrong-value", "matrix %d has %s at %d,%d instead of %s after %s", k, show(ca(i, j)).c_str(), i, j, show(b.at(i, j)).c_str(), after);
                }
            }
            if (b.r)
                for (int j = 0; j < b.c; ++j) {
                    auto col = ca.Col(j);
                    int i = 0;
                    for (auto p = col.begin(); p != col.end(); ++p, ++i)
                        if (i >= b.r || !(*p == b.at(i, j)) || !(col[i] == b.at(i, j)))
                            sim_violation("wrong-value", "column %d of matrix %d is wrong at row %d after %s", j, k, i, after);
                    if (i != b.r || (int)col.size() != b.r)
                        sim_violation("wrong-size", "column %d of matrix %d has %d cells instead of %d after %s", j, k, i, b.r, after);
                }
        }
        void set_all(int k, int from_r, int from_c) { // gives the cells outside the old shape a value
            for (int i = 0; i < w[k].r; ++i)
                for (int j = 0; j < w[k].c; ++j)
                    if (i >= from_r || j >= from_c) {
                        sim::Pause z;
                        E_ x = fresh<E_>();
                        m[k](i, j) = x;
                        w[k].at(i, j) = x;
                    }
        }
        void step() {
            int k = (int)sim_rnd(3), o = (int)sim_rnd(3), op = (int)sim_rnd(11), r = (int)sim_rnd(5), c = (int)sim_rnd(5);
            E_ x = fresh<E_>();
            const char* N[] = {"construct", "copy", "assign", "move", "move-assign", "Swap", "Resize", "Resize rows", "Clear", "set", "Fill"};
            sim_note("matrix %d: %s %d %dx%d", k, N[op], o, r, c);
            if (op >= 1 && op <= 5 && !w[o].known)
                op = 8;
            if (!w[k].known && (op == 5 || op == 6 || op == 7 || op > 8))
                op = 8;
            int rr = w[k].r, cc = w[k].c;
            switch (op) {
            case 0:
                if (real(N[op], [&] { m[k] = Matrix_<E_>(r, c, x); })) {
                    w[k].r = r, w[k].c = c;
                    w[k].v.assign((size_t)(r * c), x);
                    w[k].known = true;
                }
                break;
            case 1:
                if (real(N[op], [&] {
                        Matrix_<E_> t(m[o]);
                        m[k].swap(t);
                    }))
                    w[k] = Model(w[o]);
                break;
            case 2:
                if (real(N[op], [&] { m[k] = m[o]; }))
                    w[k] = Model(w[o]);
                break;
            case 3:
            case 4:
                if (k == o)
                    break;
                real(N[op], [&] {
                    if (op == 3) {
                        Matrix_<E_> t(std::move(m[o]));
                        m[k].swap(t);
                    } else
                        m[k] = std::move(m[o]);
                });
                w[k] = w[o];
                w[o].known = false;
                break;
            case 5:
                real(N[op], [&] { m[k].Swap(&m[o]); });
                std::swap(w[k], w[o]);
                break;
            case 7:
                c = w[k].c; // fall through
            case 6:
                if (real(N[op], [&] { m[k].Resize(r, c); })) {
                    Model n;
                    n.r = r, n.c = c;
                    n.v.resize((size_t)(r * c));
                    for (int i = 0; i < r && i < rr; ++i)
                        for (int j = 0; j < c && j < cc; ++j)
                            n.at(i, j) = w[k].at(i, j);
                    w[k] = n;
                    if (m[k].Rows() == r && m[k].Cols() == c)
                        set_all(k, rr, cc);
                }
                break;
            case 8:
                real(N[op], [&] { m[k].Clear(); });
                w[k] = Model();
                break;
            case 9:
                if (r < rr && c < cc && real(N[op], [&] {
                        if (op == 9 && r % 2)
                            m[k](r, c) = x;
                        else if (r % 3)
                            m[k].Row(r)[c] = x;
                        else
                            m[k].Col(c)[r] = x;
                    }))
                    w[k].at(r, c) = x;
                break;
            case 10: {
                bool f = faults;
                faults = false; // filling is not all-or-nothing
                real(N[op], [&] { m[k].Fill(x); });
                faults = f;
                std::fill(w[k].v.begin(), w[k].v.end(), x);
                break;
            }
            }
            sim::Pause z;
            for (int i = 0; i < 3; ++i)
                check(i, N[op]);
        }
    };

    // ----------------------------------------------------------------------------------------------------- stacks
    template <class E_> struct StackCase {
        using S = Stack_<E_, 2>;
        std::unique_ptr<S> s[2];
        std::vector<E_> w[2];
        StaticStack_<E_, 16> fixed;
        std::vector<E_> wf;
        StackCase() {
            for (auto& p : s)
                p.reset(new S((int)sim_rnd(4)));
        }
        void check(int k, const char* after) {
            S& a = *s[k];
            const S& c = a;
            auto& b = w[k];
            if (a.Size() != (int)b.size() || a.IsEmpty() != b.empty())
                sim_violation("wrong-size", "stack %d holds %d instead of %zu after %s", k, a.Size(), b.size(), after);
            size_t n = 0;
            for (auto p = c.begin(); p != c.end(); ++p, ++n)
                if (n >= b.size() || !(*p == b[b.size() - 1 - n]) || !(c[n] == b[b.size() - 1 - n]))
                    sim_violation("wrong-value", "stack %d has %s at depth %zu instead of %s after %s", k, show(*p).c_str(), n, n < b.size() ? show(b[b.size() - 1 - n]).c_str() : "-", after);
            if (!b.empty() && !(c.Top() == b.back()))
                sim_violation("wrong-value", "the top of stack %d is %s instead of %s after %s", k, show(c.Top()).c_str(), show(b.back()).c_str(), after);
        }
        void step() {
            const char* N[] = {"Push", "Push", "Push", "Push(Top)", "Pop", "Pop(n)", "TopAndPop", "Reset", "Clear", "copy", "assign", "move", "move-assign", "construct"};
            int k = (int)sim_rnd(2), o = 1 - k, op = (int)sim_rnd(14), n = (int)sim_rnd(4), f = (int)sim_rnd(5);
            E_ x = fresh<E_>();
            sim_note("stack %d: %s %d", k, N[op], n);
            switch (op) {
            case 0:
            case 1:
            case 2:
                if (real(N[op], [&] { s[k]->Push(x); }))
                    w[k].push_back(x);
                break;
            case 3:
                if (!w[k].empty() && real(N[op], [&] { s[k]->Push(s[k]->Top()); }))
                    w[k].push_back(w[k].back());
                break;
            case 4:
                if (!w[k].empty())
                    s[k]->Pop(), w[k].pop_back();
                break;
            case 5:
                n = std::min(n, (int)w[k].size());
                s[k]->Pop((size_t)n);
                w[k].resize(w[k].size() - (size_t)n);
                break;
            case 6:
                if (!w[k].empty()) {
                    E_ g = s[k]->TopAndPop();
                    if (!(g == w[k].back()))
                        sim_violation("wrong-value", "TopAndPop of stack %d gives %s instead of %s", k, show(g).c_str(), show(w[k].back()).c_str());
                    w[k].pop_back();
                }
                break;
            case 7: s[k]->Reset(), w[k].clear(); break;
            case 8: s[k]->Clear(), w[k].clear(); break;
            case 9:
                if (real(N[op], [&] { s[k].reset(new S(*s[o])); }))
                    w[k] = w[o];
                break;
            case 10:
                if (real(N[op], [&] { *s[k] = *s[o]; }))
                    w[k] = w[o];
                break;
            case 11:
                if (real(N[op], [&] { s[k].reset(new S(std::move(*s[o]))); }))
                    w[k] = w[o], w[o].clear();
                break;
            case 12:
                if (real(N[op], [&] { *s[k] = std::move(*s[o]); }))
                    w[k] = w[o], w[o].clear();
                break;
            case 13:
                if (real(N[op], [&] { s[k].reset(new S(n)); }))
                    w[k].clear();
                break;
            }
            sim::Pause z;
            check(0, N[op]);
            check(1, N[op]);
            if (f < 3 && wf.size() < 16)
                fixed.Push(x), wf.push_back(x);
            else if (f == 3 && !wf.empty()) {
                E_ g = fixed.TopAndPop();
                if (!(g == wf.back()))
                    sim_violation("wrong-value", "TopAndPop of the fixed stack gives %s instead of %s", show(g).c_str(), show(wf.back()).c_str());
                wf.pop_back();
            } else if (f == 4 && !wf.empty())
                fixed.Pop(), wf.pop_back();
            if (fixed.Size() != wf.size() || fixed.IsEmpty() != wf.empty())
                sim_violation("wrong-size", "the fixed stack holds %zu instead of %zu", fixed.Size(), wf.size());
            for (size_t i = 0; i < wf.size(); ++i)
                if (!(fixed[(int)i] == wf[wf.size() - 1 - i]))
                    sim_violation("wrong-value", "the fixed stack is wrong at depth %zu", i);
        }
    };

    // ----------------------------------------------------------------------------------------------------- arrays
    struct ArrayCase {
        struct Model {
            Vector_<int> n;
            std::map<std::vector<int>, double> v;
        };
        ArrayN_<double> a[2];
        Cube_<double> q;
        Model w[2], wq;
        static Vector_<int> shape(int nd) {
            Vector_<int> r;
            for (int i = 0; i < nd; ++i)
                r.push_back((int)sim_rnd(10) == 0 ? 0 : 1 + (int)sim_rnd(4));
            return r;
        }
        template <class F_> static void each(const Vector_<int>& n, F_ f) {
            for (int x : n)
                if (!x)
                    return;
            std::vector<int> i(n.size(), 0);
            for (;;) {
                f(i);
                size_t d = 0;
                for (; d < i.size() && ++i[d] == n[d]; ++d)
                    i[d] = 0;
                if (d == i.size())
                    return;
            }
        }
        static Vector_<int> at(const std::vector<int>& i) { return Vector_<int>(i.begin(), i.end()); }
        ArrayCase() : a{ArrayN_<double>(shape(2), 0.5), ArrayN_<double>(shape(3), 0.5)}, q() {
            for (int k = 0; k < 2; ++k) {
                w[k].n = a[k].Sizes();
                each(w[k].n, [&](auto& i) { w[k].v[i] = 0.5; });
            }
            wq.n = q.Sizes();
        }
        void check(const char* after) {
            for (int k = 0; k < 3; ++k) {
                Model& m = k < 2 ? w[k] : wq;
                const Vector_<int>& n = k < 2 ? a[k].Sizes() : q.Sizes();
                if (!(n == m.n))
                    sim_violation("wrong-size", "array %d has another shape after %s", k, after);
                if (k == 2 && (q.SizeI() != m.n[0] || q.SizeJ() != m.n[1] || q.SizeK() != m.n[2]))
                    sim_violation("wrong-size", "the cube has another shape after %s", after);
                if ((k < 2 ? a[k].IsEmpty() : q.IsEmpty()) != m.v.empty())
                    sim_violation("wrong-size", "array %d is %s after %s", k, m.v.empty() ? "not empty" : "empty", after);
                each(m.n, [&](auto& i) {
                    double x = k < 2 ? a[k][at(i)] : q(i[0], i[1], i[2]);
                    if (x != m.v[i])
                        sim_violation("wrong-value", "array %d has %g instead of %g at %d,%d after %s", k, x, m.v[i], i[0], i[1], after);
                    if (k == 2 && q.SliceBegin(i[0], i[1])[i[2]] != m.v[i])
                        sim_violation("wrong-value", "slice of the cube has another value after %s", after);
                });
                if (k == 2 && !m.v.empty() && static_cast<const Cube_<double>&>(q).SliceEnd(0, 0) - static_cast<const Cube_<double>&>(q).SliceBegin(0, 0) != m.n[2])
                    sim_violation("wrong-size", "slice of the cube has another length after %s", after);
            }
        }
        void step() {
            const char* N[] = {"construct", "copy", "assign", "Swap", "Resize", "Resize", "Resize", "set", "set", "Fill", "scale", "Resize to another dimension", "Swap with a vector"};
            int op = (int)sim_rnd(13), k = (int)sim_rnd(3);
            double x = fresh<double>();
            Model& m = k < 2 ? w[k] : wq;
            int nd = (int)m.n.size();
            Vector_<int> n = shape(nd);
            sim_note("array %d: %s", k, N[op]);
            std::vector<std::vector<int>> cells;
            each(m.n, [&](auto& i) { cells.push_back(i); });
            switch (op) {
            case 0:
                if (real(N[op], [&] {
                        if (k < 2) {
                            ArrayN_<double> t(n, x);
                            a[k].Swap(&t);
                        } else {
                            Cube_<double> t(n[0], n[1], n[2]);
                            q.Swap(&t);
                        }
                    })) {
                    m.n = n;
                    m.v.clear();
                    each(n, [&](auto& i) { m.v[i] = k < 2 ? x : 0.0; });
                }
                break;
            case 1:
                if (k < 2 && real(N[op], [&] {
                        ArrayN_<double> t(a[1 - k]);
                        a[k].Swap(&t);
                    }))
                    w[k] = Model(w[1 - k]);
                break;
            case 2: // element-wise assignment of the members is not all-or-nothing, so build a copy first
                if (k < 2) {
                    std::unique_ptr<ArrayN_<double>> t;
                    if (real(N[op], [&] { t.reset(new ArrayN_<double>(a[1 - k])); })) {
                        a[k] = std::move(*t);
                        w[k] = Model(w[1 - k]);
                    }
                }
                break;
            case 3:
                a[0].Swap(&a[1]);
                std::swap(w[0], w[1]);
                break;
            case 4:
            case 5:
            case 6:
                if (real(N[op], [&] {
                        if (k < 2)
                            a[k].Resize(n);
                        else
                            q.Resize(n[0], n[1], n[2]);
                    })) {
                    Model r;
                    r.n = n;
                    bool fits = k < 2 ? a[k].Sizes() == n : q.Sizes() == n;
                    if (!fits)
                        sim_violation("wrong-size", "array %d does not have the shape it was resized to", k);
                    each(n, [&](auto& i) {
                        auto p = m.v.find(i);
                        if (p != m.v.end())
                            r.v[i] = p->second;
                        else {
                            sim::Pause z;
                            double y = fresh<double>();
                            (k < 2 ? a[k][at(i)] : q(i[0], i[1], i[2])) = y;
                            r.v[i] = y;
                        }
                    });
                    m = r;
                }
                break;
            case 7:
            case 8:
                if (!cells.empty()) {
                    auto i = cells[sim_rnd(cells.size())];
                    if (k < 2) {
                        if (!real(N[op], [&] { a[k][at(i)] = x; }))
                            break;
                    } else
                        q(i[0], i[1], i[2]) = x;
                    m.v[i] = x;
                }
                break;
            case 9:
                if (k < 2)
                    a[k].Fill(x);
                else
                    q.Fill(x);
                for (auto& v : m.v)
                    v.second = x;
                break;
            case 10:
                if (k < 2)
                    a[k] *= 0.5;
                else
                    q *= 0.5;
                for (auto& v : m.v)
                    v.second *= 0.5;
                break;
            case 11:
                if (k < 2)
                    refuses(N[op], [&] { a[k].Resize(shape(nd + 1)); });
                break;
            case 12:
                if (k < 2) { // allowed only if all cells lie along one dimension
                    int top = 0;
                    for (int d : m.n)
                        top = std::max(top, d);
                    Vector_<> v;
                    for (int i = 0, len = 1 + (int)sim_rnd(4); i < len; ++i)
                        v.push_back(fresh<double>());
                    if ((size_t)top != m.v.size())
                        refuses(N[op], [&] { a[k].Swap(&v); });
                    else if (top > 0) {
                        Vector_<> mine = v;
                        bool f = faults;
                        faults = false;
                        real(N[op], [&] { a[k].Swap(&v); });
                        faults = f;
                        size_t d = 0;
                        while (m.n[d] != top)
                            ++d;
                        Model r;
                        r.n = m.n;
                        r.n[d] = (int)mine.size();
                        each(r.n, [&](auto& i) { r.v[i] = mine[(size_t)i[d]]; });
                        each(m.n, [&](auto& i) {
                            if (v.size() != m.v.size() || v[(size_t)i[d]] != m.v[i])
                                sim_violation("wrong-value", "a vector swapped with array %d does not get its values", k);
                        });
                        m = r;
                    }
                }
                break;
            }
            sim::Pause z;
            check(N[op]);
        }
    };

    // ------------------------------------------------------------------------------------- vectors, cells, dictionaries
    struct MixCase {
        Vector_<String_> v[2];
        std::vector<String_> wv[2];
        Vector_<> d;
        std::vector<double> wd;
        Cell_ c[2];
        int wk[2] = {5, 5}; // index of the alternative
        double wx[2] = {0, 0};
        String_ ws[2];
        Dictionary_ dict;
        std::map<std::string, double> wdict;
        static const char* key(int i, int spelling) {
            static const char* K[4][3] = {{"alpha", "ALPHA", "Al pha"}, {"beta_two", "BETATWO", "beta two"}, {"g", "G", " g"}, {"a key that is long enough to need memory", "AKEYTHATISLONGENOUGHTONEEDMEMORY", "a_key_that_is_long_enough_to_need_memory"}};
            return K[i][spelling];
        }
        void check(const char* after) {
            for (int k = 0; k < 2; ++k) {
                if (v[k].size() != wv[k].size() || v[k].empty() != wv[k].empty() || !std::equal(wv[k].begin(), wv[k].end(), v[k].begin()))
                    sim_violation("wrong-value", "vector %d holds something else after %s", k, after);
                if (c[k].val_.valueless_by_exception() || (int)c[k].val_.index() != wk[k])
                    sim_violation("wrong-type", "cell %d holds another type (%d instead of %d) after %s", k, (int)c[k].val_.index(), wk[k], after);
                bool same = true;
                switch (wk[k]) {
                case 0: same = std::get<bool>(c[k].val_) == (wx[k] != 0); break;
                case 1: same = std::get<double>(c[k].val_) == wx[k]; break;
                case 2: same = std::get<Date_>(c[k].val_) == Date_(2024, 1, 1).AddDays((int)wx[k] % 5000); break;
                case 3: same = std::get<DateTime_>(c[k].val_) == DateTime_(Date_(2024, 1, 1).AddDays((int)wx[k] % 5000), 0.5); break;
                case 4: same = std::get<String_>(c[k].val_) == ws[k]; break;
                }
                if (!same)
                    sim_violation("wrong-value", "cell %d holds another value after %s", k, after);
            }
            if (d.size() != wd.size() || !std::equal(wd.begin(), wd.end(), d.begin()))
                sim_violation("wrong-value", "the vector of numbers holds something else after %s", after);
            if (dict.Size() != (int)wdict.size() || std::distance(dict.begin(), dict.end()) != (long)wdict.size())
                sim_violation("wrong-size", "the dictionary has %d entries instead of %zu after %s", dict.Size(), wdict.size(), after);
            for (int i = 0; i < 4; ++i)
                for (int sp = 0; sp < 3; ++sp) {
                    auto p = wdict.find(key(i, 0));
                    String_ k = key(i, sp);
                    if (dict.Has(k) != (p != wdict.end()))
                        sim_violation("wrong-key", "the dictionary %s '%s' after %s", p == wdict.end() ? "has" : "lacks", key(i, sp), after);
                    if (p != wdict.end()) {
                        if (Cell::ToDouble(dict.At(k)) != p->second)
                            sim_violation("wrong-value", "the dictionary has another value at '%s' after %s", key(i, sp), after);
                    } else {
                        if (!Cell::IsEmpty(dict.At(k, true)))
                            sim_violation("wrong-value", "the dictionary has something at '%s', which is not there", key(i, sp));
                    }
                }
        }
        void step() {
            const char* N[] = {"push_back", "Append", "Resize", "Swap", "assign", "Join", "erase", "number ops", "cell assign", "cell copy", "cell clear", "insert", "insert", "dictionary copy", "dictionary error"};
            int op = (int)sim_rnd(15), k = (int)sim_rnd(2), o = 1 - k, n = (int)sim_rnd(6);
            String_ s = fresh<String_>();
            double x = fresh<double>();
            sim_note("mix %d: %s %d", k, N[op], n);
            switch (op) {
            case 0:
                if (real(N[op], [&] { n % 2 ? v[k].push_back(s) : v[k].emplace_back(s); }))
                    wv[k].push_back(s);
                break;
            case 1: { // appending several elements is not all-or-nothing (nor is std::vector's insert)
                bool f = faults;
                faults = false;
                if (wv[k].size() < 20 && real(N[op], [&] { n % 2 ? v[k].Append(v[o]) : v[k].Append(v[o].begin(), v[o].end()); }))
                    wv[k].insert(wv[k].end(), wv[o].begin(), wv[o].end());
                faults = f;
                break;
            }
            case 2:
                if (real(N[op], [&] { v[k].Resize((size_t)n); }))
                    wv[k].resize((size_t)n);
                break;
            case 3: v[k].Swap(&v[o]), wv[k].swap(wv[o]); break;
            case 4: {
                Vector_<String_> t;
                if (real(N[op], [&] { t = v[o]; })) {
                    v[k] = std::move(t);
                    wv[k] = wv[o];
                }
                break;
            }
            case 5: {
                Vector_<String_> t;
                if (wv[k].size() < 20 && real(N[op], [&] {
                        auto j = Vector::Join(v[k], v[o]);
                        t.Swap(&j);
                    })) {
                    v[k].Swap(&t);
                    wv[k].insert(wv[k].end(), wv[o].begin(), wv[o].end());
                }
                break;
            }
            case 6:
                if (!wv[k].empty()) {
                    size_t at = (size_t)n % wv[k].size();
                    v[k].erase(v[k].begin() + (long)at);
                    wv[k].erase(wv[k].begin() + (long)at);
                }
                break;
            case 7:
                if (n == 0 && real(N[op], [&] { d.push_back(x); }))
                    wd.push_back(x);
                if (n == 1)
                    d *= 0.5;
                if (n == 2)
                    d += x;
                if (n == 3)
                    d -= 1.5;
                if (n == 4)
                    d += d;
                if (n == 5)
                    d.Fill(x);
                for (auto& y : wd)
                    y = n == 1 ? y * 0.5 : n == 2 ? y + x : n == 3 ? y - 1.5 : n == 4 ? y + y : n == 5 ? x : y;
                break;
            case 8: {
                Date_ dt = Date_(2024, 1, 1).AddDays((int)x % 5000);
                DateTime_ dtt(dt, 0.5);
                if (n == 5)
                    n = 4;
                if (real(N[op], [&] {
                        switch (n) {
                        case 0: c[k] = true; break;
                        case 1: c[k] = x; break;
                        case 2: c[k] = dt; break;
                        case 3: c[k] = dtt; break;
                        case 4: (int)x % 2 ? c[k] = s : c[k] = s.c_str(); break;
                        }
                    }))
                    wk[k] = n, wx[k] = x, ws[k] = s;
                break;
            }
            case 9:
                if (real(N[op], [&] { c[k] = c[o]; }))
                    wk[k] = wk[o], wx[k] = wx[o], ws[k] = ws[o];
                break;
            case 10: c[k].Clear(), wk[k] = 5; break;
            case 11:
            case 12: {
                int i = n % 4;
                String_ kk = key(i, (int)x % 3);
                if (wdict.count(key(i, 0)))
                    refuses("a second value under one key", [&] { dict.Insert(kk, Cell_(x)); });
                else if (real(N[op], [&] { dict.Insert(kk, Cell_(x)); }))
                    wdict[key(i, 0)] = x;
                break;
            }
            case 13: {
                std::unique_ptr<Dictionary_> t;
                if (real(N[op], [&] { t.reset(new Dictionary_(dict)); }))
                    dict = std::move(*t);
                break;
            }
            case 14:
                for (int i = 0; i < 4; ++i)
                    if (!wdict.count(key(i, 0))) {
                        refuses("looking a missing key up", [&] { dict.At(key(i, 1)); });
                        break;
                    }
                if (wdict.size() == 4 && real("start a new dictionary", [&] { dict = Dictionary_(); }))
                    wdict.clear();
                break;
            }
            sim::Pause z;
            check(N[op]);
        }
    };

    // a report, which grows along its first axis only, and an underlying, which keeps the latest date of each name
    struct ReportCase {
        std::vector<int> n; // sizes of the axes
        std::vector<double> w;
        std::vector<int> labels;                          // number of labels of each axis
        std::vector<std::vector<std::vector<String_>>> head; // header rows of each axis
        std::unique_ptr<Report_> r;
        Underlying_ u[2];
        std::map<std::string, Date_> wu[2], wc[2];
        static const char* axis(size_t i) {
            static const char* A[] = {"trades", "an axis", "VIEW"};
            return A[i];
        }
        ReportCase() {
            sim::Pause z;
            size_t k = 1 + sim_rnd(3);
            Vector_<Report::Axis_> axes(k);
            size_t total = 1;
            for (size_t i = 0; i < k; ++i) {
                n.push_back(i ? 1 + (int)sim_rnd(3) : (int)sim_rnd(4));
                labels.push_back((int)sim_rnd(3));
                axes[i].name_ = axis(i);
                axes[i].size_ = n[i];
                for (int j = 0; j < labels[i]; ++j)
                    axes[i].labels_.push_back(j ? "second label" : "first label");
                head.emplace_back((size_t)(n[i] ? n[i] : 0), std::vector<String_>((size_t)labels[i]));
                total *= (size_t)n[i];
            }
            w.assign(total, 0.0);
            r.reset(new Report_("report", axes));
        }
        Report_::Address_ address(const std::vector<int>& at) {
            auto a = r->MakeAddress();
            for (size_t i = 0; i < at.size(); ++i)
                a[axis(i)] = at[i];
            return a;
        }
        size_t inner() const {
            size_t m = 1;
            for (size_t i = 1; i < n.size(); ++i)
                m *= (size_t)n[i];
            return m;
        }
        std::vector<int> at(size_t k) const { // position of the k-th value
            std::vector<int> p(n.size());
            for (size_t i = n.size(); i-- > 0;) {
                p[i] = i ? (int)(k % (size_t)n[i]) : (int)k;
                if (i)
                    k /= (size_t)n[i];
            }
            return p;
        }
        void check(const char* after) {
            const Report_& c = *r;
            if (c.Axes().size() != n.size())
                sim_violation("wrong-size", "the report has %zu axes instead of %zu after %s", c.Axes().size(), n.size(), after);
            for (size_t i = 0; i < n.size(); ++i) {
                if (c.Size(axis(i)) != n[i])
                    sim_violation("wrong-size", "axis %zu of the report has size %d instead of %d after %s", i, c.Size(axis(i)), n[i], after);
                auto& h = c.Header(axis(i));
                if ((int)h.labels_.size() != labels[i] || (labels[i] && h.values_.Rows() != (int)head[i].size()))
                    sim_violation("wrong-size", "the header of axis %zu has another size after %s", i, after);
                if (labels[i])
                    for (size_t a = 0; a < head[i].size(); ++a)
                        for (int b = 0; b < labels[i]; ++b)
                            if (Cell::CoerceToString(h.values_((int)a, b)) != head[i][a][(size_t)b])
                                sim_violation("wrong-value", "the header of axis %zu holds another text after %s", i, after);
            }
            for (size_t k = 0; k < w.size(); ++k)
                if (c[address(at(k))] != w[k])
                    sim_violation("wrong-value", "the report holds %g instead of %g after %s", c[address(at(k))], w[k], after);
            for (int k = 0; k < 2; ++k) {
                bool same = u[k].credits_.size() == wu[k].size() && u[k].payCcys_.size() == wc[k].size();
                for (auto& x : wu[k])
                    same = same && u[k].credits_.count(x.first.c_str()) && u[k].credits_[x.first.c_str()] == x.second;
                for (auto& x : wc[k])
                    same = same && u[k].payCcys_.count(Ccy_(x.first.c_str())) && u[k].payCcys_[Ccy_(x.first.c_str())] == x.second;
                if (!same)
                    sim_violation("wrong-value", "underlying %d holds something else after %s", k, after);
            }
        }
        void step() {
            const char* N[] = {"write", "write beyond the end", "write outside", "read outside", "set all", "add header row", "no such axis", "include", "include", "merge"};
            int op = (int)sim_rnd(10);
            double x = fresh<double>();
            String_ s = fresh<String_>();
            int k = (int)sim_rnd(2), i = (int)sim_rnd(n.size());
            Date_ d = Date_(2024, 1, 1).AddDays((int)sim_rnd(50));
            static const char* names[] = {"a name that is long enough to need memory", "b", "CORP", "another long name that needs memory too"};
            static const char* ccys[] = {"USD", "EUR", "JPY"};
            const char* name = names[sim_rnd(4)];
            const char* ccy = ccys[sim_rnd(3)];
            std::vector<int> p;
            for (size_t j = 0; j < n.size(); ++j)
                p.push_back(n[j] ? (int)sim_rnd((uint64_t)n[j]) : 0);
            sim_note("report: %s %d", N[op], i);
            switch (op) {
            case 0:
                if (!w.empty()) {
                    size_t q = sim_rnd(w.size());
                    Report_::Address_ a = address(at(q));
                    if (real(N[op], [&] { (*r)[a] = x; }))
                        w[q] = x;
                }
                break;
            case 1: {
                p[0] = n[0] + (int)sim_rnd(3);
                if (p[0] > 40)
                    break;
                Report_::Address_ a = address(p);
                if (real(N[op], [&] { (*r)[a] = x; })) {
                    n[0] = p[0] + 1;
                    w.resize((size_t)n[0] * inner(), 0.0);
                    size_t q = 0;
                    for (size_t j = 0; j < n.size(); ++j)
                        q = q * (size_t)n[j] + (size_t)p[j];
                    w[q] = x;
                }
                break;
            }
            case 2:
            case 3: {
                if (i == 0)
                    p[0] = op == 3 && sim_rnd_bool(1, 2) ? n[0] + (int)sim_rnd(3) : -1 - (int)sim_rnd(2);
                else
                    p[(size_t)i] = sim_rnd_bool(1, 3) ? -1 - (int)sim_rnd(2) : n[(size_t)i] + (int)sim_rnd(9);
                Report_::Address_ a = address(p);
                if (op == 2)
                    refuses(N[op], [&] { (*r)[a] = x; });
                else
                    refuses(N[op], [&] { (void)static_cast<const Report_&>(*r)[a]; });
                break;
            }
            case 4: {
                size_t rows = sim_rnd(6);
                Vector_<> v(rows * inner() + (sim_rnd_bool(1, 3) ? sim_rnd(3) : 0));
                for (auto& y : v)
                    y = fresh<double>();
                if (v.size() % inner() || v.size() < w.size())
                    refuses(N[op], [&] { r->SetAll(v); });
                else {
                    bool f = faults; // filling
                    faults = false;
                    if (real(N[op], [&] { r->SetAll(v); })) {
                        w.assign(v.begin(), v.end());
                        n[0] = (int)(w.size() / inner());
                    }
                    faults = f;
                }
                break;
            }
            case 5: {
                auto& h = head[(size_t)i];
                int off = (int)sim_rnd(h.size() + 2);
                if (off > 20)
                    break;
                Vector_<Cell_> v((size_t)labels[(size_t)i] + (sim_rnd_bool(1, 4) ? 1 : 0));
                for (auto& y : v)
                    y = s;
                if ((int)v.size() != labels[(size_t)i])
                    refuses(N[op], [&] { r->AddHeaderRow(axis((size_t)i), off, v); });
                else if (labels[(size_t)i]) {
                    bool f = faults; // filling
                    faults = false;
                    if (real(N[op], [&] { r->AddHeaderRow(axis((size_t)i), off, v); })) {
                        while ((int)h.size() <= off)
                            h.push_back(std::vector<String_>((size_t)labels[(size_t)i]));
                        for (auto& y : h[(size_t)off])
                            y = s;
                    }
                    faults = f;
                }
                break;
            }
            case 6:
                refuses(N[op], [&] { (void)r->Size("nowhere"); });
                refuses(N[op], [&] { (void)r->Header("nowhere"); });
                refuses(N[op], [&] {
                    auto a = r->MakeAddress();
                    a["nowhere"] = 1;
                });
                break;
            case 7:
                if (real(N[op], [&] { u[k].Include(String_(name), d); })) {
                    auto& y = wu[k].emplace(name, d).first->second;
                    y = std::max(y, d);
                }
                break;
            case 8:
                if (real(N[op], [&] { u[k].Include(Ccy_(ccy), d); })) {
                    auto& y = wc[k].emplace(ccy, d).first->second;
                    y = std::max(y, d);
                }
                break;
            case 9: {
                bool f = faults; // several elements
                faults = false;
                if (real(N[op], [&] { u[k] += u[1 - k]; })) {
                    for (auto& y : wu[1 - k]) {
                        auto& t = wu[k].emplace(y).first->second;
                        t = std::max(t, y.second);
                    }
                    for (auto& y : wc[1 - k]) {
                        auto& t = wc[k].emplace(y).first->second;
                        t = std::max(t, y.second);
                    }
                }
                faults = f;
                break;
            }
            }
            sim::Pause z;
            check(N[op]);
        }
    };

    template <class C_> void drive() {
        C_ c;
        int n = 3 + (int)sim_rnd(40), opi = 0;
        for (int i = 0; i < n; ++i)
            if (sim_op(opi++))
                c.step();
        if (failures) {
            faults = false;
            sim_probe(1);
            for (int i = 0; i < 6; ++i)
                if (sim_op(opi++))
                    c.step();
        }
    }
}

SIM_WORKLOAD(containers) {
    faults = sim_rnd_bool(2, 3);
    if (faults)
        sim_fault_rate(F_ALLOC, 20000 + (unsigned)sim_rnd(200000), 1 + (unsigned)sim_rnd(6));
    if (sim_rnd_bool(1, 2))
        sim_alloc_reuse(1);
    switch (sim_rnd(7)) {
    case 0: drive<MatrixCase<double>>(); break;
    case 1: drive<MatrixCase<String_>>(); break;
    case 2: drive<StackCase<double>>(); break;
    case 3: drive<StackCase<String_>>(); break;
    case 4: drive<ArrayCase>(); break;
    case 5: drive<MixCase>(); break;
    case 6: drive<ReportCase>(); break;
    }
}

// What the containers took, they give back.
SIM_WORKLOAD(keepbox) {
    uint64_t before = 0;
    for (int i = 0; i < 4; ++i) {
        sim_origins(1);
        std::thread t([] { wl_containers(); });
        t.join();
        sim_origins(0);
        uint64_t now = sim_live_blocks();
        if (i && now > before)
            sim_kept("memory-kept", ("containers keep " + std::to_string(now - before) + " blocks of memory").c_str());
        before = now;
    }
}
