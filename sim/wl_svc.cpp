// Workload for everything threads may share: library services (parsers, calendars, conventions, numerics) and immutable
// objects.  Every answer is compared with what one thread alone gets.
#include <bitset>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <csignal>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "keep.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/initall.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/index/ir.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/indice/parser/fx.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/distribution/utils.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/bcg.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/optimization/underdetermined.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/finitedifference.hpp>
#include <dal/math/pde/pde.hpp>
#include <dal/math/pde/meshers/concentrating1dmesher.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/math/smooth.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/model/factory.hpp>
#include <dal/model/ivs.hpp>
#include <dal/model/utilities.hpp>
#include <dal/protocol/accrualperiod.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/conventions.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/protocol/payment.hpp>
#include <dal/protocol/underlying.hpp>
#include <dal/risk/report.hpp>
#include <dal/script/event.hpp>
#include <public/src/interp.hpp>
#include <public/src/script.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/json.hpp>
#include <dal/storage/splat.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/utilities/numerics.hpp>
#include "sim.hpp"

using namespace Dal;

namespace {
    struct Out { // collects a digest of everything a job sees
        std::string s;
        Out& operator<<(double x) {
            char b[40];
            snprintf(b, sizeof b, "%.17g ", x);
            s += b;
            return *this;
        }
        Out& operator<<(int x) { return *this << (double)x; }
        Out& operator<<(bool x) { return *this << (x ? 1.0 : 0.0); }
        Out& operator<<(const char* x) {
            s += x ? x : "(null)";
            s += ' ';
            return *this;
        }
        Out& operator<<(const String_& x) { return *this << x.c_str(); }
        Out& operator<<(const Date_& d) { return *this << (double)Date::ToExcel(d); }
        Out& operator<<(const Vector_<>& v) {
            for (double x : v)
                *this << x;
            return *this;
        }
    };

    // immutable objects all threads use at once
    struct Shared {
        Handle_<Interp1_> linear, cubic, linear2, cubic2;
        Handle_<Interp2_> plane, plane2;
        Handle_<PiecewiseConstant_> pwc, pwc2;
        Handle_<DiscountCurve_> base, disc, disc2;
        std::unique_ptr<PiecewiseLinear_> pwl, pwl2;
        Handle_<Script::ScriptProductData_> product, product2;
        std::unique_ptr<Script::ScriptProduct_> compiled, compiled2;
        Handle_<ModelData_> bs, dupire, bs2, dupire2;
        Handle_<Bag_> bags[3];
        std::string json[3];
        std::unique_ptr<Sparse::SymmetricDecomposition_> chol, chol2;
        std::unique_ptr<Sparse::TriDiagonal_> tri;
        std::unique_ptr<SquareMatrixDecomposition_> tridec;
        std::unique_ptr<DistributionBlack_> black, black2;
        std::unique_ptr<DistributionBachelier_> normal, normal2;
        std::unique_ptr<Random_> rng, bridge, rng2, bridge2;
        Handle_<Date::Increment_> step3m, step1m, step5b, step5ib;
        std::unique_ptr<Holidays_> sse, ib;
        std::unique_ptr<CountBusDays_> count, countIb, countAll;
        std::unique_ptr<IndexPathHistorical_> path, path2;
        std::unique_ptr<Dictionary_> dict;
        std::unique_ptr<AAD::Model_<double>> model;
        std::unique_ptr<Sparse::TriDiagonal_> weights;
        std::unique_ptr<SymmetricMatrixDecomposition_> diag;
        std::unique_ptr<SquareMatrixDecomposition_> lower;
        Matrix_<> square, tall;
        Matrix_<Cell_> table;
        Handle_<Report_> report;
        std::unique_ptr<AAD::MertonIVS_> ivs;
        std::unique_ptr<AAD::RiskView_<double>> view;
        Handle_<Fixings_> fixings;
        std::unique_ptr<FixHistory_> history;
        std::unique_ptr<Script::ScriptProduct_> fuzzy;
        size_t nested = 0;
    };

    // two equations in four unknowns
    struct Circle_ : Underdetermined::Function_ {
        double r;
        explicit Circle_(double radius) : r(radius) {}
        Vector_<> F(const Vector_<>& x) const override {
            Vector_<> f(2);
            f[0] = x[0] * x[0] + x[1] * x[1] + 0.5 * x[2] - r * r;
            f[1] = x[1] - x[2] * x[3] + 0.1 * x[0];
            return f;
        }
    };

    Vector_<> ramp(int n, double a, double b) {
        Vector_<> r;
        for (int i = 0; i < n; ++i)
            r.push_back(a + b * i + 0.01 * i * i);
        return r;
    }
    Handle_<Script::ScriptProductData_> script(int which) {
        Vector_<Cell_> d;
        Vector_<String_> e;
        d.push_back(Cell_("STRIKE")), e.push_back(which == 1 ? "1.5" : "1.4");
        d.push_back(Cell_(Date_(2024, 3, 1))), e.push_back(which == 1 ? "x = spot() alive = 1" : "x = 1.1 alive = 1 y = spot()");
        d.push_back(Cell_("START: 2024-05-07 END: 2024-08-07 FREQ: 1m CALENDAR: CN.SSE")), e.push_back(which == 1 ? "x = x + DCF(ACT365F, PeriodBegin, PeriodEnd)" : "x = x + DCF(ACT360, PeriodBegin, PeriodEnd) * spot()");
        d.push_back(Cell_(Date_(2024, 9, 2))), e.push_back("IF x > STRIKE:0.1 THEN pay pays MAX(spot() - STRIKE, 0.0) * alive ELSE pay pays 0 END");
        return Handle_<Script::ScriptProductData_>(new Script::ScriptProductData_("prd", d, e));
    }

    enum { N_INTERP = 1, N_CURVE = 2, N_PRODUCT = 4, N_MODEL = 8, N_BAG = 16, N_MATRIX = 32, N_BLACK = 64, N_RNG = 128, N_STEP = 256, N_CAL = 512, N_PATH = 1024, N_DICT = 2048, N_FUZZY = 4096, N_REPORT = 8192, N_IVS = 16384, N_FIX = 32768, N_TABLE = 65536 };
    void make(Shared& s, int need) { // only what the requests need: the rest of the library is untouched when the threads start
        Vector_<> x = ramp(8, -1.0, 0.5), f = ramp(8, 3.0, -0.25);
        Matrix_<> m(4, 5);
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 5; ++j)
                m(i, j) = 0.1 + 0.05 * i + 0.02 * j;
        if (need & (N_INTERP | N_BAG)) {
            s.linear.reset(Interp::NewLinear("lin", x, f));
            s.cubic.reset(Interp::NewCubic("cub", x, f, Interp::Boundary_(1, 0.0), Interp::Boundary_(2, 0.0)));
            s.plane.reset(Interp::NewLinear2("pl", ramp(4, 1, 1), ramp(5, 0.5, 0.5), m));
            Vector_<> w = ramp(8, -1.2, 0.6), g = ramp(8, 1.0, 0.75);
            s.linear2.reset(Interp::NewLinear("lin", w, g));
            s.cubic2.reset(Interp::NewCubic("cub", w, g, Interp::Boundary_(2, 0.5), Interp::Boundary_(1, 0.1)));
            m *= 1.5;
            s.plane2.reset(Interp::NewLinear2("pl", ramp(4, 0.5, 1.25), ramp(5, 0.25, 0.6), m));
            m *= 1.0 / 1.5;
        }
        if (need & (N_CURVE | N_BAG)) {
            Vector_<Date_> knots;
            for (int i = 0; i < 6; ++i)
                knots.push_back(Date_(2024, 1, 1).AddDays(90 * i));
            s.pwc.reset(new PiecewiseConstant_(knots, ramp(6, 0.01, 0.002), "pwc"));
            s.pwl = std::make_unique<PiecewiseLinear_>(knots, ramp(6, 0.01, 0.001), ramp(6, 0.011, 0.001));
            s.base.reset(NewDiscountPWLF("base", *s.pwl));
            s.disc.reset(NewDiscountPWLF("disc", *s.pwl, s.base));
            for (auto& d : knots)
                d = d.AddDays(35);
            s.pwc2.reset(new PiecewiseConstant_(knots, ramp(6, 0.03, -0.001), "pwc"));
            s.pwl2 = std::make_unique<PiecewiseLinear_>(knots, ramp(6, 0.03, -0.001), ramp(6, 0.021, 0.002));
            s.disc2.reset(NewDiscountPWLF("disc", *s.pwl2, s.base));
        }
        if (need & N_PRODUCT) {
            s.product = script(1);
            s.product2 = script(2);
            s.compiled = std::make_unique<Script::ScriptProduct_>(s.product->Product());
            s.compiled->PreProcess(false, false);
            s.compiled->Compile();
            s.compiled2 = std::make_unique<Script::ScriptProduct_>(s.product2->Product());
            s.compiled2->PreProcess(false, false);
            s.compiled2->Compile();
        }
        if (need & (N_MODEL | N_BAG)) {
            s.bs.reset(new BSModelData_("bs", 1.6, 0.2, 0.02, 0.01));
            s.dupire.reset(new DupireModelData_("dup", 1.6, 0.02, 0.01, ramp(4, 1, 500.0), ramp(5, 0.1, 0.5), m));
            s.bs2.reset(new BSModelData_("bs", 1.4, 0.3, 0.03, 0.0));
            m *= 2.0;
            s.dupire2.reset(new DupireModelData_("dup", 1.4, 0.03, 0.0, ramp(4, 1, 500.0), ramp(5, 0.1, 0.5), m));
            m *= 0.5;
            s.model = CreateModel<double>(s.bs);
        }
        if (need & N_BAG) {
            for (int b = 0; b < 3; ++b) { // alike in names and kinds, not in content
                Bag_::map_t bm;
                bm.insert(std::make_pair(String_("a"), Handle_<Storable_>(b ? s.linear2 : s.linear)));
                bm.insert(std::make_pair(String_("b"), b < 2 ? Handle_<Storable_>(s.pwc) : Handle_<Storable_>(s.pwc2)));
                bm.insert(std::make_pair(String_("c"), b != 1 ? Handle_<Storable_>(s.bs) : Handle_<Storable_>(s.bs2)));
                bm.insert(std::make_pair(String_("d"), Handle_<Storable_>(b == 2 ? s.linear2 : s.linear)));
                s.bags[b].reset(new Bag_("bag", bm));
                s.json[b] = JSON::WriteString(*s.bags[b]).c_str();
            }
        }
        if (need & N_MATRIX) {
            SquareMatrix_<> q(4);
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j < 4; ++j)
                    q(i, j) = i == j ? 2.0 + i : 0.3;
            s.chol.reset(CholeskyDecomposition(q));
            q(0, 0) = 5.0;
            s.chol2.reset(CholeskyDecomposition(q));
            s.tri = std::make_unique<Sparse::TriDiagonal_>(6);
            for (int i = 0; i < 6; ++i) {
                s.tri->Set(i, i, 3.0 + i);
                if (i)
                    s.tri->Set(i, i - 1, 0.5), s.tri->Set(i - 1, i, -0.25);
            }
            s.tridec.reset(s.tri->Decompose());
            s.weights = std::make_unique<Sparse::TriDiagonal_>(4);
            for (int i = 0; i < 4; ++i) {
                s.weights->Set(i, i, 2.0);
                if (i)
                    s.weights->Set(i, i - 1, -0.5), s.weights->Set(i - 1, i, -0.5);
            }
            s.diag.reset(DiagonalAsDecomposition(ramp(4, 1.0, 0.5)));
            SquareMatrix_<> l(4);
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j <= i; ++j)
                    l(i, j) = i == j ? 1.0 + i : 0.25 * (i - j);
            s.lower.reset(LowerTriangularAsDecomposition(l));
        }
        if (need & (N_MATRIX | N_TABLE)) {
            s.square.Resize(4, 4);
            s.tall.Resize(4, 3);
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j < 4; ++j) {
                    s.square(i, j) = i == j ? 1.5 + i : 0.2 + 0.01 * i * j;
                    if (j < 3)
                        s.tall(i, j) = 0.3 * i - 0.7 * j;
                }
            s.table.Resize(2, 3);
            s.table(0, 0) = 1.5, s.table(0, 1) = "text", s.table(0, 2) = Date_(2024, 3, 1), s.table(1, 0) = true, s.table(1, 2) = "a,b";
        }
        if (need & N_FUZZY) {
            s.fuzzy = std::make_unique<Script::ScriptProduct_>(script(1)->Product());
            s.nested = s.fuzzy->PreProcess(true, false);
        }
        if (need & N_REPORT) {
            Vector_<Report::Axis_> ax(2);
            ax[0].name_ = "TRADE", ax[0].size_ = 3, ax[0].labels_.push_back("id");
            ax[1].name_ = "VIEW", ax[1].size_ = 2, ax[1].labels_.push_back("what"), ax[1].labels_.push_back("when");
            Report_* r = new Report_("rep", ax);
            s.report.reset(r);
            for (int i = 0; i < 3; ++i)
                r->AddHeaderRow("TRADE", i, Vector_<Cell_>(1, Cell_(String_("t") + String::FromInt(i))));
            for (int i = 0; i < 2; ++i)
                r->AddHeaderRow("VIEW", i, Vector_<Cell_>(2, Cell_(1.0 + i)));
            r->SetAll(ramp(6, 0.5, 0.25));
        }
        if (need & N_IVS) {
            s.ivs = std::make_unique<AAD::MertonIVS_>(100.0, 0.2, 0.1, -0.1, 0.15);
            s.view = std::make_unique<AAD::RiskView_<double>>();
        }
        if (need & N_FIX) {
            std::map<DateTime_, double> fx;
            for (int i = 0; i < 5; ++i)
                fx[DateTime_(Date_(2024, 2, 1 + i), 0.5)] = 1.0 + 0.1 * i;
            s.fixings.reset(new Fixings_("EQ[IBM]", fx));
            s.history = std::make_unique<FixHistory_>(fx);
        }
        if (need & N_BLACK)
            s.black = std::make_unique<DistributionBlack_>(1.5, 0.3), s.black2 = std::make_unique<DistributionBlack_>(1.6, 0.2), s.normal = std::make_unique<DistributionBachelier_>(1.5, 0.3),
            s.normal2 = std::make_unique<DistributionBachelier_>(1.7, 0.2);
        if (need & N_RNG) {
            s.rng.reset(New(RNGType_("MRG32"), 7, 3));
            s.rng2.reset(New(RNGType_("MRG32"), 9, 3));
            s.bridge2.reset(new BrownianBridge_(std::unique_ptr<Random_>(New(RNGType_("IRN"), 6, 4))));
            s.bridge.reset(new BrownianBridge_(std::unique_ptr<Random_>(New(RNGType_("IRN"), 5, 4))));
        }
        if (need & N_STEP)
            s.step3m = Date::ParseIncrement("3M"), s.step1m = Date::ParseIncrement("1M");
        if (need & N_CAL) {
            s.sse = std::make_unique<Holidays_>("CN.SSE");
            s.step5b = Date::NBusDays(5, *s.sse);
            s.count = std::make_unique<CountBusDays_>(*s.sse);
            s.ib = std::make_unique<Holidays_>("CN.IB");
            s.step5ib = Date::NBusDays(5, *s.ib);
            s.countIb = std::make_unique<CountBusDays_>(*s.ib);
            s.countAll = std::make_unique<CountBusDays_>(Holidays_("CN.SSE CN.IB"));
        }
        if (need & N_PATH) {
            std::map<DateTime_, double> fx;
            for (int i = 0; i < 5; ++i)
                fx[DateTime_(Date_(2024, 2, 1 + i), 0.5)] = 1.0 + 0.1 * i;
            s.path = std::make_unique<IndexPathHistorical_>(fx);
            for (auto& f : fx)
                f.second += 0.07;
            s.path2 = std::make_unique<IndexPathHistorical_>(fx);
        }
        if (need & N_DICT) {
            s.dict = std::make_unique<Dictionary_>();
            s.dict->Insert("alpha", Cell_(1.5));
            s.dict->Insert("beta", Cell_("text"));
        }
    }
    template <class T_> void all(Out& o, const Vector_<T_>& v) {
        for (auto& x : v)
            o << x.String();
    }

    template <class F_> void attempt(Out& o, F_ f) { // an error of the library is an answer, too
        try {
            f();
        } catch (const Exception_& e) {
            o << "error" << (strstr(e.what(), "|") ? strrchr(e.what(), '|') : e.what());
        } catch (const std::logic_error& e) {
            o << "error" << e.what();
        }
    }
    // The i-th argument of a request, one of n: each argument varies by itself, so that requests agree in some and differ in others.
    int pick(int k, int i, int n) {
        unsigned h = (unsigned)(k + 1) * 0x9E3779B1u + (unsigned)i * 0x85EBCA77u;
        h = (h ^ (h >> 15)) * 0x2C1B3C6Du;
        h = (h ^ (h >> 12)) * 0x297A2D39u;
        return (int)((h ^ (h >> 15)) % (unsigned)n);
    }
    struct Job {
        const char* name;
        int need;
        void (*run)(const Shared&, int, Out&);
    };
    const Job JOBS[] = {
        {"dates", 0, [](const Shared&, int k, Out& o) {
             Date_ d = Date_(2024, 1, 31).AddDays(37 * pick(k, 0, 4));
             static const char* T[] = {"2024-02-29", "2023-12-31", "2024-01-31", "2024/02/29", "20240229", "2024-2-9"};
             o << Date::ToString(d) << Date::FromString(T[pick(k, 1, 3)]) << Date::EndOfMonth(d) << Date::AddMonths(d, 1 + pick(k, 2, 4), true) << Date::AddMonths(d, 1 + pick(k, 2, 4), false)
               << (int)Date::DayOfWeek(d) << (int)Date::DaysInMonth(2023 + pick(k, 3, 3), 2) << (int)Date::DaysInMonth(2024, 2) << Date::IsDateString(T[pick(k, 4, 6)])
               << DateTime::ToString(DateTime_(d, 10, 20 + pick(k, 5, 3), 30)) << Date::MonthFromFutureCode("FGHJ"[pick(k, 6, 4)]) << d.AddDays(1) << Date::Year(d) << Date::Month(d) << Date::Day(d);
             attempt(o, [&] { o << Date::FromString(T[pick(k, 4, 6)]); });
         }},
        {"increments", N_STEP | N_CAL, [](const Shared& s, int k, Out& o) {
             static const char* T[] = {"1M", "2Y", "10D", "IMM", "CDS", "3M;-1D", "1W", "EOM", "5BD;CN.SSE", "5BD;CN.IB", "10CD", "1M,2W"};
             Date_ d = Date_(2024, 1, 31).AddDays(11 * pick(k, 0, 5));
             for (int j = 1; j < 3; ++j)
                 try {
                     auto i = Date::ParseIncrement(T[pick(k, j, 12)]);
                     o << i->FwdFrom(d) << i->BackFrom(d);
                 } catch (const Exception_& e) {
                     o << "error";
                 }
             auto b = Date::NBusDays(2 + pick(k, 3, 3), pick(k, 4, 2) ? *s.sse : *s.ib);
             o << (d + *s.step3m) << (d - *s.step3m) << (d + *s.step5b) << (d - *s.step5b) << (d + *s.step5ib) << (d - *s.step5ib) << (d + *b) << (d - *b) << IsLiborTenor(pick(k, 5, 2) ? "3M" : "5Y")
               << IsSwapTenor(pick(k, 6, 2) ? "3M" : "5Y");
         }},
        {"calendars", N_CAL, [](const Shared& s, int k, Out& o) {
             Date_ d = Date_(2023, 9, 28).AddDays(pick(k, 0, 12)), e = d.AddDays(20 + 20 * pick(k, 1, 3));
             for (const Holidays_* h : {(const Holidays_*)s.sse.get(), (const Holidays_*)s.ib.get(), &Holidays::None()})
                 o << h->IsHoliday(d) << h->IsWorkWeekends(d) << Holidays::NextBus(*h, d) << Holidays::PrevBus(*h, d) << h->String();
             const CountBusDays_* c[] = {s.count.get(), s.countIb.get(), s.countAll.get()};
             o << (*c[pick(k, 2, 3)])(d, e) << (*c[pick(k, 3, 3)])(d, e) << (*c[pick(k, 4, 3)])(d, d.AddDays(60)) << (*c[pick(k, 5, 3)])(e, d);
         }},
        {"new calendars", 0, [](const Shared&, int k, Out& o) { // nothing is there yet
             Date_ d = Date_(2023, 9, 20).AddDays(7 * pick(k, 0, 4)), e = d.AddDays(40 + 30 * pick(k, 1, 2));
             static const char* C[] = {"CN.SSE", "CN.IB", "CN.SSE CN.IB", "CN.IB CN.SSE", "", "CN.NONE", "CN.SSE CN.SSE"};
             for (int j = 2; j < 4; ++j)
                 attempt(o, [&] {
                     Holidays_ h(C[pick(k, j, 7)]);
                     o << h.String() << Holidays::NextBus(h, d) << Holidays::PrevBus(h, d);
                     CountBusDays_ c(h);
                     o << c(d, e) << c(d, d.AddDays(3));
                     Holidays_ again(C[pick(k, j, 7)]);
                     o << again.String() << Holidays::NextBus(again, e) << again.IsHoliday(d.AddDays(11)) << again.IsWorkWeekends(d.AddDays(10));
                 });
         }},
        {"schedules", N_STEP | N_CAL, [](const Shared& s, int k, Out& o) {
             static const char* CONV[] = {"Unadjusted", "Following", "ModifiedFollowing"};
             attempt(o, [&] {
                 auto v = MakeSchedule(Date_(2024, 1, 31), pick(k, 0, 2) ? Cell_(Date_(2025, 1, 31)) : Cell_("9M"), pick(k, 1, 2) ? *s.sse : *s.ib, pick(k, 2, 2) ? s.step3m : s.step1m,
                                       DateGeneration_(pick(k, 3, 2) ? "Forward" : "Backward"), BizDayConvention_(CONV[pick(k, 4, 3)]));
                 for (auto& d : v)
                     o << d;
             });
             for (auto& d : DateGenerate(Date_(2024, 1, 15), Date_(2024, 9 + 2 * pick(k, 5, 2), 15), pick(k, 6, 2) ? s.step3m : s.step1m))
                 o << d;
         }},
        {"day counts", 0, [](const Shared&, int k, Out& o) {
             static const char* B[] = {"ACT/365F", "ACT/360", "ACT/ACT", "30/360", "BOND", "MONEY", "nonsense"};
             try {
                 DayBasis_ b(B[pick(k, 0, 7)]);
                 Date_ f = Date_(2023, 11, 28 + pick(k, 1, 3)), t(2024, 3, 29 + pick(k, 2, 3));
                 DayBasis::Context_ c(false, f, Date_(2024 + pick(k, 3, 3), 2 + pick(k, 4, 2), 28), pick(k, 5, 2) ? 12 : 6);
                 Date_ g = pick(k, 6, 2) ? f : f.AddDays(120);
                 o << DayBasis_("ACT/365L")(g, t, &c) << b(f, t, &c);
                 o << b.String() << b(f, t, nullptr) << DayBasis_("ACT/360")(f, t, nullptr) << b(t, f, nullptr) << b(f, Date_(2025, 2, 28), nullptr);
             } catch (const Exception_&) {
                 o << "error";
             }
             all(o, DayBasisListAll());
         }},
        {"enumerations", 0, [](const Shared&, int k, Out& o) {
             static const char* P[] = {"3M", "6M", "12M"};
             static const char* R[] = {"LIBOR_3M_LCH", "LIBOR_6M_CME", "LIBOR_3M_CME", "LIBOR_6M_LCH"};
             o << OptionType_(pick(k, 0, 2) ? "CALL" : "PUT").String() << Ccy_(pick(k, 1, 2) ? "USD" : "CNY").String();
             attempt(o, [&] { o << PeriodLength_(P[pick(k, 2, 3)]).Months(); });
             attempt(o, [&] { o << TradedRate_(R[pick(k, 3, 4)]).Period().String() << TradedRate_(R[pick(k, 4, 4)]).Clearer().String(); });
             attempt(o, [&] { o << FindRate(PeriodLength_(P[pick(k, 5, 3)]), Clearer_(pick(k, 6, 2) ? "LCH" : "CME")).String(); });
             o << RNGType_(pick(k, 7, 2) ? "IRN" : "MRG32").String();
             all(o, OptionTypeListAll());
             all(o, CcyListAll());
             all(o, PeriodLengthListAll());
             all(o, TradedRateListAll());
             all(o, ClearerListAll());
             all(o, CollateralTypeListAll());
             all(o, DateGenerationListAll());
             all(o, BizDayConventionListAll());
             all(o, RNGTypeListAll());
             try {
                 Ccy_ bad("XYZ");
                 o << bad.String();
             } catch (const Exception_&) {
                 o << "error";
             }
         }},
        {"conventions", 0, [](const Shared&, int k, Out& o) {
             static const char* C[] = {"USD", "EUR", "GBP", "JPY"};
             Ccy_ c(C[pick(k, 0, 4)]);
             attempt(o, [&] { o << Ccy::Conventions::LiborFixDays()(c); });
             attempt(o, [&] { o << Ccy::Conventions::LiborDayBasis()(c).String(); });
             attempt(o, [&] { o << Ccy::Conventions::SwapFixedDayBasis()(c).String(); });
             attempt(o, [&] { o << Ccy::Conventions::LiborFixHolidays()(c).String(); });
             attempt(o, [&] { o << Ccy::Conventions::SwapPayHolidays()(c).String(); });
             Index::Libor_ l(c, TradedRate_(pick(k, 1, 2) ? "LIBOR_3M_LCH" : "LIBOR_6M_CME"));
             attempt(o, [&] { o << l.Name() << l.StartDate(DateTime_(Date_(2024, 4, 3 + pick(k, 2, 3)), 0.5)); });
             attempt(o, [&] { o << Date::NominalMaturity(Date_(2024, 1, 29 + pick(k, 3, 3)), PeriodLength_(pick(k, 4, 2) ? "3M" : "6M"), c); });
         }},
        {"indices", N_PATH, [](const Shared& s, int k, Out& o) {
             static const char* N[] = {"EQ[IBM]", "FX[USD/JPY]", "EQ[X]@2024-01-24", "EQ[Y]>3M", "NO[SUCH]", "EQ[X]@2024-01-25", "EQ[X]>3M", "EQ[Y]"};
             try {
                 std::unique_ptr<Index_> i(Index::Parse(N[pick(k, 0, 8)]));
                 o << i->Name();
                 o << Index::Clone(*i)->Name();
             } catch (const Exception_&) {
                 o << "error";
             }
             DateTime_ t(Date_(2024, 2, 1 + pick(k, 1, 5)), 0.5);
             double lo = 1.05 + 0.1 * pick(k, 2, 2), hi = 1.25 + 0.1 * pick(k, 3, 2);
             for (auto p : {s.path.get(), s.path2.get()})
                 o << p->Expectation(t, std::make_pair(lo, hi)) << p->FixInRangeProb(t, std::make_pair(lo, hi), 0.02 + 0.05 * pick(k, 4, 2));
         }},
        {"interpolators", N_INTERP, [](const Shared& s, int k, Out& o) {
             for (int i = 0; i < 8; ++i) {
                 double x = -1.5 + 0.7 * ((i * 5 + pick(k, 0, 9)) % 9), y = 0.4 * ((i + pick(k, 1, 8)) % 8);
                 bool swap = pick(k, 2, 2);
                 for (int j = 0; j < 2; ++j) {
                     bool b = swap != (j == 1);
                     o << (*(b ? s.linear : s.linear2))(x) << (*(b ? s.cubic : s.cubic2))(x) << (*(b ? s.plane : s.plane2))(x + 2, y);
                 }
             }
         }},
        {"curves", N_CURVE, [](const Shared& s, int k, Out& o) {
             Date_ a = Date_(2024, 1, 1).AddDays(18 * pick(k, 0, 8)), b = a.AddDays(100 + 40 * pick(k, 1, 3));
             bool swap = pick(k, 2, 2);
             for (int j = 0; j < 2; ++j) {
                 bool knot = false, z = swap != (j == 1);
                 auto& c = z ? *s.pwc : *s.pwc2;
                 auto& l = z ? *s.pwl : *s.pwl2;
                 o << PWC::F(c, a, &knot) << knot << PWC::Integral(c, a, b) << l.IntegralTo(b) << l.ValueAt(a) << l.ValueAt(a, false) << (*(z ? s.disc : s.base))(a, b) << (*s.disc2)(a, b);
             }
             Vector_<const YCComponent_*> poll;
             s.disc->Poll(&poll);
             o << (int)poll.size();
         }},
        {"json", N_BAG, [](const Shared& s, int k, Out& o) {
             for (int j = 0; j < 2; ++j) {
                 int b = pick(k, j, 3);
                 if (pick(k, 5 + j, 2))
                     o << JSON::WriteString(*s.bags[b]);
                 auto h = JSON::ReadString(s.json[b].c_str(), true);
                 o << h->type_ << h->name_ << JSON::WriteString(*h);
             }
             if (pick(k, 3, 4) == 0)
                 attempt(o, [&] { JSON::ReadString(s.json[0].substr(0, s.json[0].size() / (size_t)(2 + pick(k, 4, 3))).c_str(), true); });
         }},
        {"tables", N_BAG, [](const Shared& s, int k, Out& o) {
             auto t = Splat(*s.bags[pick(k, 0, 3)]);
             o << t.Rows() << t.Cols();
             auto h = UnSplat(t, true);
             o << JSON::WriteString(*h);
             for (auto& l : Cell::ToStringLines(t))
                 o << l;
             attempt(o, [&] { o << UnSplat(Splat(*s.bags[pick(k, 1, 3)]), pick(k, 2, 2))->name_; });
         }},
        {"scripts", N_PRODUCT, [](const Shared& s, int k, Out& o) {
             auto& d = pick(k, 0, 2) ? s.product : s.product2;
             auto p = d->Product();
             bool fuzzy = pick(k, 1, 2);
             p.PreProcess(fuzzy, fuzzy && pick(k, 2, 2));
             std::ostringstream t;
             t.exceptions(std::ios::badbit); // or the stream keeps a failed allocation to itself
             p.Debug(t);
             o << t.str().c_str() << (int)p.EventDates().size() << (int)p.PayOffIdx();
             if (!fuzzy)
                 p.Compile();
             o << p.TimeLine() << DebugScriptProduct(d);
         }},
        {"script errors", 0, [](const Shared&, int k, Out& o) {
             static const char* E[] = {"x = ", "IF x > 1 THEN y = 2", "x pays", "FOO(1)", "x = 1 + ) 2", "x = 1 y = x", "x = MAX(1)", "MAX = 2", "x = 1 +", "x = (1 + 2"};
             Vector_<Cell_> d(1, Cell_(Date_(2024, 9, 2)));
             Vector_<String_> e(1, E[pick(k, 0, 10)]);
             try {
                 Script::ScriptProduct_ p(d, e);
                 p.PreProcess(false, false);
                 o << "accepted";
             } catch (const Exception_& x) {
                 o << x.what();
             }
         }},
        {"shared product", N_PRODUCT, [](const Shared& s, int k, Out& o) { // one compiled product, many evaluations
             auto& p = pick(k, 0, 2) ? *s.compiled : *s.compiled2;
             int n = pick(k, 1, 5);
             auto scen = p.BuildScenario<double>();
             AAD::AllocatePath(p.DefLine(), *scen);
             AAD::InitializePath(*scen);
             for (size_t i = 0; i < scen->size(); ++i) {
                 (*scen)[i].numeraire_ = 1.0 + 0.01 * (double)i;
                 for (auto& f : (*scen)[i].forwards_)
                     f[0] = 1.3 + 0.1 * (double)((i + n) % 5);
                 (*scen)[i].spot_ = 1.3 + 0.1 * (double)((i + n) % 5);
             }
             auto ev = p.BuildEvaluator<double>();
             p.Evaluate(*scen, ev);
             for (auto v : ev.VarVals())
                 o << v;
             auto st = p.BuildEvalState<double>();
             p.EvaluateCompiled(*scen, st);
             for (auto v : st.VarVals())
                 o << v;
         }},
        {"models", N_PRODUCT | N_MODEL, [](const Shared& s, int k, Out& o) {
             Handle_<ModelData_> M[] = {s.bs, s.dupire, s.bs2, s.dupire2};
             auto& p = pick(k, 1, 2) ? *s.compiled : *s.compiled2;
             auto m = CreateModel<double>(M[pick(k, 0, 4)]);
             auto c = s.model->Clone();
             m->Allocate(p.TimeLine(), p.DefLine());
             m->Init(p.TimeLine(), p.DefLine());
             o << (int)m->SimDim() << (int)m->NumParams() << (int)c->NumParams();
             for (auto& n : m->ParameterLabels())
                 o << n;
             auto scen = p.BuildScenario<double>();
             AAD::AllocatePath(p.DefLine(), *scen);
             AAD::InitializePath(*scen);
             m->GeneratePath(ramp((int)m->SimDim(), -0.5 + 0.2 * pick(k, 2, 2), 0.1), scen.get());
             for (auto& z : *scen)
                 o << z.numeraire_ << z.spot_;
         }},
        {"generators", N_RNG, [](const Shared& s, int k, Out& o) {
             std::unique_ptr<Random_> a((pick(k, 0, 2) ? s.rng : s.rng2)->Clone()), b((pick(k, 1, 2) ? s.bridge : s.bridge2)->Clone());
             a->SkipTo((size_t)(pick(k, 2, 4) * 5));
             if (pick(k, 3, 2))
                 b->SkipTo((size_t)(pick(k, 4, 4) * 3));
             Vector_<> x(3), y(4);
             for (int i = 0; i < 3; ++i) {
                 a->FillNormal(&x);
                 b->FillNormal(&y);
                 o << x << y;
                 a->FillUniform(&x);
                 b->FillUniform(&y);
                 o << x << y;
             }
         }},
        {"linear algebra", N_MATRIX, [](const Shared& s, int k, Out& o) {
             Vector_<> b = ramp(4, 1 + pick(k, 0, 4), 0.5), x(4), c = ramp(6, 1, 0.25 * pick(k, 1, 4)), y(6);
             s.chol2->Solve(b, &x);
             o << x;
             s.chol->Solve(b, &x);
             o << x;
             s.chol->Multiply(b, &x);
             o << x;
             s.tridec->SolveLeft(c, &y);
             o << y;
             s.tridec->SolveRight(c, &y);
             o << y;
             s.tri->MultiplyLeft(c, &y);
             o << y << (*s.tri)(1, 2) << (*s.tri)(0, 5);
             Vector_<> z(6, 0.0);
             Sparse::BCGSolve(*s.tri, c, 1e-12, 1e-12, 50, &z);
             o << z;
             s.chol->MakeCorrelated(b.begin(), &x);
             o << x;
         }},
        {"numerics", N_BLACK, [](const Shared& s, int k, Out& o) {
             double x = -2.0 + 0.37 * pick(k, 0, 12), K = 1.2 + 0.1 * pick(k, 1, 4), F = 1.5 + 0.1 * pick(k, 2, 2), v = 0.3 + 0.1 * pick(k, 3, 2);
             o << NCDF(x) << NPDF(x) << InverseNCDF(0.05 + 0.07 * pick(k, 4, 12)) << NCDF(x, false) << InverseNCDF(0.9, false, pick(k, 5, 2)) << InverseNCDF(0.9, true, true);
             static const char* O[] = {"CALL", "PUT", "STRADDLE"};
             OptionType_ t(O[pick(k, 6, 3)]);
             double p = s.black->OptionPrice(K, t);
             o << p << s.black2->OptionPrice(K, t) << s.black->VolVega(K, t) << s.black2->VolVega(K, t) << Distribution::BlackIV(1.5, K, t, p) << Distribution::BlackGreeks(F, v, K, t) << Distribution::BachelierGreeks(F, v, K, t)
               << Distribution::BlackOpt(F, v, K, t) << Distribution::BachelierOpt(F, v, K, t);
             for (auto& n : s.black->ParameterNames())
                 o << n;
             attempt(o, [&] {
                 for (auto& d : s.black->ParameterDerivatives(1.3, t, s.black->ParameterNames()))
                     o << d.first << d.second;
             });
             auto& n = pick(k, 9, 2) ? *s.normal : *s.normal2;
             o << n.OptionPrice(K, t) << n.VolVega(K, t) << s.normal2->OptionPrice(K, t);
             attempt(o, [&] { o << Distribution::BachelierIV(1.5, K, t, s.normal->OptionPrice(K, t), 0.2); });
             Brent_ b(1.0 + pick(k, 7, 5));
             Converged_ done(1e-10, 1e-10);
             for (int i = 0; i < 60; ++i) {
                 double z = b.NextX();
                 if (done(b, z * z * z - 7.0 - pick(k, 8, 3))) {
                     o << z;
                     break;
                 }
             }
         }},
        {"finite differences", 0, [](const Shared&, int k, Out& o) {
             Uniform1DMesher_ m(0.5, 2.5 + pick(k, 0, 2), 9);
             PDE::FD1D_ fd(m);
             fd.Init();
             fd.R() = Vector_<>(9, 0.02);
             fd.Mu() = Vector_<>(9, 0.01 * pick(k, 1, 4));
             fd.Var() = Vector_<>(9, 0.04 + 0.01 * pick(k, 2, 3));
             Vector_<> v = ramp(9, 0, 0.25);
             for (int i = 0; i < 3; ++i)
                 fd.RollBwd(0.1 + 0.05 * pick(k, 3, 2), pick(k, 4, 2) ? 0.5 : 1.0, v);
             o << v;
             fd.Var() = Vector_<>(9, 0.09);
             fd.Mu() = Vector_<>(9, 0.02);
             fd.RollBwd(0.1 + 0.05 * pick(k, 3, 2), pick(k, 4, 2) ? 0.5 : 1.0, v);
             o << v;
         }},
        {"text", N_DICT, [](const Shared& s, int k, Out& o) {
             for (auto& w : String::Split(pick(k, 0, 2) ? "a,b,,c" : "d;,e", pick(k, 1, 2) ? ',' : ';', pick(k, 2, 2)))
                 o << w;
             o << String::ToDouble("1.25") << String::ToInt("42") << String::FromDouble(0.1 * k) << String::IsNumber("12e") << String::Condensed("A b_c") << String::NextName("curve9")
               << String::ToBool(k % 2 ? "TRUE" : "F") << Cell::ToString(Cell_("x")) << Cell::ToDouble(Cell_(2.5)) << Cell::ToInt(Cell_(3.0)) << Cell::IsInt(Cell_(3.5))
               << Cell::CoerceToString(Cell_(Date_(2024, 1, 2))) << Cell::CoerceToString(Cell::ConvertString("1.75")) << Dictionary::ToString(*s.dict)
               << Dictionary::ToString(Dictionary::FromString("K=1;L=2")) << Cell::ToDouble(s.dict->At("alpha")) << s.dict->Has("gamma");
             try {
                 s.dict->At("missing");
             } catch (const Exception_& e) {
                 o << e.what();
             }
         }},
        {"optimisation", N_MATRIX, [](const Shared& s, int k, Out& o) {
             // the controls have no constructor that can be linked; only their numbers are read
             alignas(Underdetermined::Controls_) char room[sizeof(Underdetermined::Controls_)] = {};
             auto& c = reinterpret_cast<Underdetermined::Controls_&>(room);
             c.maxEvaluations_ = k % 4 == 3 ? 3 : 40, c.maxRestarts_ = 10, c.maxBacktrackTries_ = 5, c.restartTolerance_ = 0.4, c.backtrackTolerance_ = 0.1, c.maxBacktrack_ = 0.8;
             Circle_ f(1.0 + 0.1 * k);
             Vector_<> x(4, 0.5), tol(2, 1e-6);
             attempt(o, [&] { o << Underdetermined::Find(f, x, tol, *s.chol, c); });
             if (k % 4 == 2)
                 attempt(o, [&] { o << Underdetermined::Approximate(f, x, tol, 1e-3, *s.weights, c); });
         }},
        {"matrices", N_MATRIX, [](const Shared& s, int k, Out& o) {
             Matrix_<> corr, r;
             o << Matrix::Vols(s.square, &corr);
             for (double x : corr)
                 o << x;
             Matrix::Multiply(s.square, s.tall, &r);
             for (double x : r)
                 o << x;
             Vector_<> v = ramp(4, k, 0.5), b, w = ramp(3, k, -0.5);
             Matrix::Multiply(s.square, v, &b);
             o << b;
             Matrix::Multiply(v, s.tall, &b);
             o << b << Matrix::WeightedInnerProduct(v, s.square, v);
             Matrix_<> h(4, 4);
             h.Fill(0.0);
             Matrix::AddJSquaredToUpper(s.tall, &h);
             for (double x : h)
                 o << x;
             auto t = Matrix::MakeTranspose(s.tall);
             Matrix::Append(&t, s.square);
             o << t.Rows() << t.Cols() << t(2, 3) << t(6, 3);
             auto vv = Matrix::ToVectors(t, k % 2);
             o << vv[0] << vv.back();
             b = Vector_<>(4);
             s.diag->Solve(v, &b);
             o << b;
             s.diag->MakeCorrelated(v.begin(), &b);
             o << b;
             s.lower->SolveLeft(v, &b);
             o << b;
             s.lower->SolveRight(v, &b);
             o << b;
             s.lower->MultiplyLeft(v, &b);
             o << b;
             SquareMatrix_<> q;
             s.chol->QForm(Matrix::MakeTranspose(s.tall), &q);
             for (int i = 0; i < q.Rows(); ++i)
                 for (int j = 0; j < q.Cols(); ++j)
                     o << q(i, j);
             std::unique_ptr<Sparse::SymmetricDecomposition_> d(s.weights->DecomposeSymmetric());
             d->Solve(v, &b);
             o << b;
             std::unique_ptr<SquareMatrixDecomposition_> e(s.tri->Decompose());
             Vector_<> c = ramp(6, 1, 0.3), y(6);
             e->SolveLeft(c, &y);
             o << y;
             Vector_<> z(4, 0.0);
             Sparse::CGSolve(*s.weights, v, 1e-10, 1e-10, 40, &z);
             o << z;
         }},
        {"table formats", N_TABLE, [](const Shared& s, int k, Out& o) {
             static const char* F[] = {"1", "1T", "1,2", "1;2T", "(1,0);2I", "1*", "1:2", "1.2", "nonsense", "3", "((1))", "(1;2),1"};
             auto other = Matrix::MakeTranspose(s.table);
             attempt(o, [&] {
                 auto m = Matrix::Format({&s.table, &other}, F[k % 12]);
                 o << m.Rows() << m.Cols();
                 for (auto& l : Cell::ToStringLines(m))
                     o << l;
             });
             for (auto& c : s.table)
                 o << Cell::CoerceToString(c) << Cell::IsEmpty(c) << Cell::IsString(c);
         }},
        {"smoothing", 0, [](const Shared&, int k, Out& o) {
             Vector_<> x = ramp(7, 0.0, 0.5), y = ramp(7, 1.0, -0.3), w = ramp(7, 1.0, 0.1);
             y[3] += 0.5;
             o << SmoothedVals(x, y, w, 0.1 * (k % 4)) << SmoothedVals(x, y);
             Concentrating1dMesher_ m(0.0, 10.0, 11, std::make_pair(4.0, 0.1 + 0.05 * k), k % 2);
             o << m.Locations();
             for (int i = 0; i + 1 < m.Size(); ++i)
                 o << m.DPlus(i) << m.DMinus(i + 1);
         }},
        {"volatility surfaces", N_IVS, [](const Shared& s, int k, Out& o) {
             double strike = 85.0 + 3.0 * k, mat = 0.5 + 0.25 * (k % 3);
             o << s.ivs->ImpliedVol(strike, mat) << s.ivs->Call(strike, mat) << s.view->Spread(strike, mat);
             if (k % 3 == 0)
                 o << s.ivs->LocalVol(strike, mat, s.view.get()) << AAD::BlackScholesIVol(100.0, strike, 20.0, mat) << AAD::BachelierIVol(100.0, strike, 20.0, mat);
             if (k % 4 == 1) {
                 auto c = AAD::DupireCalib<double>(*s.ivs, ramp(3, 80.0, 20.0), 25.0, ramp(2, 0.5, 0.5), 1.0, *s.view);
                 o << c.spots_ << c.times_;
                 for (double x : c.lVols_)
                     o << x;
             }
         }},
        {"reports", N_REPORT, [](const Shared& s, int k, Out& o) {
             auto at = s.report->MakeAddress();
             at["TRADE"] = k % 3;
             at["VIEW"] = k % 2;
             const Report_& r = *s.report;
             o << r[at] << r.Size("TRADE") << r.Size("VIEW") << Cell::CoerceToString(r.Header("TRADE").values_(k % 3, 0));
             for (auto& a : r.Axes())
                 o << a;
             attempt(o, [&] { o << r.Size("NONE"); });
             String_ j = JSON::WriteString(r);
             o << j << JSON::WriteString(*JSON::ReadString(j, true));
         }},
        {"payments", 0, [](const Shared&, int k, Out& o) {
             Date_ a = Date_(2024, 1, 31).AddDays(20 * k), b = a.AddDays(91 + k);
             static const char* B[] = {"ACT/365F", "ACT/360", "30/360"};
             AccrualPeriod_ p(a, b, 1e6, DayBasis_(B[k % 3]));
             o << p.dcf_ << p.isStub_ << p.notional_;
             Payment_ y(DateTime_(a, 0.25), Ccy_(k % 2 ? "USD" : "EUR"), b, "leg", Payment::Info_("coupon", DateTime_(a), Payment::Conditions_(), &p), a);
             Payment_ z(y);
             o << z.stream_ << z.date_ << z.ccy_.String() << z.tag_.description_ << z.tag_.period_->dcf_ << (int)z.tag_.conditions_.exerciseCondition_ << Payment::Null().IsEmpty();
             Underlying_ u, v;
             u.Include(Ccy_("USD"), a).Include(Ccy_("USD"), b).Include(String_("XYZ"), a).Include(IndexKey_(Handle_<Index_>(Index::Parse("EQ[IBM]"))), DateTime_(a, 0.5));
             v.Include(Ccy_("EUR"), b).Include(String_("xyz"), b).Include(IndexKey_(Handle_<Index_>(Index::Parse("EQ[X]>3M"))), DateTime_(b, 0.5));
             u += v;
             for (auto& c : u.payCcys_)
                 o << c.first.String() << c.second;
             for (auto& c : u.credits_)
                 o << c.first << c.second;
             for (auto& c : u.indices_)
                 o << c.first.name_ << c.second.Date();
             attempt(o, [&] { o << Libor::StartFromFix(Ccy_("USD"), a); });
             attempt(o, [&] { o << DateTime::ToString(Libor::FixFromStart(Ccy_("USD"), b)); });
             LiborRate_ l(DateTime_(a, 0.5), Ccy_("USD"), TradedRate_("LIBOR_3M_LCH"));
             o << l.rate_.String() << l.ccy_.String();
         }},
        {"fixings", N_FIX, [](const Shared& s, int k, Out& o) {
             DateTime_ t(Date_(2024, 2, 1 + k % 7), 0.5);
             attempt(o, [&] { o << s.history->Find(t); });
             o << s.history->Find(t, true) << FixHistory::Empty().Find(t, true);
             FixingsAccess_ acc;
             acc.fixings_[s.fixings->name_] = s.fixings;
             ENV_SEED(acc);
             attempt(o, [&] { o << Index::PastFixing(_env, "EQ[IBM]", t, k % 2); });
             attempt(o, [&] { o << Index::PastFixing(_env, "EQ[NONE]", t, k % 2); });
             std::unique_ptr<Index_> i(Index::Parse("EQ[IBM]"));
             attempt(o, [&] { o << i->Fixing(_env, t); });
             o << JSON::WriteString(*s.fixings);
         }},
        {"adjoint evaluation", N_PRODUCT | N_FUZZY, [](const Shared& s, int k, Out& o) { // shared products, a tape for each thread
             using AAD::Number_;
             AAD::Tape_ tape;
             struct Scope {
                 AAD::Tape_* old = Number_::Tape();
                 explicit Scope(AAD::Tape_* t) { Number_::SetTape(t); }
                 ~Scope() { Number_::SetTape(old); }
             } scope(&tape);
             auto& p = k % 2 ? *s.fuzzy : *s.compiled;
             auto scen = p.BuildScenario<Number_>();
             AAD::AllocatePath(p.DefLine(), *scen);
             AAD::InitializePath(*scen);
             Vector_<Number_> in(scen->size());
             for (size_t i = 0; i < scen->size(); ++i) {
                 in[i] = Number_(1.3 + 0.1 * (double)((i + k) % 5));
                 (*scen)[i].numeraire_ = Number_(1.0);
                 for (auto& f : (*scen)[i].forwards_)
                     f[0] = in[i];
                 (*scen)[i].spot_ = in[i];
             }
             Number_ res;
             if (k % 2) {
                 auto ev = p.BuildFuzzyEvaluator<Number_>((int)s.nested, 0.05 * k);
                 p.Evaluate(*scen, ev);
                 res = ev.VarVals()[p.PayOffIdx()];
             } else {
                 auto st = p.BuildEvalState<Number_>();
                 p.EvaluateCompiled(*scen, st);
                 res = st.VarVals()[p.PayOffIdx()];
             }
             res.PropagateToStart();
             o << res.value();
             for (auto& x : in)
                 o << x.Adjoint();
         }},
        {"band matrices", N_MATRIX, [](const Shared& s, int k, Out& o) {
             int n = 5 + pick(k, 0, 3), up = 1 + pick(k, 1, 2), down = 1 + pick(k, 2, 2);
             std::unique_ptr<Sparse::Square_> m(Sparse::NewBandDiagonal(n, up, down));
             for (int i = 0; i < n; ++i)
                 for (int j = std::max(0, i - down); j < std::min(n, i + up + 1); ++j)
                     m->Set(i, j, i == j ? 4.0 + i : 0.5 - 0.1 * (i - j) + 0.05 * pick(k, 3, 3));
             m->Add(1, 1, 0.25);
             Vector_<> x = ramp(n, 1.0 + pick(k, 4, 3), 0.3), b;
             m->MultiplyLeft(x, &b);
             o << b;
             m->MultiplyRight(x, &b);
             o << b << (*m)(0, n - 1) << (*m)(1, 0) << m->Size();
             Vector_<> z(n, 0.0);
             Sparse::BCGSolve(*m, b, 1e-10, 1e-10, 60, &z);
             o << z;
             attempt(o, [&] { m->Set(0, n - 1, 1.0), o << "accepted"; });
             std::unique_ptr<Sparse::Square_> sym(Sparse::NewBandDiagonal(n, 2, 2));
             for (int i = 0; i < n; ++i)
                 for (int j = std::max(0, i - 2); j < std::min(n, i + 3); ++j)
                     sym->Set(i, j, i == j ? 4.0 + i : 0.4 - 0.1 * std::abs(i - j) + 0.05 * pick(k, 3, 3));
             o << sym->IsSymmetric() << m->IsSymmetric();
             std::unique_ptr<Sparse::SymmetricDecomposition_> dec(sym->DecomposeSymmetric());
             sym->MultiplyLeft(x, &b);
             Vector_<> back;
             dec->Solve(b, &back);
             for (int i = 0; i < n; ++i)
                 if (std::fabs(back[i] - x[i]) > 1e-9 * (1.0 + std::fabs(x[i])))
                     sim_violation("wrong-solution", "solving a band matrix for its own product gives %.12g instead of %.12g in place %d", back[i], x[i], i);
             o << back;
             dec->Multiply(x, &b);
             o << b;
             attempt(o, [&] {
                 Matrix_<> rows(2, n);
                 for (int i = 0; i < n; ++i)
                     rows(0, i) = 1.0 + 0.1 * i, rows(1, i) = 0.5 - 0.05 * pick(k, 4, 3) * i;
                 SquareMatrix_<> form(2);
                 dec->QForm(rows, &form);
                 o << form(0, 0) << form(0, 1) << form(1, 1);
             });
             LowerBandAccumulator_ acc(n, 2);
             for (int i = 0; i + 3 < n; ++i)
                 attempt(o, [&] { acc.Add(ramp(2 + pick(k, 5, 2), 1.0 + i, 0.25), i); });
             attempt(o, [&] { acc.SolveLeft(x, &b), o << b; });
             std::unique_ptr<Sparse::TriDiagonal_> d(PDE::Dx(Uniform1DMesher_(0.0, 1.0 + pick(k, 6, 3), n))), dd(PDE::Dxx(Uniform1DMesher_(0.0, 1.0 + pick(k, 7, 3), n)));
             d->MultiplyLeft(x, &b);
             o << b;
             dd->MultiplyRight(x, &b);
             o << b;
             Vector_<> c = ramp(6, 1 + pick(k, 8, 3), 0.5), y;
             s.tridec->MultiplyLeft(c, &y);
             o << y;
             s.tridec->MultiplyRight(c, &y);
             o << y;
             s.tri->MultiplyRight(c, &y);
             o << y << s.tri->IsSymmetric() << s.weights->IsSymmetric();
             Vector_<> w(6, 0.0);
             Sparse::CGSolve(*s.weights, ramp(4, 1 + pick(k, 9, 3), 0.5), 1e-10, 1e-10, 40, &(z = Vector_<>(4, 0.0)));
             o << z;
         }},
        {"coordinates", 0, [](const Shared&, int k, Out& o) {
             Handle_<PDE::CoordinateMap_> a(PDE::NewSinhMap(2.0 + pick(k, 0, 3), 1.5 + pick(k, 1, 3))), b(PDE::NewIdentityMap());
             for (auto& m : {a, b}) {
                 double xp = 0, xpp = 0, x = (*m)(0.3 * pick(k, 2, 5), &xp, &xpp);
                 o << x << xp << xpp << m->Y(x) << (*m)(-0.4 * pick(k, 3, 4));
             }
             attempt(o, [&] { std::unique_ptr<PDE::CoordinateMap_> c(PDE::NewSinhMap(-1.0, 0.5 + pick(k, 4, 2))); o << "accepted"; });
             Cube_<double> cube(2, 3, 2 + pick(k, 5, 2));
             cube.Fill(1.5);
             cube(1, 2, 1) = 4.0 + pick(k, 6, 3);
             cube *= 0.5;
             cube.Resize(2 + pick(k, 7, 2), 3, 3);
             o << cube(1, 2, 1) << cube(0, 0, 0) << cube(1, 1, 2) << cube.SizeI() << cube.SizeK() << *cube.SliceBegin(1, 2);
             for (int x : ArrayN::Strides(cube.Sizes()))
                 o << x;
             attempt(o, [&] {
                 for (auto& m : ArrayN::Moves({2, 2 + pick(k, 8, 2)}, {3, 2}))
                     o << m.first << m.second;
             });
             Vector_<> v = ramp(4, 0.0, 1.0 + 0.5 * pick(k, 9, 2)), extra = ramp(2, 0.3, 1.0);
             o << AAD::FillData(v, 0.4, 0.05, extra.begin(), extra.end());
             Vector_<> w = ramp(4, 1.0, -0.2 * pick(k, 10, 3));
             o << Dal::Vector::L1Normalized(v) << Dal::Vector::L2Normalized(w) << Dal::Vector::Covariance(v, w) << Dal::Vector::Correlation(v, w) << NearestInt(2.5 + pick(k, 11, 4));
             attempt(o, [&] { o << AsInt(pick(k, 12, 2) ? 3.0 : 3.5); });
         }},
        {"rates", 0, [](const Shared&, int k, Out& o) {
             static const char* C[] = {"USD", "EUR", "GBP", "JPY"};
             Ccy_ c(C[pick(k, 0, 4)]);
             DateTime_ t(Date_(2024, 4, 3 + pick(k, 1, 5)), 0.5);
             Cell_ start[] = {Cell_(), Cell_(2.0), Cell_(Date_(2024, 5, 6)), Cell_("1M"), Cell_("IMM"), Cell_(true), Cell_("3BD;CN.SSE"), Cell_(DateTime_(Date_(2024, 5, 7), 0.25))};
             Cell_ st = start[pick(k, 2, 8)], mat = start[pick(k, 3, 8)];
             attempt(o, [&] { o << Index::Swap_(c, pick(k, 4, 2) ? "5Y" : "10Y", st).Name(); });
             attempt(o, [&] { o << Index::Swap_(c, "5Y", st).StartDate(t); });
             attempt(o, [&] { o << Index::Libor_(c, TradedRate_(pick(k, 5, 2) ? "LIBOR_3M_LCH" : "LIBOR_6M_CME"), mat).Name(); });
             Index::DF_ df(c, mat, &st);
             attempt(o, [&] { o << df.Name(); });
             attempt(o, [&] { o << df.StartDate(t); });
             attempt(o, [&] { o << df.Maturity(t); });
             attempt(o, [&] { o << Libor::StartFromFix(c, t.Date()); });
             attempt(o, [&] { o << DateTime::ToString(Libor::FixFromStart(c, t.Date())); });
             static const char* F[] = {"FX[USD/JPY]", "FX[EUR/USD]", "FX[USD]", "FX[XXX/USD]", "FX[USD/EUR"};
             attempt(o, [&] {
                 std::unique_ptr<Index_> fx(Index::FxParser(F[pick(k, 6, 5)]));
                 o << fx->Name();
             });
             o << Index::Fx_(c, Ccy_(C[pick(k, 7, 4)])).Name();
         }},
        {"paths", N_PATH, [](const Shared& s, int k, Out& o) {
             DateTime_ from(Date_(2024, 2, 1 + pick(k, 0, 3)), 0.5), to(Date_(2024, 2, 3 + pick(k, 1, 4)), 0.5);
             std::pair<double, double> r(1.0 + 0.1 * pick(k, 2, 3), 1.15 + 0.1 * pick(k, 3, 4));
             for (auto p : {s.path.get(), s.path2.get()})
                 o << p->AllInRangeProb(from, to, r, pick(k, 4, 2) ? 1.0 : 0.5, 0.05 + 0.2 * pick(k, 5, 2)) << p->Extremum(pick(k, 6, 2), from, to, 1.0, r);
             attempt(o, [&] { o << s.path->Expectation(DateTime_(to.Date(), 0.25), r); });
             attempt(o, [&] { o << s.path->FixInRangeProb(DateTime_(to.Date(), 0.25), r, 0.1); });
             DateTime_ u = from + 0.25 * (1 + pick(k, 7, 5));
             o << DateTime::ToString(u) << DateTime::TimeString(u) << DateTime::Hour(u) << DateTime::Minute(u) << (u - from) << (double)DateTime::MSec(u) << (u < to) << DateTime::ToString(DateTime_(DateTime::MSec(u)))
               << DateTime::ToString(DateTime::Minimum());
             static const char* T[] = {"2024-02-03 10:20", "2024-02-03 10:20:30", "2024-02-03", "2024-02-03 25:00", "2024-02-03 x:1", "20240203 10:20"};
             for (int j = 8; j < 10; ++j) {
                 o << DateTime::IsDateTimeString(T[pick(k, j, 6)]);
                 attempt(o, [&] { o << DateTime::ToString(DateTime::FromString(T[pick(k, j, 6)])); });
             }
         }},
        {"steps", 0, [](const Shared&, int k, Out& o) {
             static const char* T[] = {"IMM", "IMM1", "CDS", "EOM", "3M&IMM", "1Y&5BD;CN.SSE", "2W", "4CD", "1YEAR", "3BUS_DAY;CN.IB", "IMM_MONTHLY&1CD", "nonsense", "", "5Q", "1M&", "10CD;CN.SSE"};
             Date_ d = Date_(2024, 1, 1).AddDays(17 * pick(k, 0, 20));
             for (int j = 1; j < 4; ++j)
                 attempt(o, [&] {
                     auto i = Date::ParseIncrement(T[pick(k, j, 16)]);
                     Date_ e = d + *i;
                     o << e << (e - *i) << (d - *i);
                 });
             o << (d + *Date::ToIMM(pick(k, 4, 2))) << (d - *Date::ToIMM(pick(k, 5, 2))) << (d + *Date::NBusDays(pick(k, 6, 6), Holidays::None()));
         }},
        {"cells", N_DICT, [](const Shared& s, int k, Out& o) {
             Cell_ c[] = {Cell_(), Cell_(true), Cell_(2.5), Cell_(3.0), Cell_(Date_(2024, 2, 3)), Cell_(DateTime_(Date_(2024, 2, 3), 0.75)), Cell_("text"), Cell_("2024-05-06"), Cell_("TFT"), Cell_("1"), Cell_("3.5"), Cell_("2024-05-06 10:30")};
             for (int j = 0; j < 2; ++j) {
                 const Cell_& x = c[pick(k, j, 12)];
                 o << Cell::IsInt(x) << Cell::IsDate(x) << Cell::IsDateTime(x) << Cell::IsBool(x) << Cell::IsDouble(x) << Cell::CoerceToString(x) << (x == c[pick(k, 2, 12)]) << (x == String_("TEXT"))
                   << Cell::TypeCheck_<double, Date_>()(x);
                 attempt(o, [&] { o << Cell::ToString(x); });
                 attempt(o, [&] { o << Cell::ToInt(x); });
                 attempt(o, [&] { o << Cell::ToBool(x); });
                 attempt(o, [&] { o << Cell::ToDouble(x); });
                 attempt(o, [&] { o << Cell::ToDate(x); });
                 attempt(o, [&] { o << DateTime::ToString(Cell::ToDateTime(x)); });
                 attempt(o, [&] {
                     for (bool b : Cell::ToBoolVector(x))
                         o << b;
                 });
                 if (Cell::IsString(x))
                     o << Cell::CoerceToString(Cell::ConvertString(Cell::ToString(x)));
             }
             Vector_<bool> v(2 + (size_t)pick(k, 3, 3), pick(k, 4, 2));
             o << Cell::CoerceToString(Cell::FromBoolVector(v)) << Cell::CoerceToString(Cell::FromOptionalDouble(pick(k, 5, 2) ? std::optional<double>(1.5) : std::optional<double>()));
             static const char* D[] = {"A=1;B=2024-02-03;C=text", "a b=1.5;D=2024-02-03 10:30", "A=1;a=2", "A", "=1", ""};
             attempt(o, [&] {
                 auto d = Dictionary::FromString(D[pick(k, 6, 6)]);
                 o << d.Size() << Dictionary::ToString(d) << Cell::CoerceToString(d.At("A B", true)) << Dictionary::Extract(d, "c", Cell::ToString, String_("none"));
             });
             o << Dictionary::Extract(*s.dict, "Alpha", [](const Cell_& x) { return Cell::ToDouble(x); }) << Cell::IsEmpty(Dictionary::BlankCell());
             std::map<String_, Handle_<Storable_>> h;
             h["A"] = Handle_<Storable_>(new Box_("box", Matrix_<Cell_>(1, 1)));
             attempt(o, [&] { o << Dictionary::FindHandle<Box_>(h, pick(k, 7, 2) ? "a" : "b")->name_; });
             attempt(o, [&] { o << Dictionary::FindHandle<Bag_>(h, "a")->name_; });
             static const char* B[] = {"TRUE", "f", "maybe", "", "yes", "0"};
             static const char* V[] = {"TTFT", "T,F,TRUE", "TRUE", "false", "TX", "T,,F"};
             attempt(o, [&] { o << String::ToBool(B[pick(k, 8, 6)]); });
             attempt(o, [&] {
                 for (bool b : String::ToBoolVector(V[pick(k, 9, 6)]))
                     o << b;
             });
             static const char* W[] = {"1.25", "1e3", "-4", "x", "", "0x1F", "12 "};
             for (int j = 10; j < 12; ++j) {
                 o << String::IsNumber(W[pick(k, j, 7)]);
                 attempt(o, [&] { o << String::ToDouble(W[pick(k, j, 7)]); });
                 attempt(o, [&] { o << String::ToInt(W[pick(k, j, 7)]); });
             }
             static const char* N[] = {"curve", "curve9", "curve99", "", "9", "curve-1"};
             o << String::NextName(N[pick(k, 12, 6)]) << String::Equivalent("a b_C", pick(k, 13, 2) ? "ABC" : "AB") << String::FromBool(pick(k, 14, 2)) << String::FromInt(-7 + 5 * pick(k, 15, 4))
               << String::Accumulate(Vector_<String_>({"a", "", "c"}), String_(pick(k, 16, 2) ? ", " : ";"), pick(k, 17, 2));
         }},
        {"curve copies", N_CURVE, [](const Shared& s, int k, Out& o) {
             Date_ a = Date_(2024, 1, 20).AddDays(25 * pick(k, 0, 5)), b = a.AddDays(60 + 50 * pick(k, 1, 3));
             const DiscountCurve_* src = pick(k, 2, 2) ? s.disc.get() : s.disc2.get();
             std::map<const YCComponent_*, Handle_<YCComponent_>> known, change;
             src->Poll(&known);
             o << (int)known.size();
             if (pick(k, 3, 2))
                 change[s.base.get()] = handle_cast<YCComponent_>(s.disc2);
             std::unique_ptr<YCComponent_> y(src->Clone("copy", change));
             auto* d = dynamic_cast<const DiscountCurve_*>(y.get());
             o << y->name_ << (*d)(a, b) << (*src)(a, b) << JSON::WriteString(*y);
             auto back = JSON::ReadString(JSON::WriteString(*src), true);
             o << (*handle_cast<DiscountCurve_>(back))(a, b);
             if (pick(k, 4, 2))
                 o << JSON::WriteString(*s.pwc);
         }},
        {"implied volatilities", N_BLACK, [](const Shared& s, int k, Out& o) {
             double K = 1.1 + 0.1 * pick(k, 0, 9);
             const Distribution_& m = pick(k, 1, 2) ? (const Distribution_&)*s.black : *s.black2;
             attempt(o, [&] { o << Distribution::BlackIV(m, K, 0.2, 1 + pick(k, 2, 4)); });
             static const char* G[] = {"delta", "vega", "volvega", "gamma"};
             static const char* O[] = {"CALL", "PUT", "STRADDLE"};
             OptionType_ t(O[pick(k, 3, 3)]);
             Vector_<String_> want({String_(G[pick(k, 4, 4)]), String_(G[pick(k, 5, 3)])});
             for (const Distribution_* d : {(const Distribution_*)s.black.get(), (const Distribution_*)s.normal.get(), (const Distribution_*)s.normal2.get()})
                 attempt(o, [&] {
                     for (auto& g : d->ParameterDerivatives(K, t, want))
                         o << g.first << g.second;
                     o << d->Forward();
                 });
             o << AAD::BlackScholes(1.5, K, 0.2, 0.5 + pick(k, 6, 3)) << AAD::Merton(1.5, K, 0.2, 1.0, 0.1 * pick(k, 7, 3), -0.1, 0.2) << AAD::Bachelier(1.5, K, 0.3, 0.5 + pick(k, 6, 3)) << t.Payout(1.5, K);
             attempt(o, [&] { o << AAD::BlackScholesIVol(1.5, K, 0.1 + 0.1 * pick(k, 8, 4), 0.5); });
             attempt(o, [&] { o << AAD::BachelierIVol(1.5, K, 0.1 + 0.1 * pick(k, 8, 4), 0.5); });
         }},
        {"script schedules", 0, [](const Shared&, int k, Out& o) {
             static const char* S[] = {"START: 2024-05-07 END: 2024-08-07 FREQ: 1m CALENDAR: CN.SSE BizRule: Following", "START: 2024-05-07 END: 2024-11-07 FREQ: 3m CALENDAR: CN.IB FIXING: BEGIN",
                                       "START: 2024-05-07 END: 2024-11-07 FREQ: 2m FIXING: END", "START: 2024-05-07 END: 2024-11-07 FREQ: 2m BizRule: Unadjusted", "START: 2024-05-07 LENGTH: 3 FREQ: 2m", "START 2024-05-07: END",
                                       "START: 2024-05-07 END: 2024-11-07 FREQ: 2m FIXING: NEVER"};
             Vector_<Cell_> d;
             Vector_<String_> e;
             d.push_back(Cell_("RATE")), e.push_back(pick(k, 0, 2) ? "0.05" : "0.02 + 0.01");
             if (pick(k, 1, 2))
                 d.push_back(Cell_("COUPON")), e.push_back("DCF(ACT365F, PeriodBegin, PeriodEnd)");
             d.push_back(Cell_(Date_(2024, 3, 1))), e.push_back("cum = 0");
             d.push_back(Cell_(S[pick(k, 2, 7)])), e.push_back(pick(k, 1, 2) ? "cum = cum + RATE * COUPON" : "cum = cum + RATE * DCF(ACT360, PeriodBegin, PeriodEnd)");
             d.push_back(Cell_(Date_(2025, 3, 3))), e.push_back("pay pays cum + MIN(spot(), 1.0) - LOG(2.0) * SQRT(4.0)");
             attempt(o, [&] {
                 Script::ScriptProduct_ p(d, e, pick(k, 3, 2) ? "pay" : "");
                 p.PreProcess(false, pick(k, 4, 2));
                 for (auto& x : p.EventDates())
                     o << x;
                 for (auto& n : p.VarNames())
                     o << n;
                 for (auto& n : p.ConstVarNames())
                     o << n;
                 std::ostringstream t;
                 t.exceptions(std::ios::badbit);
                 p.Debug(t);
                 o << t.str().c_str() << p.TimeLine() << p.VarValues();
             });
         }},
        {"front end", 0, [](const Shared&, int k, Out& o) {
             auto h = Interp1NewLinear("front", ramp(5, 0.0, 1.0), ramp(5, 1.0, k));
             o << (*h)(1.3) << h->name_ << h->type_;
             std::unique_ptr<Random_> r(New(RNGType_(k % 2 ? "IRN" : "MRG32"), 11 + k, 2));
             Vector_<> v(2);
             r->FillUniform(&v);
             o << v;
             auto p = NewScriptProduct("front", Vector_<Cell_>(1, Cell_(Date_(2024, 9, 2))), Vector_<String_>(1, "v pays MAX(spot() - 1.0, 0.0)"));
             o << DebugScriptProduct(p);
         }},
        {"globals", 0, [](const Shared&, int, Out& o) { o << Global::Dates_::EvaluationDate(); }},
    };
    const int NJOBS = (int)(sizeof JOBS / sizeof *JOBS), NCASES = 24;

    // runs a job until no injected failure gets in its way
    std::string answer(const Shared& s, int job, int k, bool faulty) {
        for (int tries = 0;; ++tries) {
            try {
                if (faulty)
                    sim_alloc_faults(1);
                Out o;
                JOBS[job].run(s, k, o);
                sim_alloc_faults(0);
                return o.s;
            } catch (const std::bad_alloc&) {
                sim_alloc_faults(0);
                sim_probe(0);
                if (!faulty)
                    sim_violation("spurious-failure", "%s: out of memory although no allocation failed", JOBS[job].name);
                if (tries > 50)
                    sim_violation("no-recovery", "%s keeps failing after allocations succeed again", JOBS[job].name);
            } catch (const std::exception& e) {
                sim_alloc_faults(0);
                if (faulty && sim_fault_count(F_ALLOC) && tries < 50) { // the message may say so in its own words, but a retry must work
                    sim_probe(2);
                    continue;
                }
                sim_violation("unexpected-error", "%s raises: %.200s", JOBS[job].name, e.what());
            }
        }
    }

    // What one thread alone gets as the first thing it ever asks: computed in a process of its own, which has the library
    // initialised and has made no other request.  Kept for later runs in memory all runs share.
    struct Slot {
        volatile int ready; // not an atomic: an atomic is a step of the simulation, and how often this is looked at depends on earlier runs
        char text[65000];
    };
    Slot* slots() {
        static Slot* s = (Slot*)mmap(nullptr, sizeof(Slot) * NJOBS * NCASES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return s;
    }
    struct Early {
        Early() { slots(); } // before the runs are forked
    } early;
    std::string reference(int job, int k) { // paused; if not ready yet, the library is initialised and nothing else has been done
        Slot& s = slots()[job * NCASES + k];
        if (!s.ready) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); // a request that never ends must not outlive this run
                rlimit lim = {20, 20};
                setrlimit(RLIMIT_CPU, &lim);
                Shared r;
                make(r, JOBS[job].need);
                std::string a = answer(r, job, k, false);
                if (a.size() + 1 > sizeof s.text)
                    _exit(3);
                memcpy(s.text, a.c_str(), a.size() + 1);
                s.ready = 1;
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (!s.ready)
                sim_violation("no-answer", "%s (case %d) fails even when nothing else runs (wait status %d)", JOBS[job].name, k, st);
        }
        return s.text;
    }
}

SIM_WORKLOAD(services) {
    sim_step_cap(80000000);
    int nt = 2 + (int)sim_rnd(3);
    bool faulty = sim_rnd_bool(1, 3), focus = sim_rnd_bool(2, 3);
    if (faulty)
        sim_fault_rate(F_ALLOC, 500 + (unsigned)sim_rnd(20000), 4);
    struct Ask {
        int job, k;
    };
    std::vector<std::vector<Ask>> plan((size_t)nt);
    int opi = 0, hot[3] = {(int)sim_rnd(NJOBS), (int)sim_rnd(NJOBS), (int)sim_rnd(NJOBS)};
    for (auto& p : plan)
        for (int i = 0, n = 1 + (int)sim_rnd(4); i < n; ++i) {
            Ask a{focus ? hot[sim_rnd(3)] : (int)sim_rnd(NJOBS), (int)sim_rnd(NCASES)};
            if (sim_op(opi++))
                p.push_back(a);
        }
    Shared s;
    std::vector<std::vector<std::string>> got((size_t)nt);
    {
        sim::Pause z;
        RegisterAll_::Init(1);
        XGLOBAL::SetEvaluationDate(Date_(2024, 1, 15));
        int need = 0;
        for (auto& p : plan)
            for (auto& a : p)
                need |= JOBS[a.job].need;
        for (auto& p : plan)
            for (auto& a : p)
                reference(a.job, a.k);
        make(s, need);
        std::map<int, int> users;
        for (auto& p : plan)
            if (!p.empty() && users[p[0].job]++)
                sim_probe(1);
        for (int t = 0; t < nt; ++t)
            got[(size_t)t].resize(plan[(size_t)t].size());
    }
    auto run = [&](int t) {
        for (size_t i = 0; i < plan[(size_t)t].size(); ++i)
            got[(size_t)t][i] = answer(s, plan[(size_t)t][i].job, plan[(size_t)t][i].k, faulty);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t)
        ts.emplace_back([&run, t] { run(t); });
    run(0);
    for (auto& t : ts)
        t.join();
    sim::Pause z;
    for (int t = 0; t < nt; ++t)
        for (size_t i = 0; i < plan[(size_t)t].size(); ++i) {
            Ask a = plan[(size_t)t][i];
            std::string w = reference(a.job, a.k);
            auto& g = got[(size_t)t][i];
            sim_note("T%d %s/%d: %.60s", t, JOBS[a.job].name, a.k, g.c_str());
            if (g != w) {
                size_t p = 0;
                while (p < g.size() && p < w.size() && g[p] == w[p])
                    ++p;
                p = p > 20 ? p - 20 : 0;
                sim_violation("wrong-answer", "T%d: %s (case %d) answers '...%.60s' instead of '...%.60s'", t, JOBS[a.job].name, a.k, g.c_str() + p, w.c_str() + p);
            }
        }
}

// Texts of every kind, whole and damaged, are read while memory runs out: each is understood or refused, never
// taken for something it is not for lack of memory, and no refusal changes what the next text means.
namespace {
    struct Reader {
        const char* name;
        std::vector<const char*> good;
        std::function<void(const String_&, Out&)> read;
        std::vector<const char*> bad;                          // must be refused
        std::function<std::string(Out&)> say = nullptr;        // a text of some content, and what reading it has to give
    };
    std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    std::string fmt(const char* f, ...) {
        char b[300];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        return b;
    }
    int days_in(int y, int m) { return m == 2 ? 28 + (y % 4 == 0) : 30 + ((m + m / 8) & 1); } // 1971-2099
    struct Day {
        int y, m, d;
        Day() : y(1971 + (int)sim_rnd(128)), m(1 + (int)sim_rnd(12)), d(1 + (int)sim_rnd((uint64_t)days_in(y, m))) {}
        double serial() const { // as Excel counts
            int n = 25569;
            for (int i = 1970; i < y; ++i)
                n += 365 + (i % 4 == 0);
            for (int i = 1; i < m; ++i)
                n += days_in(y, i);
            return n + d - 1;
        }
        std::string iso() const { return fmt("%04d-%02d-%02d", y, m, d); }
        std::string text() const {
            switch (sim_rnd(4)) {
            case 0:
                return fmt("%d-%d-%d", y, m, d);
            case 1:
                return fmt("%02d/%02d/%04d", m, d, y);
            case 2:
                return y >= 2000 ? fmt("%d/%d/%02d", m, d, y - 2000) : iso();
            default:
                return iso();
            }
        }
        Day step(int days) const { // a few days on or back
            Day r(*this);
            for (; days > 0; --days)
                if (++r.d > days_in(r.y, r.m)) {
                    r.d = 1;
                    if (++r.m > 12)
                        r.m = 1, ++r.y;
                }
            for (; days < 0; ++days)
                if (--r.d < 1) {
                    if (--r.m < 1)
                        r.m = 12, --r.y;
                    r.d = days_in(r.y, r.m);
                }
            return r;
        }
        Day months(int n) const {
            Day r(*this);
            int k = r.y * 12 + r.m - 1 + n;
            r.y = k / 12, r.m = k % 12 + 1;
            r.d = std::min(r.d, days_in(r.y, r.m));
            return r;
        }
    };
    std::string number(double& x) {
        static const char* forms[] = {"%.17g", "%.17e", "%.3f", "%.0f", "%+.9f", "%030.20f"};
        double raw = ((double)sim_rnd(2000001) - 1e6) / 7.0;
        if (sim_rnd_bool(1, 4))
            raw *= 1e-15;
        char b[80];
        snprintf(b, sizeof b, forms[sim_rnd(6)], raw);
        x = strtod(b, nullptr);
        return b;
    }
    std::string word() {
        static const char* w[] = {"text", "A longer text than fits anywhere", "x", "2024", "rate of return", "not-a-date", "12-", "tRuE story", "1/2", "a:b", "2024-13-01", "02/30/2024"};
        return w[sim_rnd(12)];
    }
    // what a cell of this text is
    std::string cell(Out& o, bool truths) {
        Out none;
        auto put = [&](int which, const std::string& t) {
            for (int i = 0; i < 6; ++i)
                o << (i == which);
            o << t.c_str();
        };
        switch (sim_rnd(truths ? 6 : 5)) {
        case 0: {
            Day d;
            put(4, d.iso());
            return d.text();
        }
        case 1: {
            Day d;
            int h = (int)sim_rnd(24), m = (int)sim_rnd(60), s = (int)sim_rnd(60);
            put(5, fmt("%s %02d:%02d:%02d", d.iso().c_str(), h, m, s));
            return d.text() + fmt(" %02d:%02d:%02d", h, m, s);
        }
        case 2: {
            std::string w = word();
            if (w == "2024") {
                put(3, "2024");
                return w;
            }
            put(1, w);
            return w;
        }
        case 3: {
            int x = (int)sim_rnd(2000001) - 1000000;
            put(3, fmt("%d", x));
            return fmt("%d", x);
        }
        case 4: {
            double x = ((double)sim_rnd(2000001) - 1e6) / 64.0;
            put(3, x == (int)x ? fmt("%d", (int)x) : fmt("%f", x));
            return fmt("%.10f", x);
        }
        default: {
            bool b = sim_rnd_bool(1, 2);
            put(2, b ? "true" : "false");
            return b ? "TRUE" : "FALSE";
        }
        }
    }
    // another spelling of a name
    std::string spelled(std::string t) {
        for (char& c : t)
            if (sim_rnd_bool(1, 3))
                c = (char)(std::isupper((unsigned char)c) ? std::tolower((unsigned char)c) : std::toupper((unsigned char)c));
        for (int n = (int)sim_rnd(3); n; --n)
            t.insert(sim_rnd(t.size() + 1), 1, " _\t"[sim_rnd(3)]);
        return t;
    }
    std::string named(std::initializer_list<std::pair<const char*, const char*>> names, Out& o) {
        auto& p = *(names.begin() + (long)sim_rnd(names.size()));
        o << p.second;
        return spelled(p.first);
    }
    void kind(Out& o, const Cell_& c) {
        o << Cell::IsEmpty(c) << Cell::IsString(c) << Cell::IsBool(c) << Cell::IsDouble(c) << Cell::IsDate(c) << Cell::IsDateTime(c) << Cell::CoerceToString(c);
    }
    const std::vector<Reader>& readers() {
        static const std::vector<Reader> all = {
            {"dates",
             {"2024-02-29", "2023-12-31", "02/29/2024", "1/2/24"},
             [](const String_& t, Out& o) { o << Date::IsDateString(t) << Date::FromString(t); },
             {"2024-02-30", "2023-02-29", "2024-13-01", "2024-00-10", "2024-10-00", "2023/12/31", "31/12/2023", "2200-01-01", "1969-01-01", "99999999999999999999-01-01", "2024-1", "2024-01-01x", " 2024-01-01", "--", ""},
             [](Out& o) {
                 Day d;
                 o << true << d.serial();
                 return d.text();
             }},
            {"times", {"2024-02-03 10:20", "2024-02-03 10:20:30", "2024-02-03"}, [](const String_& t, Out& o) { o << DateTime::IsDateTimeString(t) << DateTime::ToString(DateTime::FromString(t)); },
             {"2024-02-03 24:00", "2024-02-03 10:60", "2024-02-03 10:20:60", "2024-02-30 10:20", "2024-02-03 10:2x", "2024-02-03 10", "2024-02-03 -1:20", "2024-02-03 10:20:30:40", "10:20"},
             [](Out& o) {
                 Day d;
                 int h = (int)sim_rnd(24), m = (int)sim_rnd(60), s = (int)sim_rnd(60), form = (int)sim_rnd(3);
                 o << (form != 0) << fmt("%s %02d:%02d:%02d", d.iso().c_str(), form ? h : 0, form ? m : 0, form == 2 ? s : 0).c_str();
                 return d.text() + (form == 0 ? "" : form == 1 ? fmt(" %02d:%02d", h, m) : fmt(" %d:%02d:%02d", h, m, s));
             }},
            {"cells",
             {"1.25", "1234567.123456789012345", "2024-02-03", "2024-02-03 10:20:30", "TRUE", "some longer text than usual", "0.000000000000000000012345", "-00000000000000000001"},
             [](const String_& t, Out& o) { kind(o, Cell::ConvertString(t)); },
             {},
             [](Out& o) { return cell(o, true); }},
            {"dictionaries",
             {"A=1;B=2024-02-03;C=text", "a b=1.5;D=2024-02-03 10:30", "rate=0.0123456789012345678;name=a rather long value", "X=12345678901234567890"},
             [](const String_& t, Out& o) {
                 auto d = Dictionary::FromString(t);
                 o << d.Size() << Dictionary::ToString(d);
                 for (auto& k_v : d) {
                     o << k_v.first;
                     kind(o, k_v.second);
                 }
             },
             {"a", "=1", "a=1=2", "a=1;A=2", "a b=1;A_B=2", ";=;", "a=1;b"},
             [](Out& o) {
                 static const char* keys[] = {"ALPHA", "BETA", "GAMMA", "ZETA"}; // in the order they come back
                 std::string text[4], all;
                 Out parts[4];
                 int n = 0;
                 String_ joined;
                 for (int i = 0; i < 4; ++i)
                     if (sim_rnd_bool(2, 3)) {
                         std::string c;
                         if (sim_rnd_bool(1, 5)) { // no value
                             for (int j = 0; j < 6; ++j)
                                 parts[i] << (j == 0);
                             parts[i] << "";
                         } else
                             c = cell(parts[i], false);
                         text[i] = spelled(keys[i]) + "=" + c;
                         ++n;
                     }
                 o << n;
                 for (int i = 0; i < 4; ++i)
                     if (!text[i].empty()) {
                         if (!joined.empty())
                             joined += ";";
                         std::string v = parts[i].s.substr(12); // after six flags
                         v.pop_back();
                         joined += keys[i];
                         joined += "=";
                         joined += v.c_str();
                     }
                 o << joined;
                 for (int i = 0; i < 4; ++i)
                     if (!text[i].empty()) {
                         o << keys[i];
                         o.s += parts[i].s;
                     }
                 for (int i = 3; i > 0; --i)
                     std::swap(text[i], text[sim_rnd((uint64_t)i + 1)]);
                 for (auto& t : text)
                     if (!t.empty())
                         all += (all.empty() ? "" : sim_rnd_bool(1, 6) ? ";;" : ";") + t;
                 return all;
             }},
            {"numbers",
             {"1.25", "-1e-3", "1234567.123456789012345", "42"},
             [](const String_& t, Out& o) { o << String::IsNumber(t) << String::ToDouble(t); },
             {"", "x", "1x", "1..2", "1e", "--1", "1 ", "1,5", "e5"},
             [](Out& o) {
                 double x;
                 std::string t = number(x);
                 o << true << x;
                 return t;
             }},
            {"integers",
             {"42", "-17", "0012"},
             [](const String_& t, Out& o) { o << String::ToInt(t); },
             {"", "x", "12x", "1.25", "99999999999", "1 2", "-"},
             [](Out& o) {
                 int x = (int)(uint32_t)sim_rnd(0x100000000ull);
                 o << x;
                 return fmt("%d", x);
             }},
            {"increments",
             {"1M", "2Y", "10CD", "IMM", "5BD;CN.SSE", "3M&IMM", "1Y&5BD;CN.IB", "2W"},
             [](const String_& t, Out& o) {
                 auto i = Date::ParseIncrement(t);
                 o << i->FwdFrom(Date_(2024, 3, 15)) << i->BackFrom(Date_(2024, 3, 15));
             },
             {"", "5", "5X", "X", "M", "-1M", "1.5M", "99999999999M", "1M&X", "5BD;NOWHERE", "1M IMM"},
             [](Out& o) {
                 Day f, b;
                 f.y = b.y = 2024, f.m = b.m = 3, f.d = b.d = 15;
                 std::string all;
                 for (int k = 1 + (int)sim_rnd(3); k; --k) {
                     static const char* units[][3] = {{"Y", "YEAR", "YEARS"}, {"M", "MONTH", "MONTHS"}, {"W", "WEEK", "WEEKS"}, {"CD", "CAL_DAY", "CALENDARDAY"}};
                     int n = (int)sim_rnd(14), u = (int)sim_rnd(4);
                     f = u == 0 ? f.months(12 * n) : u == 1 ? f.months(n) : f.step(u == 2 ? 7 * n : n);
                     b = u == 0 ? b.months(-12 * n) : u == 1 ? b.months(-n) : b.step(u == 2 ? -7 * n : -n);
                     all += (all.empty() ? "" : "&") + fmt("%d", n) + spelled(units[u][sim_rnd(3)]);
                     if (b.y < 1990)
                         break;
                 }
                 o << f.serial() << b.serial();
                 return all;
             }},
            {"indices",
             {"EQ[IBM]", "EQ[A RATHER LONG NAME]@2024-01-24", "EQ[Y]>3M"},
             [](const String_& t, Out& o) {
                 std::unique_ptr<Index_> i(Index::Parse(t));
                 if (i)
                     o << i->Name();
                 else
                     o << "none";
             },
             {"EQ[", "EQ[IBM", "EQ]IBM[", "EQ[IBM]2024-01-24", "EQ[IBM]junk", "EQ[IBM]@", "EQ[IBM]@2024-02-30", "XX[IBM]", "EQ:IBM", "EQ[IBM] @2024-01-24"},
             [](Out& o) {
                 static const char* names[] = {"IBM", "A B", "600000.SH", "x", "A RATHER LONG NAME OF AN EQUITY", "2024-01-01"};
                 std::string n = std::string("EQ[") + names[sim_rnd(6)] + "]";
                 int form = (int)sim_rnd(3);
                 if (form == 1) {
                     Day d;
                     o << (n + "@" + d.iso()).c_str();
                     return n + "@" + d.text();
                 }
                 if (form == 2)
                     n += ">" + fmt("%dM", (int)sim_rnd(40));
                 o << n.c_str();
                 return n;
             }},
            {"currency pairs",
             {"FX[USD/JPY]", "FX[EUR/USD]"},
             [](const String_& t, Out& o) {
                 std::unique_ptr<Index_> i(Index::FxParser(t));
                 o << i->Name();
             },
             {"FX[USD/JPY", "FXUSD/JPY]", "FX[USDJPY]", "FX[USD/]", "FX[/USD]", "FX[USD/XXX]", "FX[USD/JPY]x", "USD/JPY", "/[]", "]/[", ""},
             [](Out& o) {
                 static const char* c[] = {"USD", "EUR", "JPY", "GBP", "CNY", "AUD", "CAD", "CHF"};
                 std::string a = c[sim_rnd(8)], b = c[sim_rnd(8)];
                 o << ("FX[" + a + "/" + b + "]").c_str();
                 return "FX[" + spelled(a) + "/" + spelled(b) + "]";
             }},
            {"calendars", {"CN.SSE", "CN.SSE CN.IB", ""}, [](const String_& t, Out& o) {
                 Holidays_ h(t);
                 o << h.String() << Holidays::NextBus(h, Date_(2024, 5, 1)) << Holidays::PrevBus(h, Date_(2024, 10, 7));
             }},
            {"currencies", {"USD", "cny", "E_U R"}, [](const String_& t, Out& o) { o << Ccy_(t).String(); }, {"", "US", "USDX", "XXX", "U-SD"},
             [](Out& o) { return named({{"USD", "USD"}, {"EUR", "EUR"}, {"JPY", "JPY"}, {"GBP", "GBP"}, {"CNY", "CNY"}, {"CHF", "CHF"}}, o); }},
            {"day counts", {"ACT/365F", "act_360", "30/360"}, [](const String_& t, Out& o) { o << DayBasis_(t).String() << DayBasis_(t)(Date_(2024, 1, 31), Date_(2024, 7, 31), nullptr); }},
            {"options", {"CALL", "put", "STRADDLE"}, [](const String_& t, Out& o) { o << OptionType_(t).String(); }, {"", "CAL", "PUTS", "CALLPUT"},
             [](Out& o) { return named({{"CALL", "CALL"}, {"C", "CALL"}, {"PUT", "PUT"}, {"P", "PUT"}, {"STRADDLE", "STRADDLE"}}, o); }},
            {"periods", {"3M", "6M", "ANNUAL"}, [](const String_& t, Out& o) { o << PeriodLength_(t).String() << PeriodLength_(t).Months(); }},
            {"rates", {"LIBOR_3M_LCH", "Libor 6M CME"}, [](const String_& t, Out& o) { o << TradedRate_(t).String(); }, {"", "LIBOR", "LIBOR_3M", "LIBOR_3M_LCHX"}},
            {"rules", {"Forward", "Following", "Backward", "Unadjusted"}, [](const String_& t, Out& o) {
                 try {
                     o << DateGeneration_(t).String();
                 } catch (const Exception_&) {
                     o << BizDayConvention_(t).String();
                 }
             },
             {"", "Forwards", "Follow", "adjusted"}},
            {"generators", {"IRN", "mrg32"}, [](const String_& t, Out& o) { o << RNGType_(t).String(); }, {"", "MRG", "IRN2"}, [](Out& o) { return named({{"IRN", "IRN"}, {"MRG32", "MRG32"}}, o); }},
            {"truths", {"TTFT", "T,F,TRUE"}, [](const String_& t, Out& o) {
                 for (bool b : String::ToBoolVector(t))
                     o << b;
             },
             {"TX", "T,,F", "T,maybe", "T F"},
             [](Out& o) {
                 std::string t;
                 int n = 1 + (int)sim_rnd(9);
                 bool commas = sim_rnd_bool(1, 2);
                 for (int i = 0; i < n; ++i) {
                     static const char* w[2][5] = {{"F", "n", "0", "FALSE", "false"}, {"T", "y", "1", "TRUE", "True"}};
                     bool b = sim_rnd_bool(1, 2);
                     o << b;
                     t += std::string(i && commas ? "," : "") + w[b][sim_rnd(commas ? 5 : 3)];
                 }
                 return t;
             }},
            {"truth", {"TRUE", "f", "True"}, [](const String_& t, Out& o) { o << String::ToBool(t); }, {"", "maybe", "TRUES", "x"}},
            {"words", {"a,b,,c", "A b_c", "curve99", "name"}, [](const String_& t, Out& o) {
                 for (auto& w : String::Split(t, ',', true))
                     o << w;
                 o << String::Condensed(t) << String::NextName(t) << String::Equivalent(t, "ABC");
             },
             {},
             [](Out& o) {
                 static const char* ws[] = {"abc", "A_b C", "", "x9", "99", "a\tB1", "curve", "_ _"};
                 std::string t, up, next;
                 int n = 1 + (int)sim_rnd(4);
                 for (int i = 0; i < n; ++i) {
                     const char* w = ws[sim_rnd(8)];
                     t += (i ? "," : "") + std::string(w);
                     if (i + 1 < n || *w) // nothing follows the last comma
                         o << w;
                 }
                 for (char c : t)
                     if (c != ' ' && c != '_' && c != '\t')
                         up += (char)std::toupper((unsigned char)c);
                 next = t;
                 size_t end = next.size();
                 while (end && next[end - 1] == '9')
                     next[--end] = '0';
                 if (end && std::isdigit((unsigned char)next[end - 1]))
                     ++next[end - 1];
                 else
                     next.insert(end, end ? "1" : "0");
                 o << up.c_str() << next.c_str() << (up == "ABC");
                 return t;
             }},
            {"table formats", {"1", "1T", "1,2", "1;2T", "(1,0);2", "((1))", "(1;2),1"}, [](const String_& t, Out& o) {
                 Matrix_<Cell_> a(2, 3), b(3, 2);
                 for (int i = 0; i < 2; ++i)
                     for (int j = 0; j < 3; ++j) {
                         a(i, j) = Cell_(1.0 + i + 10 * j);
                         b(j, i) = Cell_("x");
                     }
                 auto m = Matrix::Format({&a, &b}, t);
                 o << m.Rows() << m.Cols();
                 for (auto& l : Cell::ToStringLines(m))
                     o << l;
             }},
        };
        return all;
    }
    void damage(std::string& t) {
        static const char junk[] = "()[]=;:,./-+@>& _0123456789aMTXe\t\n\x80\xff";
        for (int j = 1 + (int)sim_rnd(3); j; --j) {
            size_t i = sim_rnd(t.size() + 1);
            char c = junk[sim_rnd(sizeof junk - 1)];
            switch (sim_rnd(5)) {
            case 0:
                t.resize(i);
                break;
            case 1:
                t.insert(i, 1, c);
                break;
            case 2:
                if (i < t.size())
                    t.erase(i, 1);
                break;
            case 3:
                t += t.substr(i);
                break;
            default:
                if (i < t.size())
                    t[i] = c;
            }
        }
    }
}

SIM_WORKLOAD(readers) {
    sim_step_cap(80000000);
    {
        sim::Pause z;
        RegisterAll_::Init(1);
        (void)readers();
    }
    int n = 3 + (int)sim_rnd(10);
    unsigned rates[] = {0, 2000, 20000, 200000};
    for (int k = 0; k < n; ++k) {
        const Reader& r = readers()[sim_rnd(readers().size())];
        std::string t;
        unsigned rate = rates[sim_rnd(4)];
        int how = (int)sim_rnd(6); // 0 one of the good texts, 1-2 one whose content is known, 3 one to be refused, 4-5 damaged
        bool whole = how < 3;
        Out want;
        bool known = false;
        {
            sim::Pause z;
            t = r.good[sim_rnd(r.good.size())];
            if ((how == 1 || how == 2) && r.say) {
                t = r.say(want);
                known = true;
            } else if (how == 3 && !r.bad.empty())
                t = r.bad[sim_rnd(r.bad.size())];
            else if (!whole) {
                how = 4;
                damage(t);
            }
            sim_note("%s: '%s'", r.name, t.c_str());
        }
        if (!sim_op(k))
            continue;
        auto once = [&](Out& o, bool faults) {
            String_ s;
            {
                sim::Pause z;
                s = String_(t.c_str());
            }
            try {
                sim_alloc_faults(faults);
                r.read(s, o);
                sim_alloc_faults(0);
                return true;
            } catch (const std::exception&) {
                sim_alloc_faults(0);
                return false;
            }
        };
        Out first, second, third;
        uint64_t before = sim_fault_count(F_ALLOC);
        sim_fault_rate(F_ALLOC, rate, 1 + rate / 100000);
        bool a = once(first, true);
        sim_fault_rate(F_ALLOC, 0, 0);
        bool faulted = sim_fault_count(F_ALLOC) != before;
        bool b = once(second, false);
        bool c = once(third, false);
        sim::Pause z;
        sim_probe(a ? 0 : 1);
        if (faulted)
            sim_probe(2);
        auto line = [](const Out& o) { return o.s.substr(0, 160); };
        if (b != c || (b && second.s != third.s))
            sim_violation("unstable-reading", "%s: '%s' is read as %s and then as %s", r.name, t.c_str(), line(second).c_str(), line(third).c_str());
        if (whole && !b)
            sim_violation("good-text-refused", "%s: '%s' was refused", r.name, t.c_str());
        if (how == 3 && b)
            sim_violation("bad-text-accepted", "%s: '%s' is read as %s", r.name, t.c_str(), line(second).c_str());
        if (known && second.s != want.s)
            sim_violation("wrong-reading", "%s: '%s' is read as %s instead of %s", r.name, t.c_str(), line(second).c_str(), line(want).c_str());
        if (b && !strcmp(r.name, "indices") && t.find('[') != std::string::npos && t.find(']') == std::string::npos)
            sim_violation("bad-text-accepted", "%s: '%s' was accepted although it is cut", r.name, t.c_str());
        if (a && (!b || first.s != second.s))
            sim_violation("misread", "%s: '%s' is read as %s without memory and as %s with it", r.name, t.c_str(), line(first).c_str(), b ? line(second).c_str() : "an error");
        if (!a && b && !faulted)
            sim_violation("unstable-reading", "%s: '%s' was refused and then read", r.name, t.c_str());
    }
}

// ------------------------------------------------------------------------------------------------ C19: nothing is kept
SIM_WORKLOAD(keeps) {
    sim_step_cap(200000000);
    sim_quiet(1);
    int job = (int)sim_rnd((uint64_t)NJOBS), k = (int)sim_rnd(NCASES), rounds = 3 + (int)sim_rnd(8);
    bool apart = sim_rnd_bool(1, 4); // by a thread of its own each time
    Shared s;
    {
        sim::Pause z;
        RegisterAll_::Init(1);
        XGLOBAL::SetEvaluationDate(Date_(2024, 1, 15));
        make(s, JOBS[job].need);
        sim_note("%s/%d", JOBS[job].name, k);
    }
    auto run = [&] {
        Out o;
        JOBS[job].run(s, k, o);
    };
    if (sim_rnd_bool(1, 4)) { // a text, whole or not
        const Reader* r;
        std::string t;
        String_ text;
        {
            sim::Pause z;
            r = &readers()[sim_rnd(readers().size())];
            t = r->good[sim_rnd(r->good.size())];
            int how = (int)sim_rnd(3);
            if (how == 1 && !r->bad.empty())
                t = r->bad[sim_rnd(r->bad.size())];
            else if (how)
                damage(t);
            text = String_(t.c_str());
            sim_note("%s: '%s'", r->name, t.c_str());
        }
        sim::keeps_nothing((std::string("reading ") + r->name).c_str(), [&] {
            Out o;
            r->read(text, o);
        }, rounds, 0);
        return;
    }
    if (!apart) {
        sim::keeps_nothing(JOBS[job].name, run, rounds, 0);
        return;
    }
    sim_probe(2);
    uint64_t at = 0;
    auto there = [&] {
        uint64_t hit = 0;
        std::thread t([&] {
            sim_alloc_fail_at(at);
            hit = sim::attempt_with_faults(run);
        });
        t.join();
        return hit;
    };
    static const unsigned rates[] = {0, 1000, 5000, 20000, 100000};
    sim_fault_rate(F_ALLOC, 0, 0);
    there(); // what is made once and for all is there from now on
    there();
    rounds = std::min(rounds, 5);
    for (int r = 0; r < rounds; ++r) {
        unsigned rate = rates[sim_rnd(5)];
        if (!sim_op(r))
            continue;
        sim_fault_rate(F_ALLOC, rate, 1);
        uint64_t hit = there();
        sim_fault_rate(F_ALLOC, 0, 0);
        sim_probe(hit ? 1 : 0);
        uint64_t live[5] = {};
        at = hit;
        bool grew = true;
        for (int i = 0; i < 5 && grew; ++i) {
            sim_origins(i != 0);
            there();
            sim_origins(0);
            live[i] = sim_live_blocks();
            grew = i < 2 || live[i] > live[i - 1];
        }
        at = 0;
        if (grew)
            sim_kept("memory-kept", (std::string("a thread that does ") + JOBS[job].name + (hit ? " and fails" : "") + " keeps " + std::to_string(live[4] - live[3]) + " blocks each time").c_str());
    }
}
