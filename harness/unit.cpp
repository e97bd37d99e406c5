// C21: one translation unit; compiled with UNIT=1 and UNIT=2.  It includes
// every header but impl.hpp, has variables at namespace scope, and evaluates
// a set of expressions that reaches every header.
#include <Eigen/Dense>
#if UNIT == 1
#include <uncertainties/ureal.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#else
#include <uncertainties/distr.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/ureal.hpp>
#endif
#include <list>
#include <sstream>
#include <stdexcept>
#include "units.hpp"
namespace unc = uncertainties;
namespace {
typedef unc::UReal<double> U1; typedef unc::UReal<float> UF; typedef unc::UReal<long double> UL;
typedef unc::UReal2<double, unc::Prop::est> E2; typedef unc::UReal2<float, unc::Prop::mean> M2;

std::string hexd(long double x) { char b[64]; std::snprintf(b, sizeof b, "%La ", x); return b; }
volatile double one = 1, half = 0.5, two = 2;

template<typename R> void first_order(std::string &s) {
    typedef unc::UReal<R> U;
    const R n1 = one, n2 = two, nh = half;
    U x(n1 + nh, nh), y(n2, n1 / 4), c(n2);
    U z = x * y - x / y + c;
    s += hexd(z.n()) + hexd(z.s()) + hexd(cov(z, x)) + hexd(corr(z, y)) + hexd(var(z)) + hexd(z.grad(x));
    z += x; z *= y; z -= c; z /= x; s += hexd(z.n()) + hexd(z.s());
    s += unc::format(z) + unc::format(x, 2.5f) + unc::format(c) + z.format(3);
    std::ostringstream o; o << z; s += o.str();
    U f = sin(x) + cos(y) * exp(x) + log(y) + erf(x) - erfc(y) + log10(y) + log2(x) + exp2(x) + atan2(x, y) + pow(x, y) + hypot(x, y) + fmod(y, x) + abs(x) + tanh(x);
    s += hexd(f.n()) + hexd(cov(f, x)) + hexd(cov(f, y));
    std::vector<U> v; v.push_back(x); v.push_back(y); v.push_back(z);
    auto C = unc::cov_matrix<std::vector<R>>(v); auto K = unc::corr_matrix<std::vector<R>>(v); auto N = unc::nom_vector<std::vector<R>>(v);
    for (size_t i = 0; i < 9; ++i) s += hexd(C[i]) + hexd(K[i]);
    for (size_t i = 0; i < 3; ++i) s += hexd(N[i]);
    U w = change_nom(z, n1); s += hexd(w.n()) + hexd(cov(w, y));
    s += hexd(unc::nom(z)) + hexd(unc::sdev(z)) + (isfinite(z) ? "f" : "-") + (isnormal(c) ? "n" : "-");
    auto g = unc::uunary<R>([](R a) { return a * a; }, [](R a) { return 2 * a; });
    auto h = unc::uunary<R>([](R a) { return a * a; });
    auto b = unc::ubinary<R>([](R a, R b) { return a * b; }, [](R, R b) { return b; }, [](R a, R) { return a; });
    s += hexd(cov(g(x), x)) + hexd(cov(h(x), x)) + hexd(cov(b(x, y), y)) + "\n";
    try { U bad(n1, -n1); s += "constructed"; } catch (std::invalid_argument &e) { s += e.what(); }
}
template<typename R, unc::Prop P> void second_order(std::string &s) {
    typedef unc::UReal2<R, P> U;
    const R n1 = one, n2 = two, nh = half;
    std::array<R, 6> mom = {{R(one), R(one) * 5, R(one) * 11, R(one) * 37, R(one) * 120, R(one) * 620}};
    U x(n1 + nh, nh, mom), y = unc::distr::normal<U>(n2, n1 / 4), u = unc::distr::uniform<U>(n1, n2), k = unc::distr::chisquare<U>(3);
    U z = x * y - u / y + sin(x) * k + pow(y, U(n2)) + exp(x) + erf(y) + atan2(x, y);
    s += hexd(z.n()) + hexd(z.s()) + hexd(z.skew()) + hexd(z.kurt()) + hexd(z.first_order_n()) + hexd(z.m(3)) + hexd(z.m(4));
    s += hexd(cov(z, x)) + hexd(corr(z, k)) + hexd(var(u)) + hexd(z.grad(x)) + hexd(z.hess(x, x)) + hexd(z.hess(x, y));
    s += unc::format(z) + z.format(2);
    U lin = 2 * x + y; s += hexd(lin.hess(x, y)) + hexd(lin.skew()) + hexd(cov(lin, z)) + hexd(lin.grad(u)) + (lin.isindep() ? "i" : "d");
    unc::UReal2<R, P == unc::Prop::est ? unc::Prop::mean : unc::Prop::est> o(z); s += hexd(o.n()) + hexd(o.s());
    std::vector<U> v; v.push_back(x); v.push_back(z);
    auto C = unc::cov_matrix<std::vector<R>>(v); for (size_t i = 0; i < 4; ++i) s += hexd(C[i]);
    s += (isfinite(z) ? "f" : "-"); s += (isnormal(x) ? "n" : "-");
    auto g = unc::uunary2<R, P>([](R a) { return a * a; }, [](R a) { return 2 * a; }, [](R) { return R(2); });
    s += hexd(g(x).s()) + "\n";
    try { mom[1] = R(-one); U bad(n1, n1, mom); s += "constructed"; } catch (std::exception &e) { s += e.what(); }
}
std::string digest() {
    std::string s;
    try {
        first_order<double>(s); first_order<float>(s); first_order<long double>(s);
        second_order<double, unc::Prop::est>(s); second_order<double, unc::Prop::mean>(s); second_order<float, unc::Prop::mean>(s);
        std::vector<double> mu = {one, two, half}, V = {two, half, 0, half, two, -half, 0, -half, one};
        auto us = unc::ureals<std::vector<U1>>(mu, V);
        for (auto &u : us) s += hexd(u.n()) + hexd(u.s()) + hexd(cov(u, us[0]));
    } catch (std::exception &e) { s += std::string("exception ") + e.what(); }
    return s;
}

// variables at namespace scope
U1 s1(1, 1); UF s2(2, 1); UL s3(3, 1); E2 s4 = unc::distr::normal<E2>(4, 1); M2 s5 = unc::distr::normal<M2>(5, 1);
std::string sdig = digest();

struct Made { std::list<U1> a; std::list<UF> b; std::list<UL> c; std::list<E2> d; std::list<M2> e; std::vector<int> types; };
Made &made() { static Made m; return m; }
int make(int type) {
    Made &m = made(); m.types.push_back(type);
    switch (type) {
    case 1: m.a.push_back(U1(double(one), double(one))); return m.a.back().indepid();
    case 2: m.b.push_back(UF(float(one), float(one))); return m.b.back().indepid();
    case 3: m.c.push_back(UL(double(one), double(one))); return m.c.back().indepid();
    case 4: m.d.push_back(unc::distr::normal<E2>(double(one), double(one))); return m.d.back().indepid();
    default: m.e.push_back(unc::distr::normal<M2>(float(one), float(one))); return m.e.back().indepid();
    }
}
void keep(size_t) { made() = Made(); }
void sum(void *pu, void *pe) {
    U1 &u = *static_cast<U1 *>(pu); E2 &e = *static_cast<E2 *>(pe); Made &m = made();
    u = u + s1 + U1(s2) + U1(s3); e = e + s4 + E2(s5);
    for (auto &x : m.a) u += x;
    for (auto &x : m.b) u += U1(x);
    for (auto &x : m.c) u += U1(x);
    for (auto &x : m.d) e = e + x;
    for (auto &x : m.e) e = e + E2(x);
}
}
#define GLUE2(a, b) a##b
#define GLUE(a, b) GLUE2(a, b)
UnitApi &GLUE(unit_, UNIT)() {
    static UnitApi a;
    a.static_ids = {s1.indepid(), s2.indepid(), s3.indepid(), s4.indepid(), s5.indepid()};
    a.static_digest = sdig; a.digest = digest; a.make = make; a.keep = keep; a.sum = sum;
    return a;
}
