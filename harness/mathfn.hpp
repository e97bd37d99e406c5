// The functions of math.hpp: sample points, values of the standard functions
// (the oracle for means) and the auxiliary libm values ("basis") in terms of
// which spec/MathFn.tla writes the derivatives.
#ifndef VERIF_MATHFN_HPP
#define VERIF_MATHFN_HPP
#include "common.hpp"
namespace mathfn {
enum F1 { F_ABS, F_EXP, F_EXP2, F_EXPM1, F_LOG, F_LOG10, F_LOG2, F_LOG1P, F_SQRT, F_CBRT, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS,
          F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_ERF, F_ERFC, n1 };
enum F2 { F_FMOD, F_REMAINDER, F_FMAX, F_FMIN, F_POW, F_HYPOT, F_ATAN2, n2 };
inline const char *name1(int f) {
    static const char *n[] = {"abs", "exp", "exp2", "expm1", "log", "log10", "log2", "log1p", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos",
                              "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc"};
    return n[f];
}
inline const char *name2(int f) {
    static const char *n[] = {"fmod", "remainder", "fmax", "fmin", "pow", "hypot", "atan2"};
    return n[f];
}
#define M1(F) \
    switch (f) { \
    case F_ABS: return F::abs(x); case F_EXP: return F::exp(x); case F_EXP2: return F::exp2(x); case F_EXPM1: return F::expm1(x); \
    case F_LOG: return F::log(x); case F_LOG10: return F::log10(x); case F_LOG2: return F::log2(x); case F_LOG1P: return F::log1p(x); \
    case F_SQRT: return F::sqrt(x); case F_CBRT: return F::cbrt(x); case F_SIN: return F::sin(x); case F_COS: return F::cos(x); \
    case F_TAN: return F::tan(x); case F_ASIN: return F::asin(x); case F_ACOS: return F::acos(x); case F_ATAN: return F::atan(x); \
    case F_SINH: return F::sinh(x); case F_COSH: return F::cosh(x); case F_TANH: return F::tanh(x); case F_ASINH: return F::asinh(x); \
    case F_ACOSH: return F::acosh(x); case F_ATANH: return F::atanh(x); case F_ERF: return F::erf(x); default: return F::erfc(x); }
#define M2(F) \
    switch (f) { \
    case F_FMOD: return F::fmod(x, y); case F_REMAINDER: return F::remainder(x, y); case F_FMAX: return F::fmax(x, y); \
    case F_FMIN: return F::fmin(x, y); case F_POW: return F::pow(x, y); case F_HYPOT: return F::hypot(x, y); default: return F::atan2(x, y); }
template<typename Real> Real std1(int f, const Real &x) { M1(std) }
template<typename Real> Real std2(int f, const Real &x, const Real &y) { M2(std) }
#ifdef USERTYPE
template<> inline usertype::Q std1<usertype::Q>(int f, const usertype::Q &x) { M1(usertype) }
template<> inline usertype::Q std2<usertype::Q>(int f, const usertype::Q &x, const usertype::Q &y) { M2(usertype) }
#endif
template<typename U> U lib1(int f, const U &x) { M1(uncertainties) }
template<typename U> U lib2(int f, const U &x, const U &y) { M2(uncertainties) }
#undef M1
#undef M2

// a point in the smooth domain of the function; false: give up this time
template<typename Real> bool point1(int f, Rng &g, Real *x) {
    const int L = sizeof(Real) == 4 ? 8 : 30;
    auto wide = [&](double a) -> double { // mixed magnitudes up to a, both signs
        switch (g.below(4)) {
        case 0: return g.range(-int(std::min(a, 6.)), int(std::min(a, 6.)));
        case 1: { double m = g.unif(1, 2) * ldexp(1.0, -g.below(L)); m = std::min(m, a); return g.p(.5) ? m : -m; }
        default: return g.unif(-a, a);
        }
    };
    auto pos = [&](int lo, int hi) -> double { return g.p(.2) ? g.range(1, 9) : g.p(.15) ? 1.0 : g.unif(1, 2) * ldexp(1.0, g.range(lo, hi)); };
    double v;
    switch (f) {
    case F_EXP: case F_EXPM1: case F_SINH: case F_COSH: v = wide(sizeof(Real) == 4 ? 7 : 25); break;
    case F_EXP2: v = wide(sizeof(Real) == 4 ? 10 : 36); break;
    case F_LOG: case F_LOG10: case F_LOG2: case F_SQRT: v = pos(-L / 2, L / 2); break;
    case F_LOG1P: v = g.p(.5) ? g.unif(-0.97, 3) : g.p(.5) ? pos(-L / 2, L / 2) : wide(.9); break;
    case F_CBRT: v = pos(-L / 2, L / 2); if (g.p(.5)) v = -v; break;
    case F_SIN: case F_COS: v = wide(30); break;
    case F_TAN: v = wide(12); if (abs(std::cos(v)) < .02) return false; break;
    case F_ASIN: case F_ACOS: case F_ATANH: v = wide(.98); if (abs(v) > .98) v = 0; break;
    case F_ATAN: case F_ASINH: v = g.p(.3) ? pos(0, L / 3) : wide(5); if (g.p(.5)) v = -v; break;
    case F_TANH: v = wide(g.p(.3) ? 40 : 4); break;
    case F_ACOSH: v = 1 + pos(-5, L / 3); break;
    case F_ERF: case F_ERFC: v = wide(g.p(.2) ? (sizeof(Real) == 4 ? 3.0 : 4.5) : 3); break;
    default: v = wide(40); if (v == 0) return false;      // abs
    }
    *x = Real(v);
    return true;
}
template<typename Real> bool point2(int f, Rng &g, Real *x, Real *y) {
    const int L = sizeof(Real) == 4 ? 6 : 20;
    auto val = [&]() -> double { switch (g.below(4)) { case 0: return g.range(-5, 5); case 1: return g.nz(L / 2); default: return g.unif(-4, 4); } };
    double a = val(), b = val();
    if (f == F_FMOD or f == F_REMAINDER) {
        if (g.p(.3)) { b = g.range(-7, 7); a = g.range(-40, 40) + .375; }
        Real A = Real(a), B = Real(b);
        if (g.p(.35)) { // the quotient is so close to an integer (half integer) that it may round to it
            B = Real(g.range(1, 99)) / Real(g.p(.5) ? 10 : 7) * (g.p(.5) ? -1 : 1);
            Real q = Real(g.range(1, 60)) + (f == F_FMOD ? Real(0) : Real(.5));
            A = q * B;
            int w = g.below(4);
            if (w < 2) A = nextafter(A, w == 0 ? Real(0) : 2 * A);
            else if (w == 2) { A = Real(g.range(1, 40)); B = Real(g.range(1, 20)) / Real(10); }
            if (g.p(.5)) A = -A;
        }
        if (B == 0) return false;
        if (abs(A / B) > 1000) return false;
        // not differentiable exactly on the jumps
        if (f == F_FMOD and abs(A) >= abs(B) and fmod(A, B) == 0) return false;
        if (f == F_REMAINDER and 2 * abs(remainder(A, B)) >= abs(B)) return false;
        *x = A; *y = B;
        return true;
    } else if (f == F_FMAX or f == F_FMIN) {
        if (Real(a) == Real(b)) return false;
    } else if (f == F_POW) {
        switch (g.below(8)) {
        case 0: a = 0; b = g.range(0, 4); break;                    // zero base, constant exponent
        case 1: a = -g.unif(.2, 4); b = g.range(-4, 4); break;      // negative base, constant integer exponent
        case 2: a = -g.range(1, 4); b = g.range(-4, 5); break;
        case 3: a = g.unif(.2, 4); b = g.range(-3, 4); break;
        case 4: a = 1; break;
        default: a = g.unif(1, 2) * ldexp(1.0, g.range(-4, 4)); b = g.unif(-4, 4);
        }
    } else {
        if (g.p(.12)) a = 0;
        if (g.p(.12)) b = 0;
        if (f == F_HYPOT and g.p(.2)) b = a * (g.p(.5) ? 1 : -1);
        if (a == 0 and b == 0) return false;
    }
    *x = Real(a); *y = Real(b);
    return true;
}
// Means far from 1 for which the function and its derivatives stay in range
// although the square of the mean does not; the uncertainty is scaled alike.
template<typename Real> void far1(int f, Rng &g, Real *x, Real *sc, int less=1) {
    const int E = (sizeof(Real) == 4 ? 80 : 600) / less;
    int e = 0;
    switch (f) {
    case F_ASINH: e = g.range(E / 2, E); break;
    case F_ACOSH: e = g.range(E / 2, E); *x = abs(*x); break;
    case F_LOG: case F_LOG2: case F_LOG10: case F_CBRT: case F_ABS: e = g.range(-E, E); break;
    default: return;
    }
    *sc = ldexp(Real(1), f == F_ABS ? 0 : f == F_CBRT ? 2 * e / 3 : e);
    *x = ldexp(*x, e);
}
template<typename Real> void far2(int f, Rng &g, Real *x, Real *y, Real *sc, int less=1) {
    const int E = (sizeof(Real) == 4 ? 80 : 600) / less;
    if (f != F_HYPOT and f != F_ATAN2 and f != F_FMAX and f != F_FMIN and f != F_FMOD and f != F_REMAINDER) return;
    int e = g.range(-E, E);
    *sc = ldexp(Real(1), f == F_ATAN2 ? e : 0);
    *x = ldexp(*x, e); *y = ldexp(*y, e);
}
// auxiliary values, computed in long double or in the type itself if longer
template<typename Real> struct Wide { typedef long double type; };
#ifdef USERTYPE
template<> struct Wide<usertype::Q> { typedef usertype::Q type; };
#endif
template<typename W> vector<W> basis1(int f, const W &x) {
    using namespace std;
    switch (f) {
    case F_EXP: case F_EXPM1: return {exp(x)};
    case F_EXP2: return {exp2(x)};
    case F_SQRT: return {sqrt(x)};
    case F_CBRT: return {cbrt(x)};
    case F_SIN: case F_COS: return {sin(x), cos(x)};
    case F_TAN: return {sin(x), cos(x)};
    case F_ASIN: case F_ACOS: return {sqrt((1 - x) * (1 + x))};
    case F_SINH: case F_COSH: case F_TANH: return {sinh(x), cosh(x)};
    case F_ASINH: return {sqrt(1 + x * x)};
    case F_ACOSH: return {sqrt((x - 1) * (x + 1))};
    case F_ERF: case F_ERFC: return {exp(-x * x)};
    default: return {};
    }
}
template<typename W> vector<W> basis2(int f, const W &x, const W &y) {
    using namespace std;
    switch (f) {
    case F_POW: return {pow(x, y), x > 0 ? log(x) : W(0), x == 0 and y < 1 ? W(0) : pow(x, y - 1), x == 0 and y < 2 ? W(0) : pow(x, y - 2)};
    case F_HYPOT: return {hypot(x, y)};
    default: return {};
    }
}
// Points and finite differences from which spec/MathTable.tla validates the
// derivative formulas of spec/MathFn.tla against the standard functions.
inline void table() {
    Rng g(12345);
    const long double h = 0x1p-12L;
    trace_begin(Obj().t("ty", "l"));
    for (int f = 0; f < n1; ++f) for (int r = 0; r < 12; ++r) {
        long double x;
        double lo = -2, hi = 2;
        switch (f) {
        case F_LOG: case F_LOG10: case F_LOG2: case F_SQRT: lo = .5; hi = 4; break;
        case F_LOG1P: lo = -.5; break;
        case F_ASIN: case F_ACOS: case F_ATANH: lo = -.6; hi = .6; break;
        case F_TAN: lo = -1; hi = 1; break;
        case F_ACOSH: lo = 1.5; hi = 4; break;
        }
        x = g.unif(lo, hi);
        if ((f == F_ABS or f == F_CBRT) and fabsl(x) < .5) x += x < 0 ? -.5L : .5L;
        Obj o; o.t("op", "tab1").t("f", name1(f)).x("x", x).x("v", std1<long double>(f, x)).xs("w", basis1(f, x)).x("h", h)
            .x("vp", std1<long double>(f, x + h)).x("vm", std1<long double>(f, x - h));
        event(o, "tab1");
    }
    for (int f = 0; f < n2; ++f) for (int r = 0; r < 12; ++r) {
        long double x = g.unif(.6, 3), y = g.unif(.6, 3);
        if (f != F_POW and r % 2) x = -x;
        if (f != F_POW and r % 4 >= 2) y = -y;
        if (f == F_FMOD or f == F_REMAINDER) { x = (r % 2 ? -1 : 1) * (r + .3L); y = r % 4 >= 2 ? -1.7L : 1.7L;
            long double q = x / y; if (fabsl(q - roundl(q)) < .05 or fabsl(fabsl(q - truncl(q)) - .5L) < .05) continue; }
        Obj o; o.t("op", "tab2").t("f", name2(f)).x("x", x).x("y", y).xs("w", basis2(f, x, y)).x("h", h);
        long double v[9]; int k = 0;
        for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) v[k++] = std2<long double>(f, x + i * h, y + j * h);
        o.x("v", v[4]).xs("g", vector<long double>(v, v + 9));
        event(o, "tab2");
    }
    trace_end();
}
}
#endif
