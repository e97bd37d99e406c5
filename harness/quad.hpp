// A numeric type as a user would define it: a class in a namespace of its
// own, with operators, conversions from the built-in types, functions found
// by argument dependent lookup, and numeric_limits.  113 bits of precision.
#ifndef VERIF_QUAD_HPP
#define VERIF_QUAD_HPP
#include <quadmath.h>
#include <limits>
#include <string>
#include <ostream>
#include <cmath>
#include <cstring>
#include <cstdlib>
namespace usertype {
class Q {
public:
    __float128 v;
    constexpr Q() : v(0) {}
    constexpr Q(int x) : v(x) {}
    constexpr Q(unsigned x) : v(x) {}
    constexpr Q(long x) : v(x) {}
    constexpr Q(unsigned long x) : v(x) {}
    constexpr Q(long long x) : v(x) {}
    constexpr Q(float x) : v(x) {}
    constexpr Q(double x) : v(x) {}
    constexpr Q(long double x) : v(x) {}
    constexpr Q(__float128 x) : v(x) {}
    explicit operator int() const { return int(v); }
    explicit operator long() const { return long(v); }
    explicit operator float() const { return float(v); }
    explicit operator double() const { return double(v); }
    explicit operator long double() const { return (long double)(v); }
    explicit operator unsigned() const { return (unsigned)(v); }
    explicit operator unsigned long() const { return (unsigned long)(v); }
    explicit operator long long() const { return (long long)(v); }
    explicit operator bool() const { return v != 0; }
    Q &operator++() { v += 1; return *this; }
    Q &operator--() { v -= 1; return *this; }
    Q operator++(int) { Q o = *this; v += 1; return o; }
    Q operator--(int) { Q o = *this; v -= 1; return o; }
    friend bool operator!(const Q &a) { return a.v == 0; }
    Q &operator+=(const Q &o) { v += o.v; return *this; }
    Q &operator-=(const Q &o) { v -= o.v; return *this; }
    Q &operator*=(const Q &o) { v *= o.v; return *this; }
    Q &operator/=(const Q &o) { v /= o.v; return *this; }
    friend Q operator+(const Q &a, const Q &b) { return Q(a.v + b.v); }
    friend Q operator-(const Q &a, const Q &b) { return Q(a.v - b.v); }
    friend Q operator*(const Q &a, const Q &b) { return Q(a.v * b.v); }
    friend Q operator/(const Q &a, const Q &b) { return Q(a.v / b.v); }
    friend Q operator-(const Q &a) { return Q(-a.v); }
    friend Q operator+(const Q &a) { return a; }
    friend bool operator<(const Q &a, const Q &b) { return a.v < b.v; }
    friend bool operator>(const Q &a, const Q &b) { return a.v > b.v; }
    friend bool operator<=(const Q &a, const Q &b) { return a.v <= b.v; }
    friend bool operator>=(const Q &a, const Q &b) { return a.v >= b.v; }
    friend bool operator==(const Q &a, const Q &b) { return a.v == b.v; }
    friend bool operator!=(const Q &a, const Q &b) { return a.v != b.v; }
};
#define QF1(NAME, F) inline Q NAME(const Q &x) { return Q(F(x.v)); }
QF1(abs, fabsq) QF1(fabs, fabsq) QF1(sqrt, sqrtq) QF1(cbrt, cbrtq) QF1(exp, expq) QF1(expm1, expm1q) QF1(log, logq) QF1(log10, log10q)
QF1(log2, log2q) QF1(log1p, log1pq) QF1(sin, sinq) QF1(cos, cosq) QF1(tan, tanq) QF1(asin, asinq) QF1(acos, acosq) QF1(atan, atanq)
QF1(sinh, sinhq) QF1(cosh, coshq) QF1(tanh, tanhq) QF1(asinh, asinhq) QF1(acosh, acoshq) QF1(atanh, atanhq) QF1(erf, erfq) QF1(erfc, erfcq)
QF1(floor, floorq) QF1(ceil, ceilq) QF1(trunc, truncq) QF1(round, roundq) QF1(rint, rintq) QF1(nearbyint, nearbyintq) QF1(tgamma, tgammaq) QF1(lgamma, lgammaq)
inline Q exp2(const Q &x) { return Q(powq(2, x.v)); }
#define QF2(NAME, F) inline Q NAME(const Q &x, const Q &y) { return Q(F(x.v, y.v)); }
QF2(fmod, fmodq) QF2(remainder, remainderq) QF2(fmax, fmaxq) QF2(fmin, fminq) QF2(pow, powq) QF2(hypot, hypotq) QF2(atan2, atan2q) QF2(nextafter, nextafterq) QF2(copysign, copysignq) QF2(fdim, fdimq)
inline Q fma(const Q &x, const Q &y, const Q &z) { return Q(fmaq(x.v, y.v, z.v)); }
inline Q pow(const Q &x, int n) { return Q(powq(x.v, n)); }
inline Q ldexp(const Q &x, int e) { return Q(ldexpq(x.v, e)); }
inline Q frexp(const Q &x, int *e) { return Q(frexpq(x.v, e)); }
inline Q modf(const Q &x, Q *i) { return Q(modfq(x.v, &i->v)); }
inline bool isnan(const Q &x) { return isnanq(x.v); }
inline bool isinf(const Q &x) { return isinfq(x.v); }
inline bool isfinite(const Q &x) { return finiteq(x.v); }
inline bool signbit(const Q &x) { return signbitq(x.v); }
inline bool isnormal(const Q &x) { return finiteq(x.v) and fabsq(x.v) >= FLT128_MIN; }
inline Q scalbn(const Q &x, int e) { return Q(scalbnq(x.v, e)); }
inline Q logb(const Q &x) { return Q(ilogbq(x.v)); }
inline int ilogb(const Q &x) { return ilogbq(x.v); }
inline int lround(const Q &x) { return int(lroundq(x.v)); }
inline std::ostream &operator<<(std::ostream &o, const Q &x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.6Qg", x.v); return o << b; }
}
namespace std {
template<> struct numeric_limits<usertype::Q> {
    typedef usertype::Q Q;
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true,
        has_quiet_NaN = true, is_iec559 = true, is_bounded = true, is_modulo = false;
    static constexpr int digits = 113, digits10 = 33, max_digits10 = 36, radix = 2, min_exponent = -16381, max_exponent = 16384, min_exponent10 = -4931, max_exponent10 = 4932;
    static constexpr float_round_style round_style = round_to_nearest;
    static Q min() { return Q(FLT128_MIN); }
    static Q max() { return Q(FLT128_MAX); }
    static Q lowest() { return Q(-FLT128_MAX); }
    static Q epsilon() { return Q(FLT128_EPSILON); }
    static Q round_error() { return Q(0.5); }
    static Q infinity() { return Q(__builtin_infq()); }
    static Q quiet_NaN() { return Q(__float128(__builtin_nan(""))); }
    static Q denorm_min() { return Q(FLT128_DENORM_MIN); }
};
}
inline int dexp(const usertype::Q &x) { // exponent of the decimal expansion
    if (x.v == 0 or isnanq(x.v) or isinfq(x.v)) return 0;
    char b[256]; quadmath_snprintf(b, sizeof b, "%.120Qe", x.v);
    return std::atoi(std::strchr(b, 'e') + 1);
}
inline std::string hex(const usertype::Q &x) {
    if (isnanq(x.v)) return "nan";
    if (isinfq(x.v)) return x.v > 0 ? "inf" : "-inf";
    if (x.v == 0) return "0";
    char b[96]; quadmath_snprintf(b, sizeof b, "%Qa", x.v); return b;
}
#endif
