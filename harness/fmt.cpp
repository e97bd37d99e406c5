// Formatting conformance harness:  fmt <seed> <n> <profile> <out.ndjson>
// Records the text produced by the public formatting functions.
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/impl.hpp>
#include <uncertainties/io.hpp>
#include <sstream>
#include <fstream>
#include <sys/resource.h>
#include "common.hpp"
namespace unc = uncertainties;
Log LOG;

static string chars(const string &s) {
    string r = "[";
    for (size_t i = 0; i < s.size(); ++i) {
        char b[16]; std::snprintf(b, 16, "%s\"\\u%04x\"", i ? "," : "", (unsigned char) s[i]); r += b;
    }
    return r + "]";
}
// exponent of the exact decimal expansion (witness checked by the specification)
static int dexp(long double x) {
    if (x == 0 or isnan(x) or isinf(x)) return 0;
    char b[128]; std::snprintf(b, 128, "%.60Le", x);
    return std::atoi(std::strchr(b, 'e') + 1);
}
template<typename Real> Real decimal(Rng &g, int lo, int hi) {
    // values with short decimal expansions, near carries, ties, powers of ten
    int e = g.range(lo, hi);
    long double v;
    switch (g.below(9)) {
    case 0: v = 1; break;
    case 1: { const char *c[] = {"9.5", "9.95", "9.96", "9.994", "9.995", "9.996", "9.9", "9.49", "9.99", "0.95", "0.996", "9.9995", "9.999999", "9.9999996"}; v = std::strtold(c[g.below(14)], 0); break; }
    case 2: v = g.range(1, 99) / 8.0L; break;
    case 3: v = g.range(1, 9999) / 1000.0L; break;
    case 4: { const char *c[] = {"3.16", "3.17", "3.1", "3.2", "1.9", "2", "1.99", "1.01", "0.5", "5", "4.5", "2.5", "1.25", "4.999"}; v = std::strtold(c[g.below(14)], 0); break; }
    default: v = g.unif(1, 10);
    }
    std::ostringstream s; s.precision(25); s << v << "e" << e;
    Real x = FromText<Real>::get(s.str().c_str());
    if (g.p(.15)) for (int k = g.range(1, 2); k > 0; --k) x = nextafter(x, g.p(.6) ? Real(0) : std::numeric_limits<Real>::max());
    return x;
}
// bits of precision available at x (fewer for subnormal numbers)
template<typename Real> int bits(const Real &x) {
    using L = std::numeric_limits<Real>;
    if (not isfinite(x) or x == 0) return L::digits;
    return std::max(1, std::min(int(L::digits), ilogb(x) - (L::min_exponent - L::digits) + 1));
}

template<typename Real> void rec(const string &op, const Real &mu, const Real &s, float errdig, const string &sep, const string &text, const string &ex) {
    Obj o;
    float fl = std::floor(errdig);
    o.t("op", op).x("mu", mu).x("s", s).x("d", errdig).i("em", dexp(mu)).i("es", dexp(s));
    o.x("tl", powl(10.0L, (long double)(errdig - fl))).i("p", std::numeric_limits<Real>::digits).i("ps", bits(s)).i("pm", bits(mu));
    o.raw("c", chars(text)).raw("sep", chars(sep)).t("ex", ex).i("len", text.size());
    event(o, op);
}
// any type with its own nom and sdev
template<typename Real> struct Pair { Real mu, s; };
template<typename Real> Real nom(const Pair<Real> &x) { return x.mu; }
template<typename Real> Real sdev(const Pair<Real> &x) { return x.s; }
// a stream in any state (the width excepted, which concerns all of the output)
template<typename T> string streamed(Rng &g, const T &x) {
    std::ostringstream o;
    if (g.p(.5)) o.precision(g.range(0, 12));
    if (g.p(.3)) o << std::scientific; else if (g.p(.3)) o << std::fixed;
    if (g.p(.3)) o << std::uppercase;
    if (g.p(.3)) o << std::showpos;
    if (g.p(.3)) o << std::hex << std::showbase;
    o << x;
    return o.str();
}
template<typename U, typename Real> U second(Rng &g, const Real &mu, const Real &s, bool bend) {
    U x(mu, s, {0, 3, 0, 15, 0, 105}, -1);
    // a mean that differs from the first-order one, an uncertainty that is not the gradient
    if (bend and isfinite(mu) and isfinite(s) and s > 0) return unary(x, mu, 1, Real(g.unif(-2, 2)) / s);
    return x;
}
template<typename F> string caught(F f, string *text) {
    try { *text = f(); return ""; }
    catch (const std::invalid_argument &) { return "invalid_argument"; }
    catch (const std::exception &) { return "other"; }
}
template<typename Real> void num(Rng &g, int wide, Real *mu, Real *s) {
    using L = std::numeric_limits<Real>;
    int lim = wide == 0 ? 6 : wide == 1 ? (sizeof(Real) == 4 ? 18 : 60) : L::max_exponent10;
    bool far = false;
    if (lim > 400) { far = g.p(.2); if (not far) lim = 400; }   // the numbers beyond have thousands of digits
    *s = decimal<Real>(g, wide == 2 ? -lim + g.below(3) - 6 : -lim, wide == 2 ? lim : lim);
    // mean: zero, unrelated, or within a few digits of the uncertainty
    switch (g.below(8)) {
    case 0: *mu = 0; break;
    case 1: *mu = decimal<Real>(g, -lim, lim); break;
    case 2: *mu = *s * Real(g.unif(0, 1.5)); break;
    default: { int e = dexp(*s) + g.range(-3, 7); e = std::max(-lim, std::min(lim, e)); *mu = decimal<Real>(g, e, e); }
    }
    if (isinf(*mu)) *mu = L::max();
    if (isinf(*s)) *s = L::max();
    if (wide == 2 and (far or g.p(.5))) {   // keep the text short
        *mu = *s * Real(g.unif(-2000, 2000)); if (isinf(*mu)) *mu = *s;
    }
    if (g.p(.5)) *mu = -*mu;
}
template<typename U, typename Real> void two(Rng &g, const U &x, bool fmt, bool def, Real *rm, Real *rs, float *errdig, string *sep, string *op, string *ex, string *text) {
    *rm = x.n(); *rs = x.s();
    if (fmt) { *op = "format2"; *ex = caught([&] { return def ? unc::format(x) : g.p(.5) ? x.format(*errdig, *sep) : unc::format(x, *errdig, *sep); }, text); }
    else { *op = "stream2"; *ex = caught([&] { return streamed(g, x); }, text); *errdig = 1.5f; *sep = " ± "; }
}
template<typename Real> void one(Rng &g, bool special, int wide) {
    Real mu, s;
    num(g, wide, &mu, &s);
    const Real INF = std::numeric_limits<Real>::infinity(), NAN_ = std::numeric_limits<Real>::quiet_NaN();
    if (special) {
        switch (g.below(8)) {
        case 0: s = INF; break;
        case 1: s = NAN_; break;
        case 2: mu = g.p(.5) ? INF : -INF; break;
        case 3: mu = NAN_; break;
        case 4: mu = g.p(.5) ? INF : NAN_; s = g.p(.5) ? INF : Real(0); break;
        default: s = 0;
        }
        if (s == 0 and g.p(.1)) mu = g.p(.5) ? Real(0) : -Real(0);
    }
    float errdig;
    switch (g.below(10)) {
    case 0: errdig = 2; break;
    case 1: errdig = 1.5f; break;
    case 2: errdig = 3; break;
    case 3: errdig = float(g.unif(1.001, 2)); break;
    case 4: errdig = float(g.unif(1.001, 5)); break;
    case 5: errdig = g.range(2, 9); break;
    case 6: errdig = 1.000001f; break;
    case 7: errdig = g.p(.2) ? float(g.unif(8, 30)) : 2.5f; break;
    default: errdig = 1.5f;
    }
    if (special and g.p(.2)) errdig = g.p(.5) ? float(g.unif(-3, .999)) : g.p(.5) ? 0.f : -std::numeric_limits<float>::infinity();
    if (not special and g.p(.03)) errdig = float(g.unif(-3, .999));
    else if (not special and g.p(.12)) {       // about to carry to the next power of ten, at any number of digits
        const int n = g.range(1, std::numeric_limits<Real>::digits10), k = g.p(.4) ? 0 : g.range(-3, 3);
        errdig = float(n + g.unif(.05, .95));
        s = pow(Real(10), k) * (1 - Real(g.unif(.02, .98)) * pow(Real(10), -n));
    }
    const char *seps[] = {" ± ", " +/- ", "+-", ";", " ", "±", " pm ", "::", "--"};
    string sep = g.p(.4) ? " ± " : seps[g.below(9)];
    string text, ex, op;
    const bool valid = errdig > 1;
    intent(special ? "format:C15" : valid ? "format:C14" : "format:C15");
    Real rm, rs;
    const bool def = g.p(.25) and errdig == 1.5f;
    int kind = g.below(8);
    if (kind == 0 and special) {   // plain number
        rm = mu; rs = 0;
        op = "plain";
        ex = caught([&] { return def ? unc::format(mu) : unc::format(mu, errdig, sep); }, &text);
    } else if (kind <= 2) {
        const bool bend = wide < 2 and g.p(.6);
        if (g.p(.5)) two(g, second<unc::UReal2<Real, unc::Prop::est>>(g, mu, s, bend), kind == 1, def, &rm, &rs, &errdig, &sep, &op, &ex, &text);
        else two(g, second<unc::UReal2<Real, unc::Prop::mean>>(g, mu, s, bend), kind == 1, def, &rm, &rs, &errdig, &sep, &op, &ex, &text);
    } else if (kind == 7) {
        Pair<Real> x{mu, s};
        rm = mu; rs = s; op = "custom";
        ex = caught([&] { return def ? unc::format(x) : unc::format(x, errdig, sep); }, &text);
    } else {
        unc::UReal<Real> x(mu, s);
        if (special and s == 0 and g.p(.5)) x = unc::UReal<Real>(mu);
        rm = x.n(); rs = x.s();
        if (kind == 3) { op = "stream"; ex = caught([&] { return streamed(g, x); }, &text); errdig = 1.5f; sep = " ± "; }
        else if (kind == 4) { op = "member"; ex = caught([&] { return def ? x.format() : x.format(errdig, sep); }, &text); }
        else { op = "format"; ex = caught([&] { return def ? unc::format(x) : unc::format(x, errdig, sep); }, &text); }
    }
    if (def) sep = " ± ";
    rec(op, rm, rs, errdig, sep, text, ex);
}

// cases of spec/FmtMC.tla: a b n fraction, in units of a power of ten
template<typename Real> void given(long a, long b, int n, int fr, int e) {
    auto value = [&](long k) {
        const string s = std::to_string(k) + "e" + std::to_string(e);
        return FromText<Real>::get(s.c_str());
    };
    const float errdig = n + (fr ? .5f : 0.f);
    const unc::UReal<Real> x(value(a), value(b));
    string text, ex;
    intent("format:C14");
    ex = caught([&] { return unc::format(x, errdig, "+-"); }, &text);
    rec<Real>("given", x.n(), x.s(), errdig, "+-", text, ex);
}
int given_cases(const char *path) {
    std::ifstream in(path); long a, b, k = 0; int n, fr;
    static const int es[] = {-3, -4, 1, -1, -9, 6, -2, 0, -5, 3};
    bool open = false;
    while (in >> a >> b >> n >> fr) {
        if (n == 1 and not fr) continue;      // errdig == 1 is not documented
        if (k % 20 == 0) { if (open) trace_end(); Obj o; o.t("prof", "given").i("i", k); trace_begin(o); open = true; }
        const int e = es[(k * 7 + k / 10) % 10];
        switch (k++ % 5) { case 0: given<float>(a, b, n, fr, e); break; case 1: given<long double>(a, b, n, fr, e); break; default: given<double>(a, b, n, fr, e); }
    }
    if (open) trace_end();
    log_close();
    return 0;
}
int main(int argc, char **argv) {
    if (argc == 4 and string(argv[1]) == "cases") { log_open(argv[3]); return given_cases(argv[2]); }
    if (argc < 5) return 2;
    uint64_t seed = std::strtoull(argv[1], 0, 10); long n = std::atol(argv[2]);
    string prof = argv[3];
    struct rlimit r = {6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &r);
    log_open(argv[4]);
    bool special = prof == "special"; int wide = prof == "wide" ? 2 : prof == "mid" ? 1 : 0;
    for (long i = 0; i < n; ++i) {
        Rng g(seed * 1000003 + i * 7919 + 41);
        Obj o; o.t("prof", prof).i("i", i); trace_begin(o);
        for (int k = 0; k < 12; ++k) {
            int w = special ? g.below(3) : wide;
#ifdef USERTYPE
            one<usertype::Q>(g, special, w);
#else
            switch (g.below(4)) {
            case 0: one<float>(g, special, w); break;
            case 1: one<long double>(g, special, w); break;
            default: one<double>(g, special, w);
            }
#endif
        }
        trace_end();
    }
    log_close();
}
