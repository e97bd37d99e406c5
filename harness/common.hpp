// Shared pieces of the conformance harnesses: random numbers, exact logging
// of floating point values, JSON lines, crash reporting.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <random>
#include <exception>
#include <stdexcept>
#include <functional>
#include <memory>
#include <utility>
#include <limits>
#include <type_traits>
#include <unistd.h>

using std::string;
using std::vector;
// for the numeric types under test, which may be classes: call unqualified
using std::abs; using std::ldexp; using std::sqrt; using std::isnan; using std::isinf; using std::isfinite; using std::isnormal;
using std::fmod; using std::remainder; using std::nextafter; using std::ilogb;

// ---------------------------------------------------------------- numbers
inline string hex(double x) {
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
    if (x == 0) return "0";
    char b[64]; std::snprintf(b, sizeof b, "%a", x); return b;
}
inline string hex(float x) { return hex(double(x)); }
inline string hex(long double x) {
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
    if (x == 0) return "0";
    char b[80]; std::snprintf(b, sizeof b, "%La", x); return b;
}
// decimal number to the nearest value of the type
template<typename Real> struct FromText { static Real get(const char *s) { return Real(sizeof(Real) == 4 ? std::strtof(s, 0) : sizeof(Real) == 8 ? std::strtod(s, 0) : std::strtold(s, 0)); } };
#ifdef USERTYPE
#include "quad.hpp"
template<> struct FromText<usertype::Q> { static usertype::Q get(const char *s) { return usertype::Q(strtoflt128(s, 0)); } };
#endif
template<typename Real> inline string qhex(const Real &x) { return "\"" + hex(x) + "\""; }

// relative tolerance 2^-k used by the specifications for each numeric type
template<typename Real> struct Tol { static const int k = std::numeric_limits<Real>::digits - 9; };

// ------------------------------------------------------------------- JSON
inline string jstr(const string &s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
struct Obj {
    string s; bool first = true;
    Obj() : s("{") {}
    Obj &raw(const string &k, const string &v) {
        if (!first) s += ",";
        first = false; s += "\"" + k + "\":" + v; return *this;
    }
    Obj &i(const string &k, long long v) { return raw(k, std::to_string(v)); }
    Obj &b(const string &k, bool v) { return raw(k, v ? "true" : "false"); }
    Obj &t(const string &k, const string &v) { return raw(k, jstr(v)); }
    template<typename Real> Obj &x(const string &k, const Real &v) { return raw(k, qhex(v)); }
    template<typename Real> Obj &xs(const string &k, const vector<Real> &v) {
        string a = "[";
        for (size_t j = 0; j < v.size(); ++j) { if (j) a += ","; a += qhex(v[j]); }
        return raw(k, a + "]");
    }
    Obj &is(const string &k, const vector<int> &v) {
        string a = "[";
        for (size_t j = 0; j < v.size(); ++j) { if (j) a += ","; a += std::to_string(v[j]); }
        return raw(k, a + "]");
    }
    string str() const { return s + "}"; }
};

// -------------------------------------------------- trace file and crashes
// A crash (failed assertion, signal, hang) inside the library is itself an
// event: {"op":"crash",...} naming the operation that was running.
struct Log {
    FILE *f = nullptr;
    string head, evs;      // current trace
    char cur[512];         // operation in progress (for the crash handler)
    int nev = 0;
    long total = 0, traces = 0;
    std::map<string, long> ops;
};
extern Log LOG;
inline void trace_begin(const Obj &o) {
    LOG.head = o.s; LOG.evs.clear(); LOG.nev = 0;
}
inline void trace_end() {
    if (LOG.nev == 0) return;
    std::fputs(LOG.head.c_str(), LOG.f);
    std::fputs(",\"ev\":[", LOG.f); std::fputs(LOG.evs.c_str(), LOG.f); std::fputs("]}\n", LOG.f);
    LOG.traces++;
    LOG.nev = 0; LOG.evs.clear();
}
inline void event(const Obj &o, const string &op) {
    if (LOG.nev++) LOG.evs += ",";
    LOG.evs += o.str(); LOG.total++; LOG.ops[op]++;
    alarm(60);
}
inline void intent(const char *what) { std::strncpy(LOG.cur, what, sizeof LOG.cur - 1); }
inline void crash_exit(const char *how) {
    static volatile sig_atomic_t once = 0;
    if (once) _exit(3);
    once = 1;
    Obj o; o.t("op", "crash").t("how", how).t("in", LOG.cur);
    if (LOG.nev++) LOG.evs += ",";
    LOG.evs += o.str();
    trace_end();
    std::fflush(LOG.f);
    std::fprintf(stderr, "harness: %s in %s\n", how, LOG.cur);
    _exit(0);
}
inline void on_signal(int s) {
    crash_exit(s == SIGALRM ? "hang" : s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGFPE ? "fpe" : "signal");
}
inline void log_open(const char *path) {
    LOG.f = std::fopen(path, "w");
    if (!LOG.f) { std::perror(path); std::exit(2); }
    LOG.cur[0] = 0;
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, on_signal);
    std::set_terminate([] { crash_exit("terminate"); });
    alarm(60);
}
inline void log_close() {
    alarm(0);
    std::fclose(LOG.f);
    std::printf("traces %ld events %ld\n", LOG.traces, LOG.total);
    for (auto &p : LOG.ops) std::printf("op %s %ld\n", p.first.c_str(), p.second);
}

// ------------------------------------------------------------------ random
struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s) {}
    uint64_t u() { return g(); }
    int below(int n) { return int(g() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool p(double q) { return double(g() >> 11) * 0x1p-53 < q; }
    double unif() { return double(g() >> 11) * 0x1p-53; }
    double unif(double a, double b) { return a + (b - a) * unif(); }
    // a factor: signed, mixed magnitudes, ints and awkward doubles
    double num(int lim = 30) {
        switch (below(10)) {
        case 0: return range(-4, 4);
        case 1: return range(-9, 9) / 4.0;
        case 2: return p(.5) ? 1 : -1;
        case 3: { double m = unif(1, 2); return (p(.5) ? m : -m) * std::ldexp(1.0, range(-lim, lim)); }
        case 4: return p(.3) ? 0 : unif(-1e-3, 1e-3);
        default: return unif(-3, 3);
        }
    }
    double nz(int lim = 30) { for (;;) { double x = num(lim); if (std::abs(x) > std::ldexp(1.0, -lim)) return x; } }
    double sd(int lim = 20) {
        switch (below(6)) {
        case 0: return 1;
        case 1: return std::ldexp(1.0, range(-lim, lim));
        case 2: return range(1, 5) / 2.0;
        case 3: return unif(1, 2) * std::ldexp(1.0, range(-lim, lim));
        default: return unif(0.01, 3);
        }
    }
};
#endif
