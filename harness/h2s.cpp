// Runs the programs printed by spec/SparseHess.tla on the real UReal2:
//   h2s <programs> <failures>
// A program gives two operands (variables present, stored mixed pairs,
// gradients, half Hessians), the derivatives of a two-argument function, and
// the gradient and Hessian the specification derives.
#include <uncertainties/ureal2.hpp>
#include <uncertainties/impl.hpp>
#include <csignal>
#include <exception>
#include <array>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <sstream>
#include <iostream>
#include <vector>
namespace unc = uncertainties;
using std::vector; using std::string;

template<typename U> struct Runner {
    vector<U> b;
    Runner() { for (int i = 0; i < 4; ++i) b.push_back(U(0, 1, {0, 3, 0, 15, 0, 105})); }
    struct Op { vector<int> D, T; vector<long> G, H; };
    static int pr(int n, int i, int j) { int k = 0; for (int a = 0; a < n; ++a) for (int c = a; c < n; ++c, ++k) if (a == i and c == j) return k; return -1; }
    U build(const Op &o, int n, int mean) const {
        U x(mean);
        for (int i = 0; i < n; ++i) if (o.D[i]) x = x + unary(b[i], 0, o.G[i], 2 * o.H[pr(n, i, i)]);
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (o.T[pr(n, i, j)])
            x = x + binary(b[i], b[j], 0, 0, 0, 0, 0, 2 * o.H[pr(n, i, j)]);
        return x;
    }
    string differs(const U &z, int n, const vector<long> &want, const char *how, int mean) const {
        std::ostringstream s;
        if (z.first_order_n() != mean) s << how << " mean " << z.first_order_n() << " expected " << mean << "; ";
        for (int i = 0; i < n; ++i) if (z.grad(b[i]) != want[i]) s << how << " grad " << i + 1 << " is " << z.grad(b[i]) << " expected " << want[i] << "; ";
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
            long w = want[n + pr(n, i, j)];
            if (z.hess(b[i], b[j]) != w or z.hess(b[j], b[i]) != w)
                s << how << " hess " << i + 1 << "," << j + 1 << " is " << z.hess(b[i], b[j]) << "," << z.hess(b[j], b[i]) << " expected " << w << "; ";
        }
        return s.str();
    }
    string run(int n, const Op &ox, const Op &oy, const vector<long> &d, const vector<long> &want) const {
        const U x = build(ox, n, 4), y = build(oy, n, -9);
        U z = binary(x, y, 77, d[0], d[1], d[2], d[3], d[4]);
        string e = differs(z, n, want, "binary", 77);
        U w = x;
        binary_assign(w, y, 77, d[0], d[1], d[2], d[3], d[4]);
        e += differs(w, n, want, "binary_assign", 77);
        int nv = want.back();
        bool ind = z.isindep();
        if (nv >= 2 and ind) {   // two or more variables with nonzero dependence must not report independent
            int dep = 0;
            for (int i = 0; i < n; ++i) { bool any = want[i] != 0; for (int j = 0; j < n; ++j) any = any or want[n + pr(n, std::min(i, j), std::max(i, j))] != 0; dep += any; }
            if (dep >= 2) e += "isindep; ";
        }
        // operands are untouched
        vector<long> wx, wy;
        for (long g : ox.G) wx.push_back(g);
        for (long h : ox.H) wx.push_back(2 * h);
        for (long g : oy.G) wy.push_back(g);
        for (long h : oy.H) wy.push_back(2 * h);
        e += differs(x, n, wx, "left operand", 4) + differs(y, n, wy, "right operand", -9);
        return e;
    }
};

// Programs of spec/Motifs.tla: quadratics of up to five independent variables
// with given gradients and half Hessians, and their moments or covariance.
template<typename U> struct Quads {
    vector<U> b; static const int sign;
    Quads() {
        b.push_back(U(0, 1, {2, 9, 44, 265, 1854, 14833})); b.push_back(U(0, 1, {-1, 4, -11, 41, -162, 715}));
        b.push_back(U(0, 1, {2, 7, 28, 131, 690, 4033})); b.push_back(U(0, 1, {1, 4, 11, 41, 162, 715}));
        b.push_back(U(0, 1, {0, 3, 0, 15, 0, 105}));
    }
    struct Q { vector<long> g, h; };      // h: half Hessian, element (i <= j) at j(j+1)/2+i
    // zeros: terms that are zero are stored too
    U build(const Q &q, double mean, bool zeros) const {
        U x(mean); const int n = q.g.size();
        for (int j = 0, k = 0; j < n; ++j) {
            for (int i = 0; i < j; ++i, ++k) if (zeros or q.h[k]) x = x + binary(b[i], b[j], 0, 0, 0, 0, 0, 2 * q.h[k]);
            if (zeros or q.g[j] or q.h[k]) x = x + unary(b[j], 0, q.g[j], 2 * q.h[k]);
            ++k;
        }
        return x;
    }
    // the coefficients are as intended: the moments are decided only for those
    bool built(const U &x, const Q &q, double mean) const {
        const int n = q.g.size();
        if (x.first_order_n() != mean) return false;
        for (int j = 0, k = 0; j < n; ++j) {
            if (x.grad(b[j]) != q.g[j]) return false;
            for (int i = 0; i <= j; ++i, ++k) if (x.hess(b[i], b[j]) != 2 * q.h[k] or x.hess(b[j], b[i]) != 2 * q.h[k]) return false;
        }
        return true;
    }
    static bool near(double a, double w, double scale) { return std::fabs(a - w) <= 1e-10 * scale; }
    string moments(const Q &q, const vector<double> &want, bool zeros) const {
        std::ostringstream e; const U x = build(q, 10, zeros);
        if (not built(x, q, 10)) return "";
        for (int k = 1; k <= 4; ++k) if (not near(x.m(k), want[k - 1], want[k + 3])) e << "m(" << k << ") is " << x.m(k) << " expected " << want[k - 1] << "; ";
        const double m2 = want[1], s2 = want[5], s = x.s();
        if (not near(var(x), m2, s2)) e << "var is " << var(x) << " expected " << m2 << "; ";
        if (not near(x.n(), 10 + sign * want[0], 10 + want[4])) e << "n() is " << x.n() << " expected " << 10 + sign * want[0] << "; ";
        if (m2 > 1e-6 * s2) {
            if (not near(s * s, m2, s2)) e << "s() is " << s << " expected square " << m2 << "; ";
            if (not near(x.skew() * s * s * s, want[2], want[6] + s2 * s)) e << "skew() is " << x.skew() << "; ";
            if (not near(x.kurt() * s * s * s * s, want[3], want[7] + s2 * s2)) e << "kurt() is " << x.kurt() << "; ";
        }
        return e.str();
    }
    string covariance(const Q &p, const Q &q, const vector<double> &want, bool zp, bool zq) const {
        std::ostringstream e; const U x = build(p, 1, zp), y = build(q, -2, zq);
        if (not built(x, p, 1) or not built(y, q, -2)) return "";
        if (not near(cov(x, y), want[0], want[1]) or not near(cov(y, x), want[0], want[1]))
            e << "cov is " << cov(x, y) << ", " << cov(y, x) << " expected " << want[0] << "; ";
        const double sx = x.s(), sy = y.s();
        if (sx > 1e-3 and sy > 1e-3 and not near(corr(x, y) * sx * sy, want[0], want[1])) e << "corr is " << corr(x, y) << "; ";
        return e.str();
    }
};
template<> const int Quads<unc::udouble2e>::sign = -1;
template<> const int Quads<unc::udouble2m>::sign = 1;
template<typename U> string quad_program(const Quads<U> &r, std::istringstream &s, const string &kind) {
    typedef typename Quads<U>::Q Q;
    int n; s >> n; string bar;
    auto rd = [&](Q &q) { q.g.resize(n); q.h.resize(n * (n + 1) / 2); for (auto &x : q.g) s >> x; for (auto &x : q.h) s >> x; };
    Q p, q; rd(p); if (kind == "C") rd(q);
    vector<double> want(kind == "C" ? 2 : 8);
    s >> bar; for (auto &x : want) s >> x;
    if (not s or bar != "|") { std::fprintf(stderr, "bad program\n"); std::exit(2); }
    string e;
    if (kind == "M") { e = r.moments(p, want, false); if (e.empty()) { e = r.moments(p, want, true); if (not e.empty()) e = "with stored zeros: " + e; } }
    else for (int z = 0; z < 4 and e.empty(); ++z) e = r.covariance(p, q, want, z & 1, z & 2);
    return e;
}

// Programs of spec/UReal2.tla: operations on registers, then for each
// register mean, gradient, Hessian, independence and identity, twice m(1), and
// four times the covariances of the registers.  The answer is a list of
// <code><register>: n mean, G gradient, H Hessian, I identity, M moments,
// X covariances, K exception.
template<typename U> struct Machine {
    static string run(const string &line, string *err) {
        std::istringstream s(line); string op; int nr, nb; std::ostringstream e;
        string codes;
        auto bad = [&](char c, int reg, const char *what, double got, double want) {
            codes += (codes.empty() ? "" : ",") + (c + std::to_string(reg));
            if (err->empty()) { e << what << " of r" << reg << " is " << got << " expected " << want; *err = e.str(); } };
        s >> op >> nr >> nb;
        vector<U> r(nr), b; int t, x, y; double n, k[5];
        try {
            while (s >> op and op != "|") {
                auto ks = [&] { s >> n; for (double &v : k) s >> v; };
                if (op == "new") { double sd; std::array<double, 6> m; s >> t >> n >> sd; for (double &v : m) s >> v; r[t] = U(n, sd, m); b.push_back(r[t]); }
                else if (op == "const") { s >> t >> n; r[t] = U(n); }
                else if (op == "copy") { s >> t >> x; r[t] = r[x]; }
                else if (op == "read") { s >> t; for (int q = 1; q <= 4; ++q) r[t].m(q); r[t].n(); r[t].s(); var(r[t]); r[t].skew(); r[t].kurt(); r[t].isindep(); r[t].indepid(); for (const U &v : r) { cov(r[t], v); corr(v, r[t]); } }
                else if (op == "neg") { s >> t >> x; r[t] = -r[x]; }
                else if (op == "un") { s >> t >> x >> n >> k[0] >> k[1]; r[t] = unary(r[x], n, k[0], k[1]); }
                else if (op == "add") { s >> t >> x >> y; r[t] = r[x] + r[y]; }
                else if (op == "sub") { s >> t >> x >> y; r[t] = r[x] - r[y]; }
                else if (op == "mul") { s >> t >> x >> y; r[t] = r[x] * r[y]; }
                else if (op == "bi") { s >> t >> x >> y; ks(); r[t] = binary(r[x], r[y], n, k[0], k[1], k[2], k[3], k[4]); }
                else if (op == "bas") { s >> t >> y; ks(); binary_assign(r[t], r[y], n, k[0], k[1], k[2], k[3], k[4]); }
                else { std::fprintf(stderr, "unknown operation %s\n", op.c_str()); std::exit(2); }
            }
            auto eq = [](double u, double v) { return std::fabs(u - v) <= 1e-9 * (1 + std::fabs(v)); };
            vector<U> const &c = r; const int nbs = b.size(); double v; vector<double> m1(nr);
            for (int i = 0; i < nr; ++i) {
                s >> v; if (not eq(c[i].first_order_n(), v)) bad('n', i, "mean", c[i].first_order_n(), v);
                const double mean = v;
                for (int j = 0; j < nb; ++j) { s >> v; if (j < nbs and not eq(c[i].grad(b[j]), v)) bad('G', i, "gradient", c[i].grad(b[j]), v); }
                for (int j = 0; j < nb; ++j) for (int q = j; q < nb; ++q) { s >> v; if (q < nbs) {
                    if (not eq(c[i].hess(b[j], b[q]), v)) bad('H', i, "second derivative", c[i].hess(b[j], b[q]), v);
                    else if (not eq(c[i].hess(b[q], b[j]), v)) bad('H', i, "second derivative", c[i].hess(b[q], b[j]), v); } }
                int ind, id; s >> ind >> id;
                if (ind != 2 and c[i].isindep() != (ind == 1)) bad('I', i, "isindep", c[i].isindep(), ind);
                if (id != -2) { const int w = id > 0 ? b[id - 1].indepid() : id == 0 ? 0 : unc::invalid_id; if (c[i].indepid() != w) bad('I', i, "indepid", c[i].indepid(), w); }
                s >> m1[i];
                if (not eq(2 * c[i].m(1), m1[i])) bad('M', i, "2 m(1)", 2 * c[i].m(1), m1[i]);
                if (not eq(c[i].n(), mean + Quads<U>::sign * m1[i] / 2)) bad('M', i, "n()", c[i].n(), mean + Quads<U>::sign * m1[i] / 2);
            }
            for (int i = 0; i < nr; ++i) for (int j = 0; j < nr; ++j) {
                s >> v;
                if (not eq(4 * cov(c[i], c[j]), v)) bad('X', i, "4 cov", 4 * cov(c[i], c[j]), v);
                if (i == j) { if (not eq(4 * c[i].m(2), v)) bad('M', i, "4 m(2)", 4 * c[i].m(2), v);
                    if (v > 0 and not eq(4 * c[i].s() * c[i].s(), v)) bad('M', i, "4 s^2", 4 * c[i].s() * c[i].s(), v); }
            }
            if (not s) { std::fprintf(stderr, "bad program: %s\n", line.c_str()); std::exit(2); }
        } catch (const std::exception &x) { *err = string("exception: ") + x.what(); codes = "K0"; }
        return codes;
    }
};
// a crash or hang is a failure of the current program
static std::ofstream out; static string cur;
static void crashed(int) {
    if (cur[0] == 'S') out << "K0\t";
    out << "crash, failed assertion, uncaught exception or hang\t" << cur << "\n"; out.flush();
    std::_Exit(0);
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]); out.open(argv[2]);
    for (int k : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(k, crashed);
    std::set_terminate([] { crashed(0); });
    cur = "construction of variables";
    Runner<unc::udouble2e> re; Runner<unc::udouble2m> rm;
    Quads<unc::udouble2e> qe; Quads<unc::udouble2m> qm;
    string line; long count = 0;
    while (std::getline(in, line)) {
        cur = line; alarm(60);
        if (line[0] == 'S') {
            string err, codes = Machine<unc::udouble2e>::run(line, &err);
            if (codes.empty()) codes = Machine<unc::udouble2m>::run(line, &err);
            if (not codes.empty()) out << codes << "\t" << err << "\t" << line << "\n";
            ++count; continue;
        }
        if (line[0] == 'M' or line[0] == 'C') {
            string kind; std::istringstream s1(line), s2(line);
            s1 >> kind; string e = quad_program(qe, s1, kind);
            if (e.empty()) { s2 >> kind; e = quad_program(qm, s2, kind); }
            if (not e.empty()) out << e << "\t" << line << "\n";
            ++count; continue;
        }
        std::istringstream s(line); int n; s >> n;
        int np = n * (n + 1) / 2;
        auto rdi = [&](vector<int> &v, int k) { v.resize(k); for (auto &x : v) s >> x; };
        auto rdl = [&](vector<long> &v, int k) { v.resize(k); for (auto &x : v) s >> x; };
        typename Runner<unc::udouble2e>::Op x, y; vector<long> d, want; string bar;
        rdi(x.D, n); rdi(x.T, np); rdl(x.G, n); rdl(x.H, np);
        rdi(y.D, n); rdi(y.T, np); rdl(y.G, n); rdl(y.H, np);
        rdl(d, 5); s >> bar; rdl(want, n + np + 1);
        if (not s or bar != "|") { std::fprintf(stderr, "bad program: %s\n", line.c_str()); return 2; }
        string e = re.run(n, x, y, d, want);
        if (e.empty() and count % 4 == 0) {
            typename Runner<unc::udouble2m>::Op x2 = {x.D, x.T, x.G, x.H}, y2 = {y.D, y.T, y.G, y.H};
            e = rm.run(n, x2, y2, d, want);
        }
        if (not e.empty()) out << e << "\t" << line << "\n";
        ++count;
    }
    std::printf("programs %ld\n", count);
    return 0;
}
