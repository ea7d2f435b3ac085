// Decompositions and what is built on them, run over a finite field (exact), and over doubles where roots are needed.
#include "vk.h"
#include <cmath>
// an element of the integers mod P: the algorithms under test ask only for a field with an abs()
static int P = 7;
struct Fp {
    int v;
    Fp(): v(0) {}
    Fp(long long x): v((int)(((x % P) + P) % P)) {}
    Fp operator-() const { return Fp(-v); }
    Fp operator+(Fp o) const { return Fp(v + o.v); }
    Fp operator-(Fp o) const { return Fp(v - o.v); }
    Fp operator*(Fp o) const { return Fp((long long)v * o.v); }
    Fp operator/(Fp o) const {
        if (o.v == 0) { vk::odd_number = true; return Fp(0); } // a division by zero is never right
        long long r = 1, b = o.v;
        for (int e = P - 2; e; e >>= 1, b = b * b % P) if (e & 1) r = r * b % P;
        return *this * Fp(r);
    }
    Fp& operator+=(Fp o) { return *this = *this + o; }
    Fp& operator-=(Fp o) { return *this = *this - o; }
    Fp& operator*=(Fp o) { return *this = *this * o; }
    Fp& operator/=(Fp o) { return *this = *this / o; }
    bool operator==(const Fp& o) const = default;
    friend Fp operator/(int a, Fp b) { return Fp(a) / b; }
    friend Fp operator*(int a, Fp b) { return Fp(a) * b; }
    friend bool operator<(Fp a, Fp b) { return a.v < b.v; }
    friend bool operator>(Fp a, Fp b) { return a.v > b.v; }
    friend bool operator<=(Fp a, Fp b) { return a.v <= b.v; }
    friend bool operator>=(Fp a, Fp b) { return a.v >= b.v; }
};
namespace std { inline Fp abs(Fp x) { return x; } }
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Cholesky.h>
#include <geomc/linalg/Orthogonal.h>

using namespace geom;
using vk::Ev;
using L = long long;
using Rows = std::vector<std::vector<L>>;
static vk::Rng* G;

static L val(Fp x) { return x.v; }
template <typename T> Rows flat(const T* p, int r, int c, bool rm) {
    Rows o(r, std::vector<L>(c));
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) o[i][j] = val(p[rm ? i * c + j : j * r + i]);
    return o;
}
template <typename Mx> Rows rows(const Mx& m) {
    Rows r(m.rows());
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) r[i].push_back(val(m(i, j)));
    return r;
}
// entries at random, with dependent and vanishing rows and columns in between
static std::vector<Fp> some(int r, int c) {
    std::vector<Fp> a(r * c);
    int sparse = G->in(0, 3);
    for (auto& x : a) x = (sparse == 0 && G->chance(60)) ? 0 : G->in(0, P - 1);
    if (G->chance(12) && r > 1) { int i = G->in(0, r - 1), j = G->in(0, r - 1), k = G->in(0, P - 1); if (i != j) for (int q = 0; q < c; ++q) a[i * c + q] = a[j * c + q] * Fp(k); }
    if (G->chance(8)) { int j = G->in(0, c - 1); for (int i = 0; i < r; ++i) a[i * c + j] = 0; }
    if (G->chance(8)) { int i = G->in(0, r - 1); for (int j = 0; j < c; ++j) a[i * c + j] = 0; }
    if (G->chance(15)) { for (int i = 0; i < r && i < c; ++i) a[i * c + i] = 0; }
    return a;
}
template <typename T> std::vector<T> laid(const std::vector<T>& a, int r, int c, bool rm) { // row-major to either
    std::vector<T> o(a.size());
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) o[rm ? i * c + j : j * r + i] = a[i * c + j];
    return o;
}

static void lu(int r, int c) {
    auto a = some(r, c);
    bool rm = G->chance(50), keep = G->chance(85), par = G->chance(85);
    bool odd = G->chance(50);
    {
        auto m = laid(a, r, c, rm);
        std::vector<index_t> perm(r, 77);
        vk::about("decomp_plu");
        index_t ret = rm ? decomp_plu<Fp,true>(m.data(), r, c, keep ? perm.data() : nullptr, par || keep ? &odd : nullptr)
                         : decomp_plu<Fp,false>(m.data(), r, c, keep ? perm.data() : nullptr, par || keep ? &odd : nullptr);
        if (!keep) perm.clear();
        Ev("plu").kv("p", P).kv("rm", rm).kv("a", flat(a.data(), r, c, true)).kv("lu", flat(m.data(), r, c, rm)).kv("perm", perm).kv("odd", odd).kv("ret", (L)ret).done();
    }
    {
        auto m = laid(a, r, c, rm);
        std::vector<index_t> perm(c, 77);
        vk::about("decomp_lup");
        index_t ret = rm ? decomp_lup<Fp,true>(m.data(), r, c, perm.data(), &odd) : decomp_lup<Fp,false>(m.data(), r, c, perm.data(), &odd);
        Ev("lup").kv("p", P).kv("rm", rm).kv("a", flat(a.data(), r, c, true)).kv("lu", flat(m.data(), r, c, rm)).kv("perm", perm).kv("odd", odd).kv("ret", (L)ret).done();
    }
}
static std::vector<Fp> prod(const std::vector<Fp>& a, const std::vector<Fp>& x, int n, int m) {
    std::vector<Fp> b(n * m);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k < n; ++k) b[i * m + j] += a[i * n + k] * x[k * m + j];
    return b;
}
static void solve(int n, int m) {
    auto a = some(n, n), x = some(n, m), b = prod(a, x, n, m);
    bool rm = G->chance(50);
    int skip = G->chance(30) ? G->in(0, n - 1) : 0;
    auto say = [&](const char* how, bool ok, Rows res) {
        Ev("solve").kv("p", P).kv("how", how).kv("rm", rm).kv("skip", skip).kv("a", flat(a.data(), n, n, true)).kv("b", flat(b.data(), n, m, true))
            .kv("want", flat(x.data(), n, m, true)).kv("ok", ok).kv("x", res).done();
    };
    {
        auto A = laid(a, n, n, rm), X = laid(b, n, m, rm);
        vk::about("linear_solve");
        bool ok = rm ? linear_solve<Fp,true>(A.data(), n, m, X.data(), skip) : linear_solve<Fp,false>(A.data(), n, m, X.data(), skip);
        say("linear_solve", ok, flat(X.data(), n, m, rm));
    }
    {
        auto A = laid(a, n, n, rm), B = laid(b, n, m, rm);
        std::vector<Fp> X(n * m, Fp(3));
        std::vector<index_t> perm(n);
        vk::about("backsolve_plu");
        bool ok = (rm ? decomp_plu<Fp,true>(A.data(), n, n, perm.data(), nullptr) : decomp_plu<Fp,false>(A.data(), n, n, perm.data(), nullptr)) == 0;
        if (ok) { if (rm) backsolve_plu<Fp,true>(A.data(), perm.data(), n, m, X.data(), B.data(), skip); else backsolve_plu<Fp,false>(A.data(), perm.data(), n, m, X.data(), B.data(), skip); }
        say("backsolve_plu", ok, flat(X.data(), n, m, rm));
    }
}
template <index_t N> void solvevec() {
    int m = G->in(1, 4);
    auto a = some(N, N), x = some(N, m), b = prod(a, x, N, m);
    Vec<Fp,N> bases[N];
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) bases[j][i] = a[i * N + j];
    std::vector<Vec<Fp,N>> X(m);
    for (int j = 0; j < m; ++j) for (int i = 0; i < N; ++i) X[j][i] = b[i * m + j];
    int skip = G->chance(30) ? G->in(0, N - 1) : 0;
    vk::about("linear_solve of vectors");
    bool ok = linear_solve<Fp,N>(bases, m, X.data(), skip);
    Rows r(N, std::vector<L>(m));
    for (int i = 0; i < N; ++i) for (int j = 0; j < m; ++j) r[i][j] = X[j][i].v;
    Ev("solve").kv("p", P).kv("how", "vectors").kv("rm", false).kv("skip", skip).kv("a", flat(a.data(), N, N, true)).kv("b", flat(b.data(), N, m, true))
        .kv("want", flat(x.data(), N, m, true)).kv("ok", ok).kv("x", r).done();
}
template <typename Mx> void load(Mx& m, const std::vector<Fp>& a) { index_t c = m.cols(); for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < c; ++j) m.set(i, j, a[i * c + j]); }
template <index_t N> void inverse() {
    auto a = some(N, N), old = some(N, N);
    Rows ra = flat(a.data(), N, N, true);
    // keeps: documented to leave the destination alone when there is no inverse
    auto say = [&](const char* how, bool ok, Rows before, Rows x, bool keeps) {
        Ev("inv").kv("p", P).kv("how", how).kv("a", ra).kv("ok", ok).kv("before", before).kv("x", x).kv("keeps", keeps).done();
    };
    Rows ro = flat(old.data(), N, N, true);
    vk::about("invNxN");
    { auto o = old, m = a; bool ok = invNxN<Fp>(o.data(), m.data(), N); say("invNxN", ok, ro, flat(o.data(), N, N, true), true); }
    { auto o = old, m = a; bool ok = invNxN<Fp,N>(o.data(), m.data()); say("invNxN<N>", ok, ro, flat(o.data(), N, N, true), true); }
    vk::about("inv2x2, inv3x3, inv4x4");
    if constexpr (N == 2) { auto o = old; bool ok = inv2x2(o.data(), a.data()); say("inv2x2", ok, ro, flat(o.data(), N, N, true), true); o = a; ok = inv2x2(o.data(), o.data()); say("inv2x2 in place", ok, ra, flat(o.data(), N, N, true), true); }
    if constexpr (N == 3) { auto o = old; bool ok = inv3x3(o.data(), a.data()); say("inv3x3", ok, ro, flat(o.data(), N, N, true), true); o = a; ok = inv3x3(o.data(), o.data()); say("inv3x3 in place", ok, ra, flat(o.data(), N, N, true), true); }
    if constexpr (N == 4) { auto o = old; bool ok = inv4x4(o.data(), a.data()); say("inv4x4", ok, ro, flat(o.data(), N, N, true), true); o = a; ok = inv4x4(o.data(), o.data()); say("inv4x4 in place", ok, ra, flat(o.data(), N, N, true), true); }
    vk::about("inv of matrices");
    SimpleMatrix<Fp,N,N,ROW_MAJOR> s; SimpleMatrix<Fp,N,N,COL_MAJOR> t; SimpleMatrix<Fp,0,0,ROW_MAJOR> d(N, N); SimpleMatrix<Fp,0,0,COL_MAJOR> e(N, N);
    load(s, a); load(t, a); load(d, a); load(e, a);
    auto one = [&](const char* how, auto& m) {
        bool ok = false;
        { auto x = inv(m, &ok); say(how, ok, ra, rows(x), false); }
        auto into = [&](auto x) { load(x, old); bool k = inv(&x, m); say(how, k, ro, rows(x), false); };
        into(s); into(t); into(d); into(e);
        { auto x = m; bool k = inv(&x, x); say("in place", k, ra, rows(x), false); }
    };
    one("SR", s); one("SC", t); one("DR", d); one("DC", e);
    // diagonal
    DiagMatrix<Fp,N,N> g; DiagMatrix<Fp,0,0> h(N, N);
    for (int i = 0; i < N; ++i) g.diagonal(i) = h.diagonal(i) = a[i * N + i];
    ra = rows(g);
    vk::about("inv of diagonal matrices");
    auto dg = [&](const char* how, auto& m) {
        bool ok = false;
        { auto x = inv(m, &ok); say(how, ok, ra, rows(x), false); }
        { auto x = s; load(x, old); bool k = inv(&x, m); say("diag into SR", k, ro, rows(x), false); }
        { auto x = m; bool k = inv(&x, x); say("diag in place", k, ra, rows(x), false); }
    };
    dg("diag", g); dg("dyn diag", h);
}
template <index_t N> void determinant() {
    auto a = some(N, N);
    Rows ra = flat(a.data(), N, N, true);
    auto say = [&](const char* how, Fp det) { Ev("det").kv("p", P).kv("how", how).kv("a", ra).kv("det", (L)det.v).done(); };
    vk::about("det");
    say("detNxN", detNxN<Fp>(a.data(), N));
    { auto m = a; say("det_destructive", det_destructive<Fp>(m.data(), N)); }
    if constexpr (N == 2) { say("det2x2", det2x2<Fp>(a.data())); say("det2x2(..)", det2x2<Fp>(a[0], a[1], a[2], a[3])); }
    if constexpr (N == 3) { say("det3x3", det3x3<Fp>(a.data())); say("det3x3(..)", det3x3<Fp>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])); }
    if constexpr (N == 4) say("det4x4", det4x4<Fp>(a.data()));
    SimpleMatrix<Fp,N,N,ROW_MAJOR> s; SimpleMatrix<Fp,N,N,COL_MAJOR> t; SimpleMatrix<Fp,0,0,ROW_MAJOR> d(N, N); SimpleMatrix<Fp,0,0,COL_MAJOR> e(N, N);
    load(s, a); load(t, a); load(d, a); load(e, a);
    say("SR", det(s)); say("SC", det(t)); say("DR", det(d)); say("DC", det(e));
    DiagMatrix<Fp,N,N> g; DiagMatrix<Fp,0,0> h(N, N);
    for (int i = 0; i < N; ++i) g.diagonal(i) = h.diagonal(i) = a[i * N + i];
    ra = rows(g);
    say("diag", det(g)); say("dyn diag", det(h));
}
template <index_t N> void null(int n) {
    auto a = some(n, N);
    Vec<Fp,N> b[N], x[N];
    for (int i = 0; i < n; ++i) for (int j = 0; j < N; ++j) b[i][j] = a[i * N + j];
    for (auto& v : x) for (int j = 0; j < N; ++j) v[j] = G->in(0, P - 1);
    Rows ra = flat(a.data(), n, N, true);
    auto say = [&](const char* how, bool ok, const Vec<Fp,N>* v) {
        Rows r; for (int i = 0; i < N - n; ++i) { r.emplace_back(); for (int j = 0; j < N; ++j) r.back().push_back(v[i][j].v); }
        Ev("null").kv("p", P).kv("how", how).kv("n", (L)N).kv("a", ra).kv("ok", ok).kv("x", r).done();
    };
    if (n == N - 1) { vk::about("orthogonal"); x[0] = orthogonal(b); say("orthogonal", x[0] != Vec<Fp,N>(), x); x[0] = Vec<Fp,N>(); }
    vk::about("nullspace");
    bool ok = nullspace<Fp,N>(b, n, x);
    say("nullspace", ok, x);
    if (2 * n >= N) { ok = nullspace<Fp,N>(b, n, b); say("nullspace over the bases", ok, b); }
}

// ---------------------------------------------------------------- doubles
static void pivot(int r, int c) {
    std::vector<double> a(r * c);
    for (auto& x : a) x = G->in(-9, 9);
    bool rm = G->chance(50);
    auto m = laid(a, r, c, rm);
    std::vector<index_t> perm(r);
    vk::about("decomp_plu of doubles");
    if (rm) decomp_plu<double,true>(m.data(), r, c, perm.data(), nullptr); else decomp_plu<double,false>(m.data(), r, c, perm.data(), nullptr);
    Rows ra(r), rl(r);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { ra[i].push_back((L)a[i * c + j]); rl[i].push_back(vk::fixed(m[rm ? i * c + j : j * r + i], 1000)); }
    Ev("pivot").kv("s", 1000).kv("a", ra).kv("lu", rl).kv("perm", perm).done();
}
template <typename Mx> static void chol1(Mx m, const Rows& a, const Rows& l0, bool pd) {
    int n = a.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.set(i, j, a[i][j]);
    vk::about("cholesky");
    bool ok = cholesky(&m);
    Rows r(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i].push_back(pd ? vk::exact(m(i, j)) : 0);
    Ev("chol").kv("a", a).kv("l0", l0).kv("pd", pd).kv("ok", ok).kv("m", r).done();
}
template <index_t N> static void chol() {
    Rows l0(N, std::vector<L>(N)), a(N, std::vector<L>(N));
    for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) l0[i][j] = i == j ? G->in(1, 5) : G->in(-4, 4);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) a[i][j] += l0[i][k] * l0[j][k];
    bool pd = G->chance(70);
    if (!pd) { int k = G->in(0, N - 1); a[k][k] -= l0[k][k] * l0[k][k] + G->in(1, 6); } // its k-th pivot becomes negative
    chol1(SimpleMatrix<double,N,N>(), a, l0, pd); chol1(SimpleMatrix<double,N,N,COL_MAJOR>(), a, l0, pd);
    chol1(SimpleMatrix<double,0,0>(N, N), a, l0, pd); chol1(SimpleMatrix<double,0,0,COL_MAJOR>(N, N), a, l0, pd);
}
static long idet(std::vector<std::vector<L>> m) { // Gram determinant, to keep clear of near dependence
    int n = m.size(); if (n == 1) return m[0][0];
    long d = 0;
    for (int j = 0; j < n; ++j) { auto q = m; q.erase(q.begin()); for (auto& r : q) r.erase(r.begin() + j); d += (j % 2 ? -1 : 1) * m[0][j] * idet(q); }
    return d;
}
template <index_t N> void ortho(int n) {
    Rows b(n, std::vector<L>(N)), g(n, std::vector<L>(n));
    do {
        for (auto& r : b) for (auto& x : r) x = G->in(-3, 3);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { g[i][j] = 0; for (int k = 0; k < N; ++k) g[i][j] += b[i][k] * b[j][k]; }
    } while (idet(g) == 0);
    Vec<double,N> v[N], o[N];
    auto load = [&] { for (int i = 0; i < n; ++i) for (int j = 0; j < N; ++j) o[i][j] = b[i][j]; };
    auto out = [&](double s) { Rows r(n); for (int i = 0; i < n; ++i) for (int j = 0; j < N; ++j) r[i].push_back(vk::fixed(o[i][j], s)); return r; };
    load(); vk::about("orthogonalize"); orthogonalize(o, n);
    Ev("gram").kv("s", 200).kv("b", b).kv("o", out(200)).done();
    load(); vk::about("orthonormalize"); orthonormalize(o, n);
    Ev("ortho").kv("s", 1000).kv("b", b).kv("o", out(1000)).done();
    Vec<double,N> x, y;
    std::vector<L> xv, yv;
    for (int j = 0; j < N; ++j) { x[j] = G->in(-5, 5); xv.push_back((L)x[j]); }
    // the complement, for judging where the projection lies; exact by elimination over doubles is not trusted here: integers by cofactors
    Rows perp;
    if (n == N - 1) { perp.emplace_back(); for (int j = 0; j < N; ++j) { auto q = b; for (auto& r : q) r.erase(r.begin() + j); perp[0].push_back((j % 2 ? -1 : 1) * idet(q)); } }
    load(); vk::about("project_to_subspace"); y = project_to_subspace(o, x, n);
    for (int j = 0; j < N; ++j) yv.push_back(vk::fixed(y[j], 1000));
    bool big = false; for (auto& r : perp) for (auto& c : r) if (std::abs(c) > 150) big = true;
    if (big) perp.clear();
    Ev("proj").kv("s", 1000).kv("b", b).kv("x", xv).kv("y", yv).kv("perp", perp).done();
    // bases already orthogonal
    load(); orthogonalize(o, n);
    y = project_to_orthogonal_subspace(o, x, n);
    yv.clear(); for (int j = 0; j < N; ++j) yv.push_back(vk::fixed(y[j], 1000));
    Ev("proj").kv("s", 1000).kv("b", b).kv("x", xv).kv("y", yv).kv("perp", perp).done();
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng rng(atoi(argv[1]));
    G = &rng;
    int reps = atoi(argv[2]);
    static const int primes[] = {2, 3, 5, 7, 31, 97};
    for (int it = 0; it < reps; ++it) {
        P = primes[it % 6];
        vk::episode = it;
        lu(rng.in(1, 5), rng.in(1, 5)); lu(3, 3); { int n = rng.in(2, 5); lu(n, n); }
        solve(rng.in(1, 5), rng.in(1, 3));
        switch (it % 5) { case 0: solvevec<2>(); break; case 1: solvevec<3>(); break; case 2: solvevec<4>(); break; case 3: solvevec<5>(); break; case 4: solvevec<6>(); }
        if (it % 4 == 0) { switch (it / 4 % 4) { case 0: inverse<2>(); break; case 1: inverse<3>(); break; case 2: inverse<4>(); break; case 3: inverse<5>(); } }
        switch (it % 4) { case 0: determinant<2>(); break; case 1: determinant<3>(); break; case 2: determinant<4>(); break; case 3: determinant<5>(); }
        switch (it % 4) { case 0: null<2>(1); break; case 1: null<3>(rng.in(1, 2)); break; case 2: null<4>(rng.in(1, 3)); break; case 3: null<5>(rng.in(1, 4)); }
        if (it % 3 == 0) {
            pivot(rng.in(1, 5), rng.in(1, 5));
            switch (it / 3 % 3) { case 0: chol<2>(); ortho<2>(rng.in(1, 2)); break; case 1: chol<3>(); ortho<3>(rng.in(1, 3)); break; case 2: chol<4>(); ortho<4>(rng.in(1, 4)); }
        }
    }
    vk::close();
}
