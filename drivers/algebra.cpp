// Matrix arithmetic over every kind of matrix; sizes R x M times M x C (-DR -DM -DC), or -DMEM: windows on one memory.
#include "vk.h"
#include <geomc/linalg/Matrix.h>

using namespace geom;
using vk::Ev;
using L = long long;
using Rows = std::vector<std::vector<L>>;
#ifndef ELEM
#define ELEM double
#endif
typedef ELEM T;

template <typename Mx> Rows rows(const Mx& m) {
    Rows r(m.rows());
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) r[i].push_back(vk::exact(m(i, j)));
    return r;
}
template <index_t N> Rows asrow(const Vec<T,N>& v) { Rows r(1); for (index_t i = 0; i < N; ++i) r[0].push_back(vk::exact(v[i])); return r; }
template <index_t N> Rows ascol(const Vec<T,N>& v) { Rows r(N); for (index_t i = 0; i < N; ++i) r[i].push_back(vk::exact(v[i])); return r; }

struct view { int base, r, c; bool rm; };
static std::string vjson(const view& v) {
    char b[128]; snprintf(b, sizeof b, "{\"base\":%d,\"r\":%d,\"c\":%d,\"rm\":%s}", v.base, v.r, v.c, v.rm ? "true" : "false"); return b;
}
static Ev& kview(Ev& e, const char* k, const view& v) { e.key(k); e.s += vjson(v); return e; }

#if defined(MEM)

static const int NC = 20;
static T memory[NC + 2];

template <typename F> void withview(const view& v, F f) {
    T* p = memory + 1 + v.base;
    if (v.rm) { SimpleMatrix<T,0,0,ROW_MAJOR,STORAGE_WRAPPED> m(p, v.r, v.c); f(m); }
    else      { SimpleMatrix<T,0,0,COL_MAJOR,STORAGE_WRAPPED> m(p, v.r, v.c); f(m); }
}
// statically sized windows for the common shapes
template <typename F> void withstatic(const view& v, F f) {
    T* p = memory + 1 + v.base;
    if (v.r == 2 && v.c == 2 && v.rm)      { SimpleMatrix<T,2,2,ROW_MAJOR,STORAGE_WRAPPED> m(p); f(m); }
    else if (v.r == 2 && v.c == 2)         { SimpleMatrix<T,2,2,COL_MAJOR,STORAGE_WRAPPED> m(p); f(m); }
    else withview(v, f);
}
static bool overlap(const view& a, const view& b) { return a.base < b.base + b.r * b.c && b.base < a.base + a.r * a.c; }

static void mem(vk::Rng& rng, int n) {
    for (int it = 0; it < n; ++it) {
        for (auto& x : memory) x = rng.in(-4, 4);
        memory[0] = memory[NC + 1] = 77;
        int r = rng.in(1, 3), m = rng.in(1, 3), c = rng.in(1, 3);
        if (rng.chance(40)) r = m = c = 2;
        static const char* fns[] = {"mul", "mul", "mul", "transpose", "transpose", "transpose", "mulacc", "add", "sub", "scale", "copy", "timesk"};
        std::string fn = fns[rng.in(0, 11)];
        view a{0, r, m, rng.chance(50)}, b{0, m, c, rng.chance(50)}, d{0, r, c, rng.chance(50)};
        if (fn == "transpose") { d.r = m; d.c = r; b = a; }
        if (fn == "add" || fn == "sub" || fn == "scale" || fn == "copy" || fn == "timesk") { b.r = d.r = r; b.c = d.c = m; }
        a.base = rng.in(0, NC - a.r * a.c); b.base = rng.in(0, NC - b.r * b.c); d.base = rng.in(0, NC - d.r * d.c);
        if (rng.chance(25) && d.r == a.r && d.c == a.c) d = a;
        if (rng.chance(25) && d.r == b.r && d.c == b.c) d = b;
        if (rng.chance(40)) { int o = a.base + rng.in(-2, 2); if (o >= 0 && o + d.r * d.c <= NC) d.base = o; }
        if (rng.chance(20)) d.rm = a.rm;
        bool safe = fn == "mul" || fn == "transpose";
        auto same = [](const view& x, const view& y) { return x.base == y.base && x.r == y.r && x.c == y.c && x.rm == y.rm; };
        if (fn == "timesk") { d = a; b = a; }
        if (fn == "transpose" || fn == "scale" || fn == "copy") b = a;
        // elementwise functions may write over an operand itself, but are not asked to cope with a partial overlap
        if (!safe) {
            bool oka = !overlap(d, a) || (fn != "mulacc" && same(d, a));
            bool okb = !overlap(d, b) || (fn != "mulacc" && same(d, b));
            if (!oka || !okb) { --it; continue; }
        }
        T k = rng.in(-3, 3);
        std::vector<L> before, after;
        for (int i = 1; i <= NC; ++i) before.push_back(vk::exact(memory[i]));
        vk::about("mem " + fn + " d=" + vjson(d) + " a=" + vjson(a) + " b=" + vjson(b));
        bool st = rng.chance(50);
        auto go = [&](auto& ma) {
            auto act = [&](auto& md) {
                if (fn == "transpose") transpose(&md, ma);
                else if (fn == "scale") scale(&md, k, ma);
                else if (fn == "copy") mtxcopy(&md, ma);
                else if (fn == "timesk") md *= k;
                else {
                    auto two = [&](auto& mb) {
                        if (fn == "mul") mul(&md, ma, mb);
                        else if (fn == "mulacc") mul_acc(&md, ma, mb);
                        else if (fn == "add") add(&md, ma, mb);
                        else if (fn == "sub") sub(&md, ma, mb);
                    };
                    withview(b, two);
                }
            };
            // the destination may be the operand object itself
            if (same(d, a)) {
                if (fn == "transpose") { if constexpr (true) transpose(&ma, ma); }
                else act(ma);
            } else withview(d, act);
        };
        auto stat = [&]() {
            // all three of static size 2 x 2
            withstatic(a, [&](auto& ma) {
                if constexpr (std::decay_t<decltype(ma)>::ROWDIM == 2) withstatic(b, [&](auto& mb) {
                    if constexpr (std::decay_t<decltype(mb)>::ROWDIM == 2) withstatic(d, [&](auto& md) {
                        if constexpr (std::decay_t<decltype(md)>::ROWDIM == 2) {
                            if (fn == "transpose") transpose(&md, ma);
                            else if (fn == "scale") scale(&md, k, ma);
                            else if (fn == "copy") mtxcopy(&md, ma);
                            else if (fn == "timesk") md *= k;
                            else if (fn == "mul") mul(&md, ma, mb);
                            else if (fn == "mulacc") mul_acc(&md, ma, mb);
                            else if (fn == "add") add(&md, ma, mb);
                            else if (fn == "sub") sub(&md, ma, mb);
                        }
                    });
                });
            });
        };
        if (st && r == 2 && m == 2 && c == 2) stat(); else { st = false; withview(a, go); }
        for (int i = 1; i <= NC; ++i) after.push_back(vk::exact(memory[i]));
        if (memory[0] != 77 || memory[NC + 1] != 77) vk::odd_number = true;
        Ev e("mem");
        e.kv("fn", fn).kv("mem", before).kv("out", after).kv("k", vk::exact(k)).kv("static", st);
        kview(e, "d", d); kview(e, "a", a); kview(e, "b", b);
        e.done();
    }
}

// sizes that do not agree are refused, and nothing is written
typedef SimpleMatrix<T,0,0,ROW_MAJOR> Dyn;
typedef SimpleMatrix<T,0,0,COL_MAJOR> Dcm;
static void dims(vk::Rng& rng, int n) {
    for (int it = 0; it < n; ++it) {
        auto sz = [&] { return rng.in(1, 3); };
        int ar = sz(), ac = sz(), br = rng.chance(60) ? ac : sz(), bc = sz(), dr = rng.chance(60) ? ar : sz(), dc = rng.chance(60) ? bc : sz();
        static const char* fns[] = {"mul", "mulinto", "mulacc", "add", "sub", "addinto", "subinto", "transposeinto", "scaleinto", "copy", "inv", "timesdiag"};
        std::string fn = fns[rng.in(0, 11)];
        if (fn == "add" || fn == "sub" || fn == "addinto" || fn == "subinto" || fn == "scaleinto" || fn == "copy") {
            if (rng.chance(60)) { br = ar; bc = ac; }
            if (rng.chance(60)) { dr = ar; dc = ac; }
        }
        if (fn == "transposeinto" && rng.chance(60)) { dr = ac; dc = ar; }
        if (fn == "inv") { br = ar; bc = ac; }
        if (fn == "timesdiag") bc = br;
        bool half = rng.chance(40) && ar == 2; // a half-dynamic operand
        Dyn a(ar, ac), b(br, bc), d(dr, dc);
        Dcm bcm(br, bc), dcm(dr, dc);
        for (auto* m : {&a, &b, &d}) for (index_t i = 0; i < m->rows() * m->cols(); ++i) m->data_begin()[i] = rng.in(-3, 3);
        mtxcopy(&dcm, d);
        Dyn d0 = d;
        bool cm = rng.chance(40), threw = false;
        char what[120]; snprintf(what, sizeof what, "dims %s a=%dx%d b=%dx%d d=%dx%d", fn.c_str(), ar, ac, br, bc, dr, dc);
        vk::about(what);
        auto act = [&](auto& A, auto& B, auto& D) {
            bool ok;
            if (fn == "mul") A * B;
            else if (fn == "mulinto") mul(&D, A, B);
            else if (fn == "mulacc") mul_acc(&D, A, B);
            else if (fn == "add") A + B;
            else if (fn == "sub") A - B;
            else if (fn == "addinto") add(&D, A, B);
            else if (fn == "subinto") sub(&D, A, B);
            else if (fn == "transposeinto") transpose(&D, A);
            else if (fn == "scaleinto") scale(&D, 2, A);
            else if (fn == "copy") mtxcopy(&D, A);
            else if (fn == "inv") { inv(A, &ok); }
            else if (fn == "timesdiag") { DiagMatrix<T,0,0> g(br, bc); auto x = A; x *= g; }
        };
        try {
            if (half) { SimpleMatrix<T,2,0> h(2, ac); mtxcopy(&h, a); if (cm) act(h, bcm, dcm); else act(h, b, d); }
            else if (cm) act(a, bcm, dcm); else act(a, b, d);
        } catch (const GeomException&) { threw = true; }
        bool kept = cm ? dcm == d0 : d == d0;
        Ev e("dims");
        std::vector<int> A{ar, ac}, B{br, bc}, D{dr, dc};
        if (fn == "inv") B = {ar, ac};
        e.kv("fn", fn).kv("a", A).kv("b", B).kv("d", D).kv("threw", threw).kv("kept", kept).done();
        // two matrices of different sizes are never equal
        Dyn x(ar, ac), y(dr, dc);
        for (auto* m : {&x, &y}) for (index_t i = 0; i < m->rows() * m->cols(); ++i) m->data_begin()[i] = 1;
        Ev("eqdims").kv("a", A).kv("b", D).kv("eq", x == y).done();
    }
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng rng(atoi(argv[1]));
    mem(rng, atoi(argv[2]));
    dims(rng, atoi(argv[2]) / 3);
    vk::close();
}

#else

static vk::Rng* G;
static T num() { return G->in(-5, 5); }
enum Kind { SR, SC, DR, DC, HR, HC, WR, GS, GD, PS, PD };
template <Kind K, index_t r, index_t c> struct kind;
#define KIND(K, TYPE, MAKE) template <index_t r, index_t c> struct kind<K, r, c> { typedef TYPE type; static type make() { MAKE } };
template <typename Mx> Mx& filled(Mx& m) { for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) m.set(i, j, num()); return m; }
template <typename Mx> Mx& dfill(Mx& m) { for (T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p) *p = num(); return m; }
#define COMMA ,
KIND(SR, SimpleMatrix<T COMMA r COMMA c COMMA ROW_MAJOR>, type m; return filled(m);)
KIND(SC, SimpleMatrix<T COMMA r COMMA c COMMA COL_MAJOR>, type m; return filled(m);)
KIND(DR, SimpleMatrix<T COMMA 0 COMMA 0 COMMA ROW_MAJOR>, type m(r COMMA c); return filled(m);)
KIND(DC, SimpleMatrix<T COMMA 0 COMMA 0 COMMA COL_MAJOR>, type m(r COMMA c); return filled(m);)
KIND(HR, SimpleMatrix<T COMMA r COMMA 0 COMMA ROW_MAJOR>, type m(r COMMA c); return filled(m);)
KIND(HC, SimpleMatrix<T COMMA 0 COMMA c COMMA COL_MAJOR>, type m(r COMMA c); return filled(m);)
KIND(GS, DiagMatrix<T COMMA r COMMA c>, type m; for (T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p) *p = num(); return m;)
KIND(GD, DiagMatrix<T COMMA 0 COMMA 0>, type m(r COMMA c); for (T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p) *p = num(); return m;)
static std::vector<index_t> anyperm(index_t n) { std::vector<index_t> p(n); for (index_t i = 0; i < n; ++i) p[i] = i; for (index_t i = n - 1; i > 0; --i) std::swap(p[i], p[G->in(0, i)]); return p; }
KIND(PS, PermutationMatrix<r>, auto p = anyperm(r); type m; m.setRowSources(p.data()); return m;)
KIND(PD, PermutationMatrix<0>, auto p = anyperm(r); type m(r); m.setRowSources(p.data()); return m;)

template <Kind K> constexpr bool dense = K == SR || K == SC || K == DR || K == DC || K == HR || K == HC;
template <Kind K> constexpr bool diag = K == GS || K == GD;
template <Kind K> constexpr bool perm = K == PS || K == PD;
template <Kind K, index_t r, index_t c> constexpr bool exists = !perm<K> || r == c;

template <Kind A, Kind B, index_t r, index_t m, index_t c> void product() {
    if constexpr (exists<A, r, m> && exists<B, m, c>) {
        vk::about("product of kinds " + std::to_string(A) + "," + std::to_string(B));
        auto a = kind<A, r, m>::make();
        auto b = kind<B, m, c>::make();
        Rows ra = rows(a), rb = rows(b);
        auto say = [&](const char* how, Rows res) { Ev("mul").kv("ka", (int)A).kv("kb", (int)B).kv("how", how).kv("a", ra).kv("b", rb).kv("res", res).done(); };
        say("a*b", rows(a * b));
        say("mul(a,b)", rows(mul(a, b)));
        { SimpleMatrix<T,r,c,ROW_MAJOR> d; filled(d); mul(&d, a, b); say("into SR", rows(d)); }
        { SimpleMatrix<T,r,c,COL_MAJOR> d; filled(d); mul(&d, a, b); say("into SC", rows(d)); }
        { SimpleMatrix<T,0,0,COL_MAJOR> d(r, c); filled(d); mul(&d, a, b); say("into DC", rows(d)); }
        if constexpr (diag<A> && diag<B>) {
            DiagMatrix<T,r,c> d; dfill(d); mul(&d, a, b); say("into diag", rows(d));
            DiagMatrix<T,r,c> e; for (T* p = e.diagonal_begin(); p != e.diagonal_end(); ++p) *p = num();
            Rows r0 = rows(e);
            mul_acc(&e, a, b);
            Ev("mulacc").kv("d", r0).kv("a", ra).kv("b", rb).kv("res", rows(e)).done();
        }
        if constexpr (A == PS && B == PS) { PermutationMatrix<r> d; mul(&d, a, b); say("into perm", rows(d)); }
        if constexpr (A == PD && B == PD) { PermutationMatrix<0> f(r); mul(&f, a, b); say("into dyn perm", rows(f)); }
        if constexpr ((dense<A> && dense<B>) || (diag<A> && diag<B>)) {
            SimpleMatrix<T,r,c,ROW_MAJOR> d; filled(d);
            SimpleMatrix<T,0,0,COL_MAJOR> f(r, c); filled(f);
            Rows r0 = rows(d), r1 = rows(f);
            mul_acc(&d, a, b);
            Ev("mulacc").kv("d", r0).kv("a", ra).kv("b", rb).kv("res", rows(d)).done();
            mul_acc(&f, a, b);
            Ev("mulacc").kv("d", r1).kv("a", ra).kv("b", rb).kv("res", rows(f)).done();
        }
        // over an operand
        if constexpr (m == c && (dense<A> || (diag<A> && diag<B>))) { auto x = a; mul(&x, x, b); say("over a", rows(x)); }
        if constexpr (r == m && (dense<B> || (diag<A> && diag<B>))) { auto x = b; mul(&x, a, x); say("over b", rows(x)); }
        if constexpr (m == c && (dense<A> || diag<A>) && diag<B>) { auto x = a; x *= b; say("a *= diag", rows(x)); }
    }
}
template <Kind A, index_t r, index_t c> void vectors() {
    if constexpr (exists<A, r, c>) {
        vk::about("matrix times vector, kind " + std::to_string(A));
        auto a = kind<A, r, c>::make();
        Vec<T,c> v; for (index_t i = 0; i < c; ++i) v[i] = num();
        Vec<T,r> u; for (index_t i = 0; i < r; ++i) u[i] = num();
        Rows ra = rows(a);
        auto say = [&](const char* how, Rows x, Rows y, Rows res) { Ev("mul").kv("ka", (int)A).kv("how", how).kv("a", x).kv("b", y).kv("res", res).done(); };
        auto col = [&](auto& x) { if constexpr (requires { x.rows(); }) return rows(x); else return ascol(x); };
        auto row = [&](auto& x) { if constexpr (requires { x.rows(); }) return rows(x); else return asrow(x); };
        { auto x = a * v; say("m*v", ra, ascol(v), col(x)); }
        { auto x = u * a; say("v*m", asrow(u), ra, row(x)); }
        { Vec<T,r> x; mul(&x, a, v); say("m*v into", ra, ascol(v), ascol(x)); }
        { Vec<T,c> x; mul(&x, u, a); say("v*m into", asrow(u), ra, asrow(x)); }
        { SimpleMatrix<T,r,1> x; filled(x); mul(&x, a, v); say("m*v into col", ra, ascol(v), rows(x)); }
        { SimpleMatrix<T,0,0,COL_MAJOR> x(r, 1); filled(x); mul(&x, a, v); say("m*v into dynamic col", ra, ascol(v), rows(x)); }
        { SimpleMatrix<T,1,c> x; filled(x); mul(&x, u, a); say("v*m into row", asrow(u), ra, rows(x)); }
        { SimpleMatrix<T,0,0,COL_MAJOR> x(1, c); filled(x); mul(&x, u, a); say("v*m into dynamic row", asrow(u), ra, rows(x)); }
        if constexpr (r == c) {
            { Vec<T,r> x = v; mul(&x, a, x); say("m*v over v", ra, ascol(v), ascol(x)); }
            { Vec<T,r> x = u; mul(&x, x, a); say("v*m over v", asrow(u), ra, asrow(x)); }
        }
        if constexpr (dense<A>) {
            Vec<T,r> x; for (index_t i = 0; i < r; ++i) x[i] = num();
            Rows d0 = ascol(x);
            mul_acc(&x, a, v);
            Ev("mulacc").kv("d", d0).kv("a", ra).kv("b", ascol(v)).kv("res", ascol(x)).done();
            Vec<T,c> y; for (index_t i = 0; i < c; ++i) y[i] = num();
            d0 = asrow(y);
            mul_acc(&y, u, a);
            Ev("mulacc").kv("d", d0).kv("a", asrow(u)).kv("b", ra).kv("res", asrow(y)).done();
            auto into = [&](auto d, auto e) {
                filled(d); filled(e);
                Rows r0 = rows(d), r1 = rows(e);
                mul_acc(&d, a, v);
                Ev("mulacc").kv("d", r0).kv("a", ra).kv("b", ascol(v)).kv("res", rows(d)).done();
                mul_acc(&e, u, a);
                Ev("mulacc").kv("d", r1).kv("a", asrow(u)).kv("b", ra).kv("res", rows(e)).done();
            };
            into(SimpleMatrix<T,r,1>(), SimpleMatrix<T,1,c>());
            into(SimpleMatrix<T,0,0>(r, 1), SimpleMatrix<T,0,0>(1, c));
        }
    }
}
template <Kind A, Kind B, index_t r, index_t c> void sums() {
    if constexpr (exists<A, r, c> && exists<B, r, c>) {
        vk::about("sum of kinds " + std::to_string(A) + "," + std::to_string(B));
        auto a = kind<A, r, c>::make();
        auto b = kind<B, r, c>::make();
        Rows ra = rows(a), rb = rows(b);
        auto say = [&](const char* op, const char* how, Rows res) { Ev(op).kv("ka", (int)A).kv("kb", (int)B).kv("how", how).kv("a", ra).kv("b", rb).kv("res", res).done(); };
        if constexpr (!(perm<A> || perm<B>)) {
            say("add", "a+b", rows(a + b));
            say("sub", "a-b", rows(a - b));
            { SimpleMatrix<T,r,c,COL_MAJOR> d; filled(d); add(&d, a, b); say("add", "into SC", rows(d)); filled(d); sub(&d, a, b); say("sub", "into SC", rows(d)); }
            { SimpleMatrix<T,0,0> d(r, c); filled(d); add(&d, a, b); say("add", "into DR", rows(d)); filled(d); sub(&d, a, b); say("sub", "into DR", rows(d)); }
            if constexpr (dense<A>) { auto d = a; add(&d, d, b); say("add", "over a", rows(d)); d = a; sub(&d, d, b); say("sub", "over a", rows(d)); }
            if constexpr (dense<B>) { auto d = b; add(&d, a, d); say("add", "over b", rows(d)); d = b; sub(&d, a, d); say("sub", "over b", rows(d)); }
            if constexpr (diag<A> && diag<B>) { DiagMatrix<T,r,c> d; dfill(d); add(&d, a, b); say("add", "into diag", rows(d)); dfill(d); sub(&d, a, b); say("sub", "into diag", rows(d)); }
        }
        auto cmp = [&](auto& x, auto& y) { Ev("eq").kv("ka", (int)A).kv("kb", (int)B).kv("a", rows(x)).kv("b", rows(y)).kv("eq", x == y).kv("ne", x != y).done(); };
        cmp(a, b);
        if constexpr (dense<A>) { auto x = a; mtxcopy(&x, b); cmp(x, b); index_t i = G->in(0, r - 1), j = G->in(0, c - 1); x.set(i, j, x(i, j) + 1); cmp(x, b); }
        else if constexpr (dense<B>) { auto x = b; mtxcopy(&x, a); cmp(a, x); index_t i = G->in(0, r - 1), j = G->in(0, c - 1); x.set(i, j, x(i, j) + 1); cmp(a, x); }
        else if constexpr (diag<A> && diag<B>) { auto x = a; mtxcopy(&x, b); cmp(x, b); }
        auto kept = [&](const char* how, Rows res) { Ev("copy").kv("ka", (int)A).kv("kb", (int)B).kv("how", how).kv("a", rb).kv("res", res).done(); };
        if constexpr (dense<A>) { auto x = a; mtxcopy(&x, b); kept("mtxcopy", rows(x)); auto y = a; y = b; kept("=", rows(y)); }
    }
}
template <Kind A, index_t r, index_t c> void single() {
    if constexpr (exists<A, r, c>) {
        vk::about("single operand, kind " + std::to_string(A));
        auto a = kind<A, r, c>::make();
        Rows ra = rows(a);
        auto say = [&](const char* op, const char* how, T k, Rows res) { Ev(op).kv("ka", (int)A).kv("how", how).kv("k", vk::exact(k)).kv("a", ra).kv("res", res).done(); };
        say("transpose", "transpose(a)", 0, rows(transpose(a)));
        { SimpleMatrix<T,c,r,COL_MAJOR> d; filled(d); transpose(&d, a); say("transpose", "into SC", 0, rows(d)); }
        { SimpleMatrix<T,0,0,ROW_MAJOR> d(c, r); filled(d); transpose(&d, a); say("transpose", "into DR", 0, rows(d)); }
        if constexpr (r == c) { auto x = a; transpose(&x, x); say("transpose", "in place", 0, rows(x)); }
        if constexpr (A == GS) { DiagMatrix<T,c,r> d; dfill(d); transpose(&d, a); say("transpose", "into diag", 0, rows(d)); }
        { SimpleMatrix<T,r,c,COL_MAJOR> x(a); say("copy", "SC(a)", 0, rows(x)); }
        { SimpleMatrix<T,0,0> x(a); say("copy", "DR(a)", 0, rows(x)); x = SimpleMatrix<T,0,0>(a); say("copy", "DR = DR(a)", 0, rows(x)); }
        { auto x = a; say("copy", "copy", 0, rows(x)); auto y = kind<A, r, c>::make(); y = a; say("copy", "assign", 0, rows(y)); y = y; say("copy", "assign self", 0, rows(y)); }
        if constexpr (!perm<A>) {
            T k = num();
            say("scale", "k*a", k, rows(k * a));
            say("scale", "a*k", k, rows(a * k));
            { SimpleMatrix<T,r,c,COL_MAJOR> d; filled(d); scale(&d, k, a); say("scale", "into SC", k, rows(d)); }
            { SimpleMatrix<T,0,0> d(r, c); filled(d); scale(&d, k, a); say("scale", "into DR", k, rows(d)); }
            if constexpr (dense<A>) { auto x = a; x *= k; say("scale", "*=", k, rows(x)); }
            if constexpr (diag<A>) { DiagMatrix<T,r,c> d; dfill(d); scale(&d, k, a); say("scale", "into diag", k, rows(d)); }
        }
    }
}
// for every kind
template <typename F> void kinds(F f) {
    f.template operator()<SR>(); f.template operator()<SC>(); f.template operator()<DR>(); f.template operator()<DC>();
    f.template operator()<HR>(); f.template operator()<HC>(); f.template operator()<GS>(); f.template operator()<GD>();
    f.template operator()<PS>(); f.template operator()<PD>();
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng rng(atoi(argv[1]));
    G = &rng;
    for (int it = 0; it < atoi(argv[2]); ++it) {
        kinds([&]<Kind A>() {
#if defined(PROD)
            kinds([&]<Kind B>() { product<A, B, RR, MM, CC>(); });
#else
            kinds([&]<Kind B>() { sums<A, B, RR, CC>(); });
            vectors<A, RR, CC>();
            single<A, RR, CC>();
#endif
        });
    }
    vk::close();
}
#endif
