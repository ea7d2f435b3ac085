// Vectors, rays and colours.
//   vec SEED REPS
#include "vk.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/Matrix.h>
using namespace geom;
using vk::Ev;
typedef std::vector<long long> VL;
typedef std::vector<VL> VVL;

static bool same_bits(double a, double b) { return a == b || (a != a && b != b); }

template <typename T, index_t N> struct Vecs {
    typedef Vec<T,N> V;
    static constexpr bool real = std::is_floating_point_v<T>;
    static constexpr int TOL = 1;
    vk::Rng& g;
    Vecs(vk::Rng& g) : g(g) {}

    VL ints(int w) { VL v; int n = N; if (g.chance(15)) w = 1; for (int i = 0; i < n; ++i) v.push_back(g.in(-w, w)); return v; }
    static V mk(const VL& v, double q = 1) { V r; for (index_t i = 0; i < N; ++i) r[i] = (T)(v[i] / q); return r; }
    template <typename W> static VL ex(const W& v, double q = 1) { VL r; for (index_t i = 0; i < W::DIM; ++i) r.push_back(vk::exact((double)v[i], q, 2e9)); return r; }
    static long long ex(T x, double q = 1) { return vk::exact((double)x, q, 2e9); }
    template <typename W> static VL fx(const W& v, double q) { VL r; for (index_t i = 0; i < W::DIM; ++i) r.push_back(vk::fixed((double)v[i], q)); return r; }
    // a vector whose length is whole
    VL whole(int& L) {
        for (;;) {
            VL v = ints(9);
            long long m = 0;
            for (auto x : v) m += x * x;
            L = (int)std::lround(std::sqrt((double)m));
            if (m && (long long)L * L == m) return v;
            if (g.chance(10)) { v.assign(N, 0); v[g.in(0, N - 1)] = g.chance(50) ? 4 : -7; L = 0; for (auto x : v) L += std::abs((int)x); return v; }
        }
    }
    bool chance(int p) { return g.chance(p); }

    void arith() {
        VL a = ints(30), b = chance(20) ? a : ints(30);
        if (chance(20)) { b = a; b[g.in(0, N - 1)] += chance(50); }
        int s = g.in(-9, 9);
        const V u = mk(a), v = mk(b);
        T t = (T)s;
        Ev e("Arith");
        e.kv("a", a).kv("b", b).kv("s", s);
        VVL add{ex(u + v), ex(u.add(v))}, sub{ex(u - v), ex(u.sub(v))}, mul{ex(u * v), ex(u.scale(v))};
        VVL scale{ex(u * t), ex(t * u), ex(u.scale(t)), ex(u * s), ex(s * u)}, neg{ex(-u)};
        VL dot{ex(u.dot(v)), ex(v.dot(u))};
        V x = u; V* r = &(x += v); if (r != &x) vk::odd_number = true; add.push_back(ex(x));
        x = u; r = &(x -= v); if (r != &x) vk::odd_number = true; sub.push_back(ex(x));
        x = u; r = &(x *= v); if (r != &x) vk::odd_number = true; mul.push_back(ex(x));
        x = u; r = &(x *= t); if (r != &x) vk::odd_number = true; scale.push_back(ex(x));
        if constexpr (N == 2) {
            add.push_back(ex(u.add(v[0], v[1]))); sub.push_back(ex(u.sub(v[0], v[1]))); mul.push_back(ex(u.scale(v[0], v[1]))); dot.push_back(ex(u.dot(v[0], v[1])));
        } else if constexpr (N == 3) {
            add.push_back(ex(u.add(v[0], v[1], v[2]))); sub.push_back(ex(u.sub(v[0], v[1], v[2]))); mul.push_back(ex(u.scale(v[0], v[1], v[2]))); dot.push_back(ex(u.dot(v[0], v[1], v[2])));
        } else if constexpr (N == 4) {
            add.push_back(ex(u.add(v[0], v[1], v[2], v[3]))); sub.push_back(ex(u.sub(v[0], v[1], v[2], v[3])));
            mul.push_back(ex(u.scale(v[0], v[1], v[2], v[3]))); dot.push_back(ex(u.dot(v[0], v[1], v[2], v[3])));
        }
        e.kv("add", add).kv("sub", sub).kv("mul", mul).kv("scale", scale).kv("neg", neg).kv("dot", dot).kv("mag2", VL{ex(u.mag2()), ex(u.dot(u))}).kv("dist2", ex(u.dist2(v)));
        V c = u;
        if constexpr (real) for (index_t i = 0; i < N; ++i) if (c[i] == 0) c[i] = -c[i];
        e.kv("eq", u == v).kv("ne", u != v).kv("self", u == c && c == u && !(u != c));
        e.kv("hash", std::hash<V>{}(u) == std::hash<V>{}(c) && geom::hash<V,size_t>(u) == geom::hash<V,size_t>(c));
        e.kv("kept", ex(u) == a && ex(v) == b);
        e.done();
    }
    void own() {
        VL a = ints(20);
        V t = mk(a), n = t, q = t, f = t;
        t += t; n -= n; q *= q; f *= f[0];
        Ev("Own").kv("a", a).kv("twice", ex(t)).kv("none", ex(n)).kv("square", ex(q)).kv("byfirst", ex(f)).done();
    }
    void div() {
        static const int P[] = {1, -1, 2, -2, 4, -4};
        VL a = ints(30), b;
        for (int i = 0; i < N; ++i) { int k = g.in(1, 9); b.push_back(real ? P[g.in(0, 5)] : chance(50) ? k : -k); }
        int s = real ? P[g.in(0, 5)] : chance(50) ? g.in(1, 9) : -g.in(1, 9), un = real ? 4 : 1;
        V u = mk(a), v = mk(b), x = u;
        x /= (T)s;
        Ev("Div").kv("a", a).kv("b", b).kv("s", s).kv("un", un).kv("vv", VVL{ex(u / v, un)}).kv("vs", VVL{ex(u / (T)s, un), ex(x, un)}).kv("sv", VVL{ex((T)s / v, un)}).done();
    }
    void round() {
        int q = real ? 4 : 1;
        VL a = ints(40);
        V u = mk(a, q);
        Ev e("Round");
        e.kv("a", a).kv("q", q).kv("floor", VVL{ex(u.floor()), ex(std::floor(u))}).kv("ceil", VVL{ex(u.ceil()), ex(std::ceil(u))}).kv("round", ex(u.round()));
        e.kv("abs", VVL{ex(u.abs(), q), ex(std::abs(u), q)}).kv("toint", ex((Vec<int,N>)u)).done();
    }
    void order() {
        int w = chance(40) ? 3 : 30;
        VL a = ints(w), b = ints(w), lo, hi;
        for (int i = 0; i < N; ++i) { int x = g.in(-w, w); lo.push_back(x); hi.push_back(x + g.in(0, w)); }
        V u = mk(a), v = mk(b);
        Ev e("Order");
        e.kv("a", a).kv("b", b).kv("lo", lo).kv("hi", hi).kv("min", VVL{ex(u.min(v)), ex(std::min(u, v)), ex(v.min(u))}).kv("max", VVL{ex(u.max(v)), ex(std::max(u, v)), ex(v.max(u))});
        e.kv("least", ex(u.min())).kv("most", ex(u.max())).kv("argmax", (long long)u.argmax()).kv("argmin", (long long)u.argmin()).kv("clamp", ex(u.clamp(mk(lo), mk(hi)))).done();
    }
    void mix() {
        VL a = ints(30), b = ints(30);
        int q = real ? 4 : 1, t = real ? g.in(-4, 8) : g.in(-2, 3);
        V u = mk(a), v = mk(b);
        Ev("Mix").kv("a", a).kv("b", b).kv("t", t).kv("q", q).kv("ret", ex(u.mix(v, (T)t / q), q)).kv("at0", ex(u.mix(v, (T)0))).kv("at1", ex(u.mix(v, (T)1))).done();
    }
    void project() {
        VL a = ints(12), n = chance(10) ? VL(N, 0) : ints(9);
        V u = mk(a), w = mk(n);
        if constexpr (!real) {
            Ev("ProjectInt").kv("a", a).kv("n", n).kv("on", ex(u.project_on(w))).done();
        } else {
            bool z = w.is_zero();
            Ev("Project").kv("a", a).kv("n", n).kv("un", 256).kv("tol", TOL).kv("on", fx(u.project_on(w), 256)).kv("frac", z ? 0 : vk::fixed(u.fraction_on(w), 256)).done();
            if (z) return;
            // only the direction of the normal matters
            V m = w;
            int k = g.in(0, 6);
            if (k) m *= (T)std::ldexp(1., (k - 3) * 6);
            Ev("Mirror").kv("a", a).kv("n", n).kv("un", 256).kv("tol", TOL).kv("ret", fx(u.reflect_about(m), 256)).kv("bounce", fx(u.bounce_on(m), 256)).done();
        }
    }
    void length() {
        if constexpr (real) {
            int L;
            VL v = whole(L);
            int m = g.in(0, 20);
            V u = mk(v);
            V z;
            Ev e("Length");
            e.kv("v", v).kv("L", L).kv("m", m).kv("un", 1024).kv("tol", TOL).kv("unit", fx(u.unit(), 1024)).kv("mag", vk::fixed(u.mag(), 1024)).kv("with", fx(u.with_length((T)m), 1024));
            e.kv("neg", fx(u.with_length((T)-m), 1024)).kv("zero", z.with_length((T)m) == V((T)0)).done();
            VL a = ints(12), b = ints(12);
            Ev("Dist").kv("a", a).kv("b", b).kv("un", 256).kv("tol", TOL).kv("mag", vk::fixed(mk(a).mag(), 256)).kv("dist", vk::fixed(mk(a).dist(mk(b)), 256)).done();
        }
    }
    void angle() {
        if constexpr (real) {
            int L, K, par = 0;
            VL u = whole(L), v = whole(K);
            if (chance(30)) {
                par = chance(50) ? 1 : -1;
                int k = g.in(1, 3);
                v = u; K = L * k;
                for (auto& x : v) x *= par * k;
            } else {
                // parallel by chance
                long long d = 0;
                for (int i = 0; i < N; ++i) d += u[i] * v[i];
                if (d == (long long)L * K) par = 1;
                if (d == -(long long)L * K) par = -1;
            }
            T th = mk(u).angle_to(mk(v));
            Ev("Angle").kv("u", u).kv("v", v).kv("L", L).kv("K", K).kv("un", 1024).kv("tol", 2).kv("par", par).kv("slack", sizeof(T) == 4 ? 4 : 1)
                .kv("cos", vk::fixed(std::cos((double)th), 1024)).kv("ang", vk::fixed(th, 1024)).kv("range", th >= 0 && th <= (T)M_PI).done();
        }
    }
    void make() {
        VL a = chance(10) ? VL(N, 0) : ints(chance(20) ? 1 : 99);
        int s = g.in(-99, 99), k = g.in(0, N);
        T arr[N];
        for (int i = 0; i < N; ++i) arr[i] = (T)a[i];
        VVL same;
        const V u(arr);
        same.push_back(ex(u));
        V copy = u; same.push_back(ex(copy));
        V as; as = u; same.push_back(ex(as));
        { VL x; for (const T* p = u.begin(); p != u.end(); ++p) x.push_back(ex(*p)); same.push_back(x); }
        { V y; int i = 0; for (T& p : y) p = arr[i++]; same.push_back(ex(y)); }
        { V y; for (index_t i = 0; i < N; ++i) y.get(i) = arr[i]; same.push_back(ex(y)); VL x; for (index_t i = 0; i < N; ++i) x.push_back(ex(u.get(i))); same.push_back(x); }
        { Vec<double,N> d = (Vec<double,N>)u; same.push_back(ex((V)d)); same.push_back(ex(d)); }
        { Vec<long,N> d = (Vec<long,N>)u; same.push_back(ex((V)d)); }
        { V y = 1 * u; same.push_back(ex(-(-y))); }
        VL shrt = {}; VVL axes;
        if constexpr (N == 2) {
            same.push_back(ex(V(arr[0], arr[1])));
            same.push_back({ex(u.x), ex(u.y)}); same.push_back({ex(u.s), ex(u.t)}); same.push_back({ex(u.row), ex(u.col)});
            axes = {ex(V::X_AXIS), ex(V::Y_AXIS)};
        } else if constexpr (N == 3) {
            same.push_back(ex(V(arr[0], arr[1], arr[2]))); same.push_back(ex(V(Vec<T,2>(arr[0], arr[1]), arr[2]))); same.push_back(ex(V(Vec<short,2>(a[0], a[1]), arr[2])));
            same.push_back({ex(u.x), ex(u.y), ex(u.z)}); same.push_back({ex(u.s), ex(u.t), ex(u.u)}); same.push_back({ex(u.r), ex(u.g), ex(u.b)});
            axes = {ex(V::X_AXIS), ex(V::Y_AXIS), ex(V::Z_AXIS)};
        } else if constexpr (N == 4) {
            same.push_back(ex(V(arr[0], arr[1], arr[2], arr[3]))); same.push_back(ex(V(Vec<T,2>(arr[0], arr[1]), arr[2], arr[3]))); same.push_back(ex(V(Vec<T,3>(arr[0], arr[1], arr[2]), arr[3])));
            same.push_back({ex(u.x), ex(u.y), ex(u.z), ex(u.w)}); same.push_back({ex(u.s), ex(u.t), ex(u.u), ex(u.v)}); same.push_back({ex(u.r), ex(u.g), ex(u.b), ex(u.a)});
            axes = {ex(V::X_AXIS), ex(V::Y_AXIS), ex(V::Z_AXIS), ex(V::W_AXIS)};
        } else if constexpr (N >= 5) {
            Vec<T,N-1> head;
            for (index_t i = 0; i + 1 < N; ++i) head[i] = arr[i];
            same.push_back(ex(V(head, arr[N - 1])));
            Vec<short,N-1> sh = (Vec<short,N-1>)head;
            same.push_back(ex(V(sh, arr[N - 1])));
            std::initializer_list<T> full{arr[0], arr[1], arr[2], arr[3], arr[4]};
            V y(full);
            for (index_t i = 5; i < N; ++i) y[i] = arr[i];
            same.push_back(ex(y));
        }
        if constexpr (N >= 5) {
            // fewer, and more, than fit
            V y;
            k = chance(50) ? 2 : 3;
            if (k == 2) { std::initializer_list<T> l{arr[0], arr[1]}; y = V(l); } else { std::initializer_list<T> l{arr[0], arr[1], arr[2]}; y = V(l); }
            shrt = ex(y);
            std::initializer_list<T> more{arr[0], arr[1], arr[2], arr[3], arr[4], N > 5 ? arr[N - 1] : (T)7, (T)8, (T)9};
            V z(more);
            same.push_back(ex(z));
        } else { k = 0; shrt = VL(N, 0); }
        Ev e("Make");
        e.kv("a", a).kv("s", s).kv("k", k).kv("same", same).kv("fill", ex(V((T)s))).kv("none", ex(V())).kv("ones", ex(V::ones)).kv("zeros", ex(V::zeros)).kv("ux", ex(V::unit_x));
        e.kv("short", shrt).kv("axes", axes).kv("iszero", u.is_zero()).kv("size", (long long)u.size()).done();

        VVL rets;
        k = g.in(0, N - 1);
        V y = u; y[k] = (T)s; rets.push_back(ex(y));
        y = u; y.get(k) = (T)s; rets.push_back(ex(y));
        y = u; *(y.begin() + k) = (T)s; rets.push_back(ex(y));
        y = u; *(y.end() - (N - k)) = (T)s; rets.push_back(ex(y));
        if constexpr (N <= 4) {
            y = u;
            switch (k) { case 0: y.x = (T)s; break; case 1: y.y = (T)s; break; case 2: if constexpr (N >= 3) y.z = (T)s; break; default: if constexpr (N >= 4) y.w = (T)s; }
            rets.push_back(ex(y));
        }
        Ev("Write").kv("a", a).kv("k", k).kv("s", s).kv("rets", rets).done();
        int m = 0;
        VL ret;
        switch (g.in(0, 5)) {
            case 0: m = 1; ret = {ex((T)(u.template resized<1>()))}; break;
            case 1: m = 2; ret = ex(u.template resized<2>()); break;
            case 2: m = 3; ret = ex(u.template resized<3>()); break;
            case 3: m = 4; ret = ex(u.template resized<4>()); break;
            case 4: m = 5; ret = ex(u.template resized<5>()); break;
            case 5: m = 8; ret = ex(u.template resized<8>()); break;
        }
        Ev("Resize").kv("a", a).kv("m", m).kv("ret", ret).done();
        if constexpr (real && (N == 2 || N == 3)) {
            V f = u;
            bool want = true;
            if (chance(60)) { want = false; static const T bad[] = {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}; f[g.in(0, N - 1)] = bad[g.in(0, 2)]; }
            else if (chance(50)) f[g.in(0, N - 1)] = chance(50) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::denorm_min();
            Ev("Finite").kv("want", want).kv("ret", f.is_finite_real()).done();
        }
    }
    void low() {
        VL a = ints(30), b = ints(30);
        V u = mk(a), v = mk(b);
        if constexpr (N == 2) {
            Ev("Perp").kv("a", a).kv("left", ex(u.left_perpendicular())).kv("right", ex(u.right_perpendicular())).done();
            Ev("Flip").kv("a", a).kv("rets", VVL{ex(u.reflected_x()), ex(u.reflected_y())}).done();
        } else if constexpr (N == 3) {
            Ev("Cross").kv("a", a).kv("b", b).kv("rets", VVL{ex(u.cross(v)), ex(u ^ v), ex(-v.cross(u))}).done();
            Ev("Flip").kv("a", a).kv("rets", VVL{ex(u.reflected_x()), ex(u.reflected_y()), ex(u.reflected_z())}).done();
            if constexpr (real) {
                // triangles whose area is half a whole number
                for (int tries = 0; tries < 200; ++tries) {
                    VL p = ints(3), q = ints(3), r = ints(3);
                    long long d[3], f[3];
                    for (int i = 0; i < 3; ++i) d[i] = q[i] - p[i], f[i] = r[i] - p[i];
                    long long c[3] = {d[1] * f[2] - d[2] * f[1], d[2] * f[0] - d[0] * f[2], d[0] * f[1] - d[1] * f[0]};
                    long long m = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
                    int L = (int)std::lround(std::sqrt((double)m));
                    if (!m || (long long)L * L != m) continue;
                    Ev("Normal").kv("p1", p).kv("p2", q).kv("p3", r).kv("L", L).kv("un", 1024).kv("tol", TOL).kv("ret", fx(triangle_normal(mk(p), mk(q), mk(r)), 1024)).done();
                    break;
                }
            }
        }
    }
    void stds() {
        if constexpr (real) {
            V u;
            for (index_t i = 0; i < N; ++i) u[i] = (T)(g.in(-4000, 4000) / 512.);
            V p = u.abs();
            bool ok = true;
            auto is = [&](const V& r, const V& x, auto f) { for (index_t i = 0; i < N; ++i) ok &= same_bits(r[i], f(x[i])); };
            is(std::sqrt(p), p, [](T x) { return std::sqrt(x); });
            is(std::sin(u), u, [](T x) { return std::sin(x); });
            is(std::cos(u), u, [](T x) { return std::cos(x); });
            is(std::tan(u), u, [](T x) { return std::tan(x); });
            is(std::exp(u), u, [](T x) { return std::exp(x); });
            is(std::log(p), p, [](T x) { return std::log(x); });
            Ev("Std").kv("same", ok).done();
        }
    }
    void colour() {
        double un = real ? 64 : 1, k = real ? 255 : 1;
        long long c[4];
        for (auto& x : c) x = chance(20) ? (chance(50) ? 255 : 0) : g.in(0, 255);
        auto pack = [](long long a, long long b, long long c, long long d) { return (int)(unsigned)(a << 24 | b << 16 | c << 8 | d); };
        if constexpr (N == 3) {
            Ev("Colour").kv("un", (long long)un).kv("ch", VL{c[1], c[2], c[3]}).kv("ret", fx(from_rgb<T>(pack(c[0], c[1], c[2], c[3])), k * un)).done();
            if constexpr (real) {
                int s = g.in(-300, 300);
                Ev("Hue").kv("s", s).kv("q", 64).kv("ret", fx(rainbow<T>(s / 64.), 64)).done();
            }
        } else if constexpr (N == 4) {
            Ev("Colour").kv("un", (long long)un).kv("ch", VL{c[1], c[2], c[3], c[0]}).kv("ret", fx(from_argb<T>(pack(c[0], c[1], c[2], c[3])), k * un)).done();
            Ev("Colour").kv("un", (long long)un).kv("ch", VL{c[0], c[1], c[2], c[3]}).kv("ret", fx(from_rgba<T>(pack(c[0], c[1], c[2], c[3])), k * un)).done();
        }
    }
    void ray() {
        typedef Ray<T,N> R;
        VL o = ints(12), d = chance(8) ? VL(N, 0) : ints(9);
        int s = g.in(-9, 9);
        const R r(mk(o), mk(d));
        Ev e("Ray");
        e.kv("o", o).kv("d", d).kv("s", s).kv("at", VVL{ex(r.at_multiple((T)s)), ex(r * (T)s), ex((T)s * r)}).kv("neg", VVL{ex((-r).origin), ex((-r).direction)});
        if (chance(50)) { auto q = r.template resized<2>(); e.kv("m", 2).kv("resized", VVL{ex(q.origin), ex(q.direction)}); }
        else { auto q = r.template resized<5>(); e.kv("m", 5).kv("resized", VVL{ex(q.origin), ex(q.direction)}); }
        R c(mk(o), mk(d)), def;
        if constexpr (real) for (index_t i = 0; i < N; ++i) if (c.direction[i] == 0) c.direction[i] = -c.direction[i];
        e.kv("hash", std::hash<R>{}(r) == std::hash<R>{}(c)).kv("def", VVL{ex(def.origin), ex(def.direction)}).done();
        if constexpr (real) {
            int L;
            VL w = whole(L);
            R t(mk(o), mk(w));
            Ev("RayDist").kv("o", o).kv("d", w).kv("L", L).kv("s", s).kv("un", 1024).kv("tol", TOL).kv("ret", fx(t.at_distance((T)s), 1024)).done();
            VL p = ints(12);
            if (chance(15)) { p = o; int k = g.in(-1, 1); for (int i = 0; i < N; ++i) p[i] += k * d[i]; }
            V x = mk(p);
            // near the ray, the root of a rounding error
            Ev("RayFoot").kv("o", o).kv("d", d).kv("p", p).kv("un", 256).kv("tol", TOL).kv("tol2", 2).kv("foot", fx(r.project(x), 256)).kv("dist2", vk::fixed(r.dist2(x), 256)).kv("sdf", vk::fixed(r.sdf(x), 256)).done();
        }
    }
    void step() {
        int op = g.in(0, 13);
        vk::about("vector op " + std::to_string(op) + " of dimension " + std::to_string((int)N) + (real ? " real" : " whole"));
        switch (op) {
            case 0: arith(); break;
            case 1: arith(); own(); break;
            case 2: div(); break;
            case 3: round(); break;
            case 4: order(); break;
            case 5: mix(); break;
            case 6: case 7: project(); break;
            case 8: length(); angle(); break;
            case 9: make(); break;
            case 10: low(); break;
            case 11: stds(); colour(); break;
            default: ray(); break;
        }
    }
};

template <typename T> static void any(vk::Rng& g) {
    switch (g.in(0, 4)) {
        case 0: Vecs<T,2>(g).step(); break;
        case 1: Vecs<T,3>(g).step(); break;
        case 2: Vecs<T,4>(g).step(); break;
        case 3: Vecs<T,5>(g).step(); break;
        case 4: Vecs<T,6>(g).step(); break;
    }
}

int main(int argc, char** argv) {
    vk::Rng g(atoi(argv[1]));
    vk::open();
    for (int i = 0, n = atoi(argv[2]); i < n; ++i) {
        vk::episode = i;
        switch (g.in(0, 3)) {
            case 0: any<float>(g); break;
            case 1: any<int>(g); break;
            default: any<double>(g); break;
        }
    }
    vk::close();
}
