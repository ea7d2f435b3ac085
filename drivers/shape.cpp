// Records what shapes say about points, directions and themselves.   shape SEED COUNT
#include "shape.h"

template <typename S> struct Case {
    static constexpr index_t N = S::N;
    typedef P<N> Pt;
    vk::Rng& g; Draw d;
    S s{};

    Case(vk::Rng& g):g(g), d{g} {}

    static constexpr bool is_simplex = requires(S s) { s.pts; };
    static constexpr bool has_sdf = shape_traits<S>::has_sdf && (!is_simplex || N <= 3) && requires(const S& s, Pt p) { s.sdf(p); };
    static constexpr bool has_project = shape_traits<S>::is_projectable || is_simplex;

    /// a point, as whole numbers over q
    Pt point(int& q, V& whole) {
        static const int qs[] = {1, 1, 2, 2, 4, 3, 5};
        q = qs[g.in(0, 6)];
        Pt p = d.template pt<N>(5 * q);
        int k = g.in(0, 9);
        auto put = [&](Pt a) { for (index_t i = 0; i < N; ++i) p[i] = std::round(a[i] * q); };
        if (k <= 2) {                          // near or on the surface
            put(s.convex_support(d.template dir<N>(2)));
        } else if (k <= 4) {                   // towards the middle
            Rect<T,N> b = s.bounds();
            Pt e = d.template pt<N>(q);
            put((b.lo + b.hi) / 2);
            if (k == 4) p += e;
        } else if (k == 5) {                   // straight out from the middle
            Rect<T,N> b = s.bounds();
            put((b.lo + b.hi) / 2);
            p[g.in(0, N - 1)] = g.in(-5 * q, 5 * q);
        }
        if constexpr (requires { s.p0; s.p1; }) {
            if (k == 6) p = s.p0 * q + g.in(-q, 2 * q) * (s.p1 - s.p0);       // on the axis
        }
        whole.clear();
        for (index_t i = 0; i < N; ++i) {
            p[i] = std::min<T>(6 * q, std::max<T>(-6 * q, p[i]));
            whole.push_back((long long)p[i]);
            p[i] /= q;
        }
        return p;
    }

    void at(const char* name) {
        int q; V w;
        vk::about(std::string("support of ") + name + " for a point near");
        Pt p = point(q, w);
        vk::about(std::string(name) + " at a point: " + desc(s) + " " + js(w) + "/" + std::to_string(q));
        Ev e("At");
        e.raw("s", desc(s)).kv("p", w).kv("q", q);
        e.kv("con", s.contains(p));
        if constexpr (has_sdf) e.kv("sdf", fx(s.sdf(p)));
        if constexpr (has_project) {
            T D = s.sdf(p);
            Pt r = s.project(p), n = s.normal(p);
            if (is_simplex && !n.is_zero()) n = n.unit();          // promised no length
            e.kv("pr", fixv<N>(r, 16)).kv("sp", fx(s.sdf(r))).kv("dp", fx(r.dist(p)));
            // the library's own normal goes by the way to the nearest point: none, at that point itself
            bool lost = false;
            if constexpr (requires { s.inner; } || requires { s.base.inner; }) lost = r.dist(p) < 1e-9;
            if (lost) e.kv("nn", fx(1)).kv("sn", 0);
            else
            e.kv("nn", fx(n.mag())).kv("sn", D >= 0 ? fx(s.sdf(p + n) - 1 - D) : fx(s.sdf(p - D * n)));
            if constexpr (!is_simplex) { Pt c = s.clip(p); e.kv("cp", c == p).kv("cr", c == r); }
        }
        e.done();
    }

    void support(const char* name) {
        vk::about(std::string("support of ") + name + ": " + desc(s));
        Pt v = g.chance(30) ? d.template axis<N>() : d.template dir<N>(3);
        if constexpr (requires { s.p0; s.p1; }) if (g.chance(25) && !(s.p1 == s.p0)) v = s.p1 - s.p0;
        Pt a = s.convex_support(v);
        Rect<T,N> b = s.bounds();
        Ev("Support").raw("s", desc(s)).kv("d", whole<N>(v)).kv("a", fixv<N>(a)).kv("v", fx(a.dot(v)))
            .kv("lo", fixv<N>(b.lo)).kv("hi", fixv<N>(b.hi)).done();
    }

    void base(const char* name) {
        // the same questions asked through the base classes
        vk::about(std::string("bases of ") + name + ": " + desc(s));
        int q; V w;
        Pt p = point(q, w);
        const Convex<T,N,S>& c = s;
        Pt v = d.template dir<N>(2);
        Rect<T,N> b = c.bounds();
        bool same = c.convex_support(v) == s.convex_support(v);
        auto any = as_any_convex(s);
        const AnyConvex<T,N>& ac = any;
        same = same && ac.convex_support(v) == s.convex_support(v) && ac.bounds() == s.bounds();
        auto near = [](T x, T y) { return std::abs(x - y) < 1e-6 || (std::isnan(x) && std::isnan(y)) || x == y; };
        auto nearp = [&](Pt x, Pt y) { for (index_t i = 0; i < N; ++i) if (!near(x[i], y[i])) return false; return true; };
        const Bounded<T,N,S>& bd = s;
        Rect<T,N> b0 = bd.bounds(), b1 = s.bounds();
        same = same && nearp(b0.lo, b1.lo) && nearp(b0.hi, b1.hi);
        if constexpr (requires { s.inner; }) {
            const Projectable<T,N,S>& pr = s;
            const SdfEvaluable<T,N,S>& sd = s;
            bool on = std::abs(s.sdf(p)) < 1e-6;
            same = same && nearp(pr.project(p), s.project(p)) && near(pr.sdf(p), s.sdf(p)) && near(sd.sdf(p), s.sdf(p)) && nearp(pr.clip(p), s.clip(p));
            if (!on) same = same && sd.contains(p) == s.contains(p) && nearp(pr.normal(p), s.normal(p));
        }
        if constexpr (requires { s.inner; }) {
            const RayIntersectable<T,N,S>& ri = s;
            Ray<T,N> ray(p, v);
            Rect<T,1> x = ri.intersect(ray), y = s.intersect(ray);
            same = same && near(x.lo, y.lo) && near(x.hi, y.hi);
        }
        Ev("Base").raw("s", desc(s)).kv("same", same).kv("lo", fixv<N>(b.lo)).kv("hi", fixv<N>(b.hi)).done();
    }

    static void go(vk::Rng& g, const char* name, int reps) {
        Case c(g);
        for (int r = 0; r < reps; ++r) {
            c.s = S{};
            vk::about(std::string("making ") + name);
            c.d.make(c.s);
            for (int k = 0; k < 8; ++k) c.at(name);
            for (int k = 0; k < 3; ++k) c.support(name);
            c.base(name);
        }
    }
};

void builders(vk::Rng& g) {
    Draw d{g};
    T a, b;
    d.heights(a, b);
    T lo = g.chance(50) ? a : b, hi = lo == a ? b : a;
    vk::about("builders");
    {
        Circle<T> c; d.make(c);
        Ev("Build").kv("how", "extrude").raw("s", desc(c)).kv("x", vk::exact(lo)).kv("y", vk::exact(hi)).raw("r", desc(extrude(c, lo, hi))).done();
        Ev("Build").kv("how", "frustum").raw("s", desc(c)).kv("x", vk::exact(lo)).kv("y", vk::exact(hi)).raw("r", desc(frustum(c, lo, hi))).done();
    }
    {
        Cylinder<T,3> c; d.make(c);
        T x = g.in(-2, 3), y = g.in(-3, 3);
        Ev("Build").kv("how", "dilate").raw("s", desc(c)).kv("x", vk::exact(x)).kv("y", 0).raw("r", desc(dilate(c, x))).done();
        Ev("Build").kv("how", "dilate2").raw("s", desc(c)).kv("x", vk::exact(std::max<T>(x, 0))).kv("y", vk::exact(y)).raw("r", desc(dilate(dilate(c, x), y))).done();
        Dilated<Cylinder<T,3>> w(c);
        Ev("Build").kv("how", "dilate").raw("s", desc(c)).kv("x", 0).kv("y", 0).raw("r", desc(w)).done();
        Sphere<T,3> s; d.make(s);
        Ev("Build").kv("how", "dilate_sphere").raw("s", desc(s)).kv("x", vk::exact(x)).kv("y", 0).raw("r", desc(dilate(s, x))).done();
        Rect<T,3> r; d.make(r);
        r.lo *= 2; r.hi *= 2;
        int rad = g.in(1, 3);
        Ev("Build").kv("how", "roundrect").raw("s", desc(r)).kv("x", rad).kv("y", 0).raw("r", desc(roundrect<T,3>(r, rad))).done();
    }
    {
        auto xf = d.map<3>();
        Rect<T,3> r; d.make(r);
        Oriented<Rect<T,3>> o(r, xf);
        auto id = translation(Vec<T,3>());
        Oriented<Rect<T,3>> one = xf * r, back = one / xf;
        Oriented<Rect<T,3>> acc(r); acc *= xf;
        Oriented<Rect<T,3>> acc2 = acc; acc2 /= xf;
        V in, got;
        Oriented<Rect<T,3>> inv = r / xf;
        for (int k = 0; k < 8; ++k) {
            P<3> p = d.pt<3>(4) + P<3>(0.5);
            if (k < 5) p = r.lo + P<3>(0.5) + d.pt<3>(1);      // never on the surface
            in.push_back(r.contains(p));
            got.push_back(one.contains(xf * p));
            got.push_back(back.contains(p));
            got.push_back(acc2.contains(p));
            got.push_back(inv.contains(p / xf));
        }
        Ev("Xf").raw("s", desc(o)).raw("r1", desc(one)).raw("r2", desc(acc)).kv("in", in).kv("got", got)
            .kv("vol", fx(o.volume(), 1)).raw("ob", desc(one.oriented_bounds())).done();
    }
}

// transforms of shapes that already are transformed
template <typename S> void chain(vk::Rng& g) {
    constexpr index_t N = S::N;
    Draw d{g};
    vk::about("transforming an oriented shape");
    Oriented<S> o;
    d.make(o);
    // an exact inverse
    AffineTransform<T,N> b;
    do { b = d.map<N>(); } while ([&] { for (index_t i = 0; i < N; ++i) { T s = 0; for (index_t j = 0; j < N; ++j) s += std::abs(b.mat(i,j)); if (s != 1) return true; } return false; }());
    Oriented<S> r1 = b * o, r2 = o, r3 = o / b, r4 = o, r5 = r1;
    r2 *= b;
    r4 /= b;
    r5 /= b;
    Oriented<Rect<T,N>> ob = o.oriented_bounds();
    Ev("Chain").raw("s", desc(o)).raw("b", "{" + jm<N>(b) + "}").raw("mul", "[" + desc(r1) + "," + desc(r2) + "]").raw("div", "[" + desc(r3) + "," + desc(r4) + "]")
        .raw("back", desc(r5)).raw("ob", desc(ob)).raw("box", desc(o.shape.bounds())).kv("eq", r1 == r2).kv("eq2", r5 == o).kv("ne", o == Oriented<S>(o.shape, b * o.xf * b)).done();
}

template <typename S> void traits(vk::Rng& g) {
    Draw d{g};
    S s{};
    d.make(s);
    Ev("Traits").raw("s", desc(s)).kv("convex", shape_traits<S>::is_convex).kv("ray", shape_traits<S>::is_ray_intersectable)
        .kv("proj", shape_traits<S>::is_projectable).kv("n", (int)S::N).done();
}

#define SHAPES(F) \
    F(Circle<T>) F(X(Rect<T,2>)) F(X(Capsule<T,2>)) F(X(Cylinder<T,2>)) F(X(Simplex<T,2>)) \
    F(Oriented<Circle<T>>) F(X(Oriented<Rect<T,2>>)) F(X(Oriented<Capsule<T,2>>)) F(X(Dilated<Rect<T,2>>)) F(X(Dilated<Cylinder<T,2>>)) \
    F(X(Sphere<T,3>)) F(X(Rect<T,3>)) F(X(Capsule<T,3>)) F(X(Cylinder<T,3>)) F(X(Simplex<T,3>)) \
    F(Extruded<Circle<T>>) F(X(Extruded<Rect<T,2>>)) F(X(Extruded<Capsule<T,2>>)) F(X(Extruded<Simplex<T,2>>)) F(X(Extruded<Dilated<Rect<T,2>>>)) \
    F(X(Extruded<Oriented<Rect<T,2>>>)) \
    F(Frustum<Circle<T>>) F(X(Frustum<Rect<T,2>>)) F(X(Frustum<Capsule<T,2>>)) F(X(Frustum<Simplex<T,2>>)) F(X(Frustum<Oriented<Circle<T>>>)) \
    F(X(Oriented<Sphere<T,3>>)) F(X(Oriented<Rect<T,3>>)) F(X(Oriented<Cylinder<T,3>>)) F(X(Oriented<Frustum<Rect<T,2>>>)) \
    F(X(Oriented<Extruded<Circle<T>>>)) F(X(Oriented<Dilated<Rect<T,3>>>)) \
    F(X(Dilated<Rect<T,3>>)) F(X(Dilated<Cylinder<T,3>>)) F(X(Dilated<Extruded<Circle<T>>>)) F(X(Dilated<Capsule<T,3>>)) \
    F(X(Sphere<T,4>)) F(X(Rect<T,4>)) F(X(Cylinder<T,4>)) F(X(Capsule<T,4>)) F(X(Extruded<Sphere<T,3>>)) F(X(Extruded<Cylinder<T,3>>)) \
    F(X(Frustum<Rect<T,3>>)) F(X(Oriented<Rect<T,4>>)) F(X(Dilated<Rect<T,4>>)) \
    F(Custom<Circle<T>>) F(X(Custom<Rect<T,3>>)) F(X(Signed<Rect<T,2>>)) F(X(Signed<Cylinder<T,3>>)) F(X(Oriented<Custom<Rect<T,2>>>)) F(X(Extruded<Signed<Circle<T>>>))
#define X(...) __VA_ARGS__

int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    int reps = argc > 2 ? atoi(argv[2]) : 4;
    vk::Rng g(seed);
    vk::open();
    for (int r = 0; r < reps; ++r) { builders(g); chain<Circle<T>>(g); chain<Rect<T,2>>(g); chain<Sphere<T,3>>(g); chain<Rect<T,3>>(g); }
#define GO(...) Case<__VA_ARGS__>::go(g, #__VA_ARGS__, reps);
    SHAPES(GO)
#define TR(...) traits<__VA_ARGS__>(g);
    SHAPES(TR)
    vk::close();
}
