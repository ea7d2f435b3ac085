// Records the intervals over which rays are inside shapes.   rays SEED COUNT
#include "shape.h"
#include <numeric>

template <typename S> struct Case {
    static constexpr index_t N = S::N;
    typedef P<N> Pt;

    static std::string ends(const Rect<T,1>& r) {
        return "[" + std::to_string(fx(r.lo)) + "," + std::to_string(fx(r.hi)) + "]";
    }

    static void ray(vk::Rng& g, Draw& d, const S& s, const char* name) {
        Rect<T,N> b = s.bounds();
        Pt o, v;                                  // the origin is o/2
        for (index_t i = 0; i < N; ++i) o[i] = std::round(b.lo[i] + b.hi[i]);
        switch (g.in(0, 5)) {
            case 0: o += d.template pt<N>(2); break;                     // from the middle
            case 1: o += d.template pt<N>(6); break;
            case 2: for (index_t i = 0; i < N; ++i) o[i] = std::round(2 * (g.chance(50) ? b.lo[i] : b.hi[i])) + (g.chance(60) ? 0 : g.in(-1, 1)); break;
            case 3: { Pt a = s.convex_support(d.template dir<N>(2)); for (index_t i = 0; i < N; ++i) o[i] = std::round(2 * a[i]); break; }
            default: o = d.template pt<N>(10);
        }
        if (g.chance(15)) o = Pt();
        for (index_t i = 0; i < N; ++i) o[i] = std::min<T>(14, std::max<T>(-14, o[i]));
        switch (g.in(0, 5)) {
            case 0: v = d.template axis<N>(); break;
            case 1: v = d.template dir<N>(1); break;
            case 2: v = d.template dir<N>(3); break;
            case 3: if constexpr (requires { s.p0; s.p1; }) v = s.p1 - s.p0; else v = d.template dir<N>(2); break;
            default: {                                                    // aimed at the middle or at an end
                Pt c;
                if (g.chance(50)) { for (index_t i = 0; i < N; ++i) c[i] = std::round(b.lo[i] + b.hi[i]); }
                else { Pt a = s.convex_support(d.template dir<N>(2)); for (index_t i = 0; i < N; ++i) c[i] = std::round(2 * a[i]); }
                v = c - o;
                long long k = 0;
                for (index_t i = 0; i < N; ++i) k = std::gcd(k, (long long)v[i]);
                if (k == 0) v = d.template dir<N>(2); else v /= k;
                for (index_t i = 0; i < N; ++i) if (std::abs(v[i]) > 4) v[i] = v[i] > 0 ? 4 : -4;
                if (g.chance(30)) v = -v;
            }
        }
        if (g.chance(25)) o -= 2 * v * g.in(0, 3);                        // behind or ahead
        for (index_t i = 0; i < N; ++i) o[i] = std::min<T>(20, std::max<T>(-20, o[i]));
        if (requires { s.clipped_height(); } && g.chance(10)) {            // in the plane of the tip
            o[N-1] = v[N-1] = 0;
            if (v.is_zero()) v[0] = 1;
            if (g.chance(60)) o = v * g.in(-2, 2);
        }
        vk::about(std::string(name) + " and a ray: " + desc(s) + " " + jv<N>(o) + "/2 " + jv<N>(v));
        Ray<T,N> r(o / 2, v);
        Rect<T,1> h = s.intersect(r);
        const RayIntersectable<T,N,S>& base = s;
        Rect<T,1> h2 = base.intersect(r);
        // the same ray, measured otherwise: its parameter is scaled
        Rect<T,1> h3 = s.intersect(Ray<T,N>(o / 2, v * 0.5));
        Ev e("Ray");
        e.raw("s", desc(s)).kv("o", whole<N>(o)).kv("v", whole<N>(v)).kv("e", h.is_empty()).raw("h", h.is_empty() ? "[0,0]" : ends(h))
            .kv("same", h2 == h || (h2.is_empty() && h.is_empty())).kv("e3", h3.is_empty()).raw("h3", h3.is_empty() ? "[0,0]" : ends(h3)).done();
    }

    static void go(vk::Rng& g, const char* name, int reps) {
        Draw d{g};
        for (int r = 0; r < reps; ++r) {
            S s{};
            vk::about(std::string("making ") + name);
            d.make(s);
            for (int k = 0; k < 6; ++k) ray(g, d, s, name);
        }
    }
};

template <index_t N> void facet(vk::Rng& g) {
    Draw d{g};
    Simplex<T,N> s;
    d.make(s, N);
    P<N> o = d.template pt<N>(6), v, hit;
    // aim at the middle of a face, or near it
    for (int i = 0; i < s.n; ++i) hit += s.pts[i] * g.in(0, 2);
    if (g.chance(60)) { v = hit - o; if (v.is_zero()) v = d.template dir<N>(2); } else v = d.template dir<N>(3);
    vk::about("facet and ray: " + desc(s) + " " + jv<N>(o) + jv<N>(v));
    Vec<T,N-1> uv;
    T t = 0, t2 = 0;
    bool hits = trace_simplex<T,N>(s.pts, Ray<T,N>(o, v), &uv, &t);
    bool hit2 = trace_simplex<T,N>(s.pts, Ray<T,N>(o, v), nullptr, &t2);
    Rect<T,1> h = s.intersect(Ray<T,N>(o, v));
    V w;
    const T* at = (const T*)&uv;
    for (index_t i = 0; i < N - 1; ++i) w.push_back(hits ? fx(at[i]) : 0);
    Ev("Facet").raw("s", desc(s)).kv("o", whole<N>(o)).kv("v", whole<N>(v)).kv("hit", hits).kv("t", hits ? fx(t) : 0).kv("uv", w)
        .kv("agree", hits == hit2 && (!hits || t == t2) && hits == !h.is_empty() && (!hits || (h.lo == t && h.hi == t))).done();
    Simplex<T,N> small;
    for (int i = 0; i + 1 < s.n; ++i) small.insert(s.pts[i]);
    Ev("NoFacet").kv("hit", !small.intersect(Ray<T,N>(o, v)).is_empty()).done();
}

#define X(...) __VA_ARGS__
#define SHAPES(F) \
    F(Circle<T>) F(X(Rect<T,2>)) F(X(Cylinder<T,2>)) F(X(Simplex<T,2>)) \
    F(Oriented<Circle<T>>) F(X(Oriented<Rect<T,2>>)) F(X(Oriented<Cylinder<T,2>>)) F(X(Oriented<Simplex<T,2>>)) \
    F(X(Sphere<T,3>)) F(X(Rect<T,3>)) F(X(Cylinder<T,3>)) F(X(Simplex<T,3>)) \
    F(Extruded<Circle<T>>) F(X(Extruded<Rect<T,2>>)) F(X(Extruded<Cylinder<T,2>>)) F(X(Extruded<Simplex<T,2>>)) \
    F(X(Extruded<Oriented<Rect<T,2>>>)) \
    F(Frustum<Circle<T>>) F(X(Frustum<Rect<T,2>>)) F(X(Frustum<Simplex<T,2>>)) F(X(Frustum<Oriented<Circle<T>>>)) F(X(Frustum<Cylinder<T,2>>)) \
    F(X(Oriented<Sphere<T,3>>)) F(X(Oriented<Rect<T,3>>)) F(X(Oriented<Cylinder<T,3>>)) F(X(Oriented<Frustum<Rect<T,2>>>)) F(X(Oriented<Extruded<Circle<T>>>)) \
    F(X(Oriented<Simplex<T,3>>)) \
    F(X(Sphere<T,4>)) F(X(Rect<T,4>)) F(X(Cylinder<T,4>)) F(X(Extruded<Sphere<T,3>>)) F(X(Extruded<Cylinder<T,3>>)) \
    F(X(Frustum<Rect<T,3>>)) F(X(Oriented<Rect<T,4>>)) F(X(Extruded<Frustum<Rect<T,2>>>))

int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    int reps = argc > 2 ? atoi(argv[2]) : 4;
    vk::Rng g(seed);
    vk::open();
#define GO(...) Case<__VA_ARGS__>::go(g, #__VA_ARGS__, reps);
    SHAPES(GO)
    for (int r = 0; r < 6 * reps; ++r) { facet<2>(g); facet<3>(g); facet<4>(g); }
    vk::close();
}
