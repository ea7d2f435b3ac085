// Records whether pairs of shapes were said to overlap.   pairs SEED COUNT
#include "shape.h"
#include <memory>
#include <functional>

template <index_t N> struct Thing {
    std::string text;
    std::unique_ptr<AnyConvex<T,N>> any;
    std::function<bool(P<N>)> has;
    Rect<T,N> box;
};

template <index_t N, typename S> Thing<N> thing(const S& s) {
    Thing<N> t;
    t.text = desc(s);
    t.any.reset(new AnyConvexImpl<S>(s));
    t.has = [s](P<N> p) { return s.contains(p); };
    t.box = s.bounds();
    return t;
}

template <index_t N> struct Pairs {
    vk::Rng& g; Draw d;
    std::vector<std::function<Thing<N>()>> makers;
    Intersector<T,N> worn;                     // used for one pair after another

    Pairs(vk::Rng& g):g(g), d{g} {}

    template <typename S> void kind() {
        makers.push_back([this] { S s{}; d.make(s); return thing<N>(s); });
    }
    void flat() {
        makers.push_back([this] { Simplex<T,N> s; d.make(s, g.in(1, N)); return thing<N>(s); });
    }

    /// how far the shapes are apart along v; positive if they are
    static T gap(const Thing<N>& a, const Thing<N>& b, P<N> v) {
        return (b.any->convex_support(-v).dot(v) - a.any->convex_support(v).dot(v)) / v.mag();
    }
    static P<N> grid(P<N> v, T top) {
        T m = 0;
        for (index_t i = 0; i < N; ++i) m = std::max(m, std::abs(v[i]));
        if (!(m > 0) || !std::isfinite(m)) return P<N>();
        P<N> r;
        for (index_t i = 0; i < N; ++i) r[i] = std::round(v[i] / m * top);
        return r;
    }

    void say(const Thing<N>& a, const Thing<N>& b, const char* how, bool hit, P<N> axis = P<N>()) {
        Ev e("Pair");
        e.raw("a", a.text).raw("b", b.text).kv("how", std::string(how)).kv("hit", hit);
        // clues for the judge: points in both, and a direction in which they are apart
        std::string w = "[";
        Rect<T,N> both = a.box & b.box;
        int found = 0;
        if (!both.is_empty()) {
            for (int k = 0; k < 60 && found < 3; ++k) {
                P<N> p;
                for (index_t i = 0; i < N; ++i) p[i] = std::round(4 * (both.lo[i] + (k ? g.in(0, 16) / 16.0 : 0.5) * (both.hi[i] - both.lo[i]))) / 4;
                if (a.has(p) && b.has(p)) { w += (found ? "," : "") + jv<N>(4 * p); ++found; }
            }
        }
        P<N> best = grid((b.box.lo + b.box.hi) - (a.box.lo + a.box.hi), 32);
        if (best.is_zero()) best[0] = 1;
        auto consider = [&](P<N> v) { if (!v.is_zero() && gap(a, b, v) > gap(a, b, best)) best = v; };
        if (!found) {
            consider(grid(axis, 32)); consider(grid(-axis, 32));
            for (int k = 0; k < 30; ++k) consider(grid(d.template dir<N>(2), 32));
            for (int k = 0; k < 60; ++k) { P<N> v = best; v[g.in(0, N - 1)] += g.in(-3, 3); consider(grid(v, 32)); }
        }
        e.raw("w", w + "]").kv("d", whole<N>(best));
        e.kv("sep", !hit && std::string(how).find("axis") == 0 ? whole<N>(grid(axis, 256)) : V());
        e.done();
    }

    void pair(Thing<N>& a, Thing<N>& b) {
        vk::about("overlap of " + a.text + " and " + b.text);
        Intersector<T,N> fresh;
        bool h = fresh.intersects(*a.any, *b.any);
        say(a, b, "axis, fresh", h, fresh.separation_axis);
        h = worn.intersects(*a.any, *b.any);
        say(a, b, "axis, worn", h, worn.separation_axis);
        if (g.chance(30)) { h = worn.intersects(*a.any, *b.any); say(a, b, "axis, again", h, worn.separation_axis); }
        if (g.chance(30)) say(b, a, "function", geom::intersects<T,N>(*b.any, *a.any));
    }

    void go(int n) {
        for (int k = 0; k < n; ++k) {
            d.span = g.in(1, 2);
            auto a = makers[g.in(0, makers.size() - 1)]();
            d.span = g.in(1, 4);
            auto b = makers[g.in(0, makers.size() - 1)]();
            pair(a, b);
            if (g.chance(10)) pair(a, a);
        }
    }

    template <typename A, typename B> void direct(bool gjk) {
        d.span = g.in(1, 2);
        A a{}; d.make(a);
        d.span = g.in(1, 4);
        B b{}; d.make(b);
        vk::about("overlap of " + desc(a) + " and " + desc(b));
        auto ta = thing<N>(a), tb = thing<N>(b);
        if (gjk) say(ta, tb, "convex", static_cast<const Convex<T,N,A>&>(a).intersects(static_cast<const Convex<T,N,B>&>(b)));
        else say(ta, tb, "own", a.intersects(b));
    }
};

#define X(...) __VA_ARGS__
#define FLAT(F) F(Circle<T>) F(X(Rect<T,2>)) F(X(Capsule<T,2>)) F(X(Cylinder<T,2>)) F(X(Simplex<T,2>)) F(Oriented<Circle<T>>) F(X(Oriented<Rect<T,2>>)) F(X(Oriented<Capsule<T,2>>)) F(X(Dilated<Rect<T,2>>)) F(X(Dilated<Simplex<T,2>>))
#define SOLID(F) F(X(Sphere<T,3>)) F(X(Rect<T,3>)) F(X(Capsule<T,3>)) F(X(Cylinder<T,3>)) F(X(Simplex<T,3>)) \
    F(Extruded<Circle<T>>) F(X(Extruded<Rect<T,2>>)) F(X(Extruded<Capsule<T,2>>)) F(X(Extruded<Simplex<T,2>>)) F(X(Extruded<Oriented<Rect<T,2>>>)) \
    F(Frustum<Circle<T>>) F(X(Frustum<Rect<T,2>>)) F(X(Frustum<Simplex<T,2>>)) \
    F(X(Oriented<Sphere<T,3>>)) F(X(Oriented<Rect<T,3>>)) F(X(Oriented<Cylinder<T,3>>)) F(X(Oriented<Frustum<Rect<T,2>>>)) F(X(Oriented<Extruded<Circle<T>>>)) \
    F(X(Dilated<Rect<T,3>>)) F(X(Dilated<Extruded<Rect<T,2>>>))
#define HYPER(F) F(X(Sphere<T,4>)) F(X(Rect<T,4>)) F(X(Cylinder<T,4>)) F(X(Extruded<Sphere<T,3>>)) F(X(Frustum<Rect<T,3>>)) F(X(Oriented<Rect<T,4>>)) F(X(Simplex<T,4>))

int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    int reps = argc > 2 ? atoi(argv[2]) : 40;
    vk::Rng g(seed);
    vk::open();
    Pairs<2> p2(g); Pairs<3> p3(g); Pairs<4> p4(g);
#define K2(...) p2.template kind<__VA_ARGS__>();
    FLAT(K2) p2.flat();
#define K3(...) p3.template kind<__VA_ARGS__>();
    SOLID(K3) p3.flat();
#define K4(...) p4.template kind<__VA_ARGS__>();
    HYPER(K4)
    for (int r = 0; r < reps; ++r) {
        p2.go(6); p3.go(12); p4.go(2);
        p2.direct<Circle<T>, Circle<T>>(false); p3.direct<Sphere<T,3>, Sphere<T,3>>(false); p4.direct<Sphere<T,4>, Sphere<T,4>>(false);
        p2.direct<Circle<T>, Rect<T,2>>(false); p3.direct<Sphere<T,3>, Rect<T,3>>(false); p3.direct<Rect<T,3>, Sphere<T,3>>(false);
        p2.direct<Rect<T,2>, Rect<T,2>>(false); p3.direct<Rect<T,3>, Rect<T,3>>(false); p4.direct<Rect<T,4>, Rect<T,4>>(false);
        p2.direct<Capsule<T,2>, Circle<T>>(false); p3.direct<Capsule<T,3>, Sphere<T,3>>(false);
        for (int k = 0; k < 3; ++k) {
            p2.direct<Oriented<Rect<T,2>>, Rect<T,2>>(false); p3.direct<Oriented<Rect<T,3>>, Rect<T,3>>(false);
            p2.direct<Rect<T,2>, Oriented<Rect<T,2>>>(false); p3.direct<Rect<T,3>, Oriented<Rect<T,3>>>(false);
            p2.direct<Oriented<Rect<T,2>>, Oriented<Rect<T,2>>>(false); p3.direct<Oriented<Rect<T,3>>, Oriented<Rect<T,3>>>(false);
        }
        p4.direct<Oriented<Rect<T,4>>, Rect<T,4>>(false); p4.direct<Oriented<Rect<T,4>>, Oriented<Rect<T,4>>>(false);
        p2.direct<Cylinder<T,2>, Circle<T>>(true); p3.direct<Cylinder<T,3>, Oriented<Sphere<T,3>>>(true); p3.direct<Frustum<Circle<T>>, Rect<T,3>>(true);
        p3.direct<Extruded<Circle<T>>, Simplex<T,3>>(true);
    }
    vk::close();
}
