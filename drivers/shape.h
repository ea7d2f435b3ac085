// Shapes with whole-number parameters, drawn at random and described for the trace.
#pragma once
#include "vk.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Intersect.h>

using namespace geom;
using vk::Ev;
typedef std::vector<long long> V;
typedef double T;
constexpr double U = 256;

template <index_t N> using P = Vec<T,N>;

/// numbers that may be NaN or huge, in 1/U; the markers are beyond anything a scenario yields
inline long long fx(double v, double scale = U) {
    double x = v * scale;
    if (std::isnan(x)) return 99999999;
    if (x > 9e6) return 9000000;
    if (x < -9e6) return -9000000;
    return std::llround(x);
}
template <index_t N> V fixv(const P<N>& p, double scale = U) { V v; for (index_t i = 0; i < N; ++i) v.push_back(fx(p[i], scale)); return v; }
/// whole numbers
template <index_t N> V whole(const P<N>& p, double scale = 1) { V v; for (index_t i = 0; i < N; ++i) v.push_back(vk::exact(p[i], scale, 4000)); return v; }

inline std::string js(const V& v) { std::string s; Ev::emit(s, v); return s; }
inline std::string js(double v) { return std::to_string(vk::exact(v, 1, 4000)); }
template <index_t N> std::string jv(const P<N>& p) { return js(whole<N>(p)); }

// ------------------------------------------------------------------ descriptions
template <index_t N> std::string desc(const Sphere<T,N>& s) { return "{\"k\":\"sph\",\"c\":" + jv<N>(s.center) + ",\"r\":" + js(s.r) + "}"; }
template <index_t N> std::string desc(const Rect<T,N>& s) { return "{\"k\":\"box\",\"lo\":" + jv<N>(s.lo) + ",\"hi\":" + jv<N>(s.hi) + "}"; }
template <index_t N> std::string desc(const Capsule<T,N>& s) { return "{\"k\":\"cap\",\"a\":" + jv<N>(s.p0) + ",\"b\":" + jv<N>(s.p1) + ",\"r\":" + js(s.radius) + "}"; }
template <index_t N> std::string desc(const Cylinder<T,N>& s) { return "{\"k\":\"cyl\",\"a\":" + jv<N>(s.p0) + ",\"b\":" + jv<N>(s.p1) + ",\"r\":" + js(s.radius) + "}"; }
template <index_t N> std::string desc(const Simplex<T,N>& s) {
    std::string o = "{\"k\":\"spx\",\"p\":[";
    for (index_t i = 0; i < s.n; ++i) o += (i ? "," : "") + jv<N>(s.pts[i]);
    return o + "]}";
}
template <typename S> std::string desc(const Extruded<S>& s);
template <typename S> std::string desc(const Frustum<S>& s);
template <typename S> std::string desc(const Oriented<S>& s);
template <typename S> std::string desc(const Dilated<S>& s);
template <index_t N> std::string jm(const AffineTransform<T,N>& xf) {
    std::string o = "\"m\":[";
    for (index_t i = 0; i < N; ++i) {
        V r;
        for (index_t j = 0; j < N; ++j) r.push_back(vk::exact(xf.mat(i,j), 1, 1000));
        o += (i ? "," : "") + js(r);
    }
    V t;
    for (index_t i = 0; i < N; ++i) t.push_back(vk::exact(xf.mat(i,N), 1, 1000));
    return o + "],\"t\":" + js(t);
}
template <typename S> std::string desc(const Extruded<S>& s) { return "{\"k\":\"ext\",\"s\":" + desc(s.base) + ",\"lo\":" + js(s.height.lo) + ",\"hi\":" + js(s.height.hi) + "}"; }
template <typename S> std::string desc(const Frustum<S>& s) { return "{\"k\":\"fru\",\"s\":" + desc(s.base) + ",\"lo\":" + js(s.height.lo) + ",\"hi\":" + js(s.height.hi) + "}"; }
template <typename S> std::string desc(const Oriented<S>& s) { constexpr index_t N = S::N; return "{\"k\":\"ori\",\"s\":" + desc(s.shape) + "," + jm<N>(s.xf) + "}"; }
template <typename S> std::string desc(const Dilated<S>& s) { return "{\"k\":\"dil\",\"s\":" + desc(s.shape) + ",\"d\":" + js(s.dilation) + "}"; }

// ------------------------------------------------------------------ shapes of a user's own
/// says only what is inside, what is nearest and what is furthest; the library supplies the rest
template <typename S> struct Custom : Convex<T,S::N,Custom<S>>, Projectable<T,S::N,Custom<S>>, RayIntersectable<T,S::N,Custom<S>> {
    S inner;
    bool contains(P<S::N> p) const { return inner.contains(p); }
    P<S::N> project(P<S::N> p) const { return inner.project(p); }
    P<S::N> convex_support(P<S::N> d) const { return inner.convex_support(d); }
    Rect<T,1> intersect(const Ray<T,S::N>& r) const { return inner.intersect(r); }
};
/// says how far and what is nearest, not what is inside
template <typename S> struct Signed : Convex<T,S::N,Signed<S>>, Projectable<T,S::N,Signed<S>>, RayIntersectable<T,S::N,Signed<S>> {
    S inner;
    T sdf(P<S::N> p) const { return inner.sdf(p); }
    P<S::N> project(P<S::N> p) const { return inner.project(p); }
    P<S::N> convex_support(P<S::N> d) const { return inner.convex_support(d); }
    Rect<T,S::N> bounds() const { return inner.bounds(); }
    Rect<T,1> intersect(const Ray<T,S::N>& r) const { return inner.intersect(r); }
};
template <typename S> std::string desc(const Custom<S>& s) { return desc(s.inner); }
template <typename S> std::string desc(const Signed<S>& s) { return desc(s.inner); }

// ------------------------------------------------------------------ drawing
struct Draw {
    vk::Rng& g;
    int span = 2;

    template <index_t N> P<N> pt(int s) { P<N> p; for (index_t i = 0; i < N; ++i) p[i] = g.in(-s, s); return p; }
    template <index_t N> P<N> dir(int s) { P<N> p; do p = pt<N>(s); while (p.is_zero()); return p; }
    /// an invertible map with small whole entries; mostly with a simple inverse
    template <index_t N> AffineTransform<T,N> map() {
        SimpleMatrix<T,N,N> m;
        int kind = g.in(0, 3);
        while (true) {
            m = SimpleMatrix<T,N,N>();
            if (kind <= 1) {                       // a signed permutation, possibly scaled
                int perm[N]; for (int i = 0; i < N; ++i) perm[i] = i;
                for (int i = N - 1; i > 0; --i) std::swap(perm[i], perm[g.in(0, i)]);
                for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i,j) = 0;
                for (int i = 0; i < N; ++i) m(i, perm[i]) = (g.chance(50) ? 1 : -1) * (kind == 1 && g.chance(30) ? 2 : 1);
                break;
            }
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i,j) = g.in(-1, 1) * (g.chance(70) ? 1 : 2) * (g.chance(70) || i == j);
            SimpleMatrix<T,N,N> c = m;
            double d = det_destructive(c.data_begin(), N);
            if (std::abs(d) > 0.5 && std::abs(d) < 5) break;
        }
        AffineTransform<T,N> xf = transformation(m);
        return translation(pt<N>(2)) * xf;
    }

    template <index_t N> void make(Sphere<T,N>& s) { s = Sphere<T,N>(pt<N>(span), g.in(1, 3)); }
    template <index_t N> void make(Rect<T,N>& s) {
        P<N> lo = pt<N>(span), w; for (index_t i = 0; i < N; ++i) w[i] = g.in(1, 3);
        s = Rect<T,N>(lo, lo + w);
    }
    template <index_t N> P<N> axis() {
        if (g.chance(50)) { P<N> a; a[g.in(0, N - 1)] = (g.chance(50) ? 1 : -1) * (T)(g.chance(50) ? 2 : g.in(1, 4)); return a; }
        return dir<N>(2);
    }
    template <index_t N> void make(Capsule<T,N>& s) {
        P<N> a = pt<N>(span);
        s = Capsule<T,N>(a, g.chance(5) ? a : a + axis<N>(), g.in(1, 2));
    }
    template <index_t N> void make(Cylinder<T,N>& s) { P<N> a = pt<N>(span); s = Cylinder<T,N>(a, a + axis<N>(), g.in(1, 2)); }
    template <index_t N> void make(Simplex<T,N>& s, int n = N + 1) {
        while (true) {
            s = Simplex<T,N>();
            P<N> o = pt<N>(span);
            s.insert(o);
            if (n == N + 1 && g.chance(30)) {
                for (index_t i = 0; i < N; ++i) { P<N> e = o; e[i] += g.chance(50) ? 2 : 1; s.insert(e); }
                return;
            }
            for (int i = 1; i < n; ++i) s.insert(o + pt<N>(3));
            if (n == N + 1) { if (std::abs(s.volume()) > 0.1) return; }
            else if (s.measure() > 0.1) return;
        }
    }
    void heights(T& a, T& b) { a = g.in(-3, 2); b = a + g.in(1, 3); }
    template <typename S> void make(Extruded<S>& s) { make(s.base); T a, b; heights(a, b); s = Extruded<S>(s.base, g.chance(50) ? a : b, g.chance(50) ? b : a); if (s.height.lo == s.height.hi) s.height.hi += 1; }
    template <typename S> void make(Frustum<S>& s) {
        int was = span; span = 1; make(s.base); span = was;
        static const int hs[][2] = {{0,1},{0,2},{1,2},{1,3},{-1,2},{-2,-1},{-2,0},{-1,1},{2,3},{-3,-1},{-3,1}};
        auto h = hs[g.in(0, 10)];
        s = Frustum<S>(s.base, h[0], h[1]);
    }
    template <typename S> void make(Custom<S>& s) { make(s.inner); }
    template <typename S> void make(Signed<S>& s) { make(s.inner); }
    template <typename S> void make(Oriented<S>& s) { make(s.shape); s.xf = map<S::N>(); }
    template <typename S> void make(Dilated<S>& s) { make(s.shape); s.dilation = g.in(g.chance(20) ? 0 : 1, 2); }
};
