// Records operations on boxes.   rect SEED COUNT
#include "vk.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/Rect.h>
using namespace geom;
using vk::Ev;
typedef std::vector<long long> V;

template <typename T, index_t N> struct Go {
    typedef Rect<T,N> R;
    typedef typename R::point_t P;
    typedef PointType<T,N> PT;
    static constexpr bool I = std::is_integral<T>::value;
    static constexpr int SC = I ? 1 : 4;
    static constexpr int FAR = 1000;
    vk::Rng& g;
    int span;

    static long long num(T v) {
        if (v >= std::numeric_limits<T>::max()) return FAR;
        if (v <= std::numeric_limits<T>::lowest()) return -FAR;
        return vk::exact((double)v, SC, 900);
    }
    static V pt(P p) { V v; for (index_t i = 0; i < N; ++i) v.push_back(num(PT::iterator(p)[i])); return v; }
    static std::vector<V> box(const R& r) { return {pt(r.lo), pt(r.hi)}; }
    T coord(int s) { return I ? (T)g.in(-s, s) : (T)(g.in(-2 * s, 2 * s) / 2.0); }
    P point(int s) { P p{}; for (index_t i = 0; i < N; ++i) PT::iterator(p)[i] = coord(s); return p; }
    P nonzero(int s) { P p{}; for (index_t i = 0; i < N; ++i) do PT::iterator(p)[i] = coord(s); while (PT::iterator(p)[i] == 0); return p; }
    R solid() {
        R r;
        do { r = R::spanning_corners(point(span), point(span)); } while (r.is_empty());
        return r;
    }
    R any() {
        int k = g.in(0, 11);
        if (k == 0) return R();
        if (k == 1) return R(point(span), point(span));    // often empty
        if (k == 2) return R(point(span));
        return solid();
    }
    // related to a: shares faces, or lies within it
    R near(const R& a) {
        R b = any();
        if (a.is_empty() || g.chance(40)) return b;
        for (index_t i = 0; i < N; ++i) {
            T& lo = PT::iterator(b.lo)[i]; T& hi = PT::iterator(b.hi)[i];
            T alo = PT::iterator(a.lo)[i], ahi = PT::iterator(a.hi)[i];
            switch (g.in(0, 6)) {
                case 0: lo = ahi; hi = ahi + (T)g.in(0, 3); break;
                case 1: hi = alo; lo = alo - (T)g.in(0, 3); break;
                case 2: lo = alo; hi = ahi; break;
                case 3: lo = ahi + 1; hi = lo + (T)g.in(0, 2); break;
                case 4: lo = alo - (T)g.in(0, 2); hi = ahi + (T)g.in(0, 2); break;
                case 5: lo = alo; break;
                default: break;
            }
        }
        return b;
    }
    Ev ev(const char* op) { Ev e(op); e.kv("m", I ? 1 : 0).kv("n", (long long)N).kv("sc", SC); return e; }

    void step() {
        span = g.chance(50) ? 2 : 5;
        R a = any(), b = near(a);
        P p = point(span + 1), q = point(span + 1);
        if (g.chance(30) && !a.is_empty()) p = a.convex_support(point(2));
        int k = g.in(0, 28);
        switch (k) {
          case 0: { vk::about("|"); R u = a | b, v = a; R& w = (v |= b);
            ev("Union").kv("a", box(a)).kv("b", box(b)).kv("r", box(u)).kv("r2", box(v)).kv("self", &w == &v).done(); break; }
          case 1: { vk::about("| point"); R v = a; R& w = (v |= p);
            ev("UnionPt").kv("a", box(a)).kv("p", pt(p)).kv("r", box(a | p)).kv("r2", box(v)).kv("self", &w == &v).done(); break; }
          case 2: { vk::about("&"); R u = a & b, v = a; R& w = (v &= b);
            ev("Inter").kv("a", box(a)).kv("b", box(b)).kv("r", box(u)).kv("r2", box(v)).kv("self", &w == &v).done(); break; }
          case 3: { vk::about("+"); R s = solid(); R v = s, v2 = s; v += p; v2 -= p;
            ev("Shift").kv("a", box(s)).kv("p", pt(p)).kv("r", box(s + p)).kv("r2", box(v)).kv("r3", box(p + s)).kv("m1", box(s - p)).kv("m2", box(v2)).kv("from", box(p - s)).done(); break; }
          case 4: case 27: { vk::about("exclude"); R a0 = a; R u = a - b; R v = a0; v -= b;
            ev("Exclude").kv("a", box(a0)).kv("b", box(b)).kv("r", box(u)).kv("r2", box(v)).kv("a1", box(a)).done(); break; }
          case 5: { vk::about("contains");
            ev("Contains").kv("a", box(a)).kv("p", pt(p)).kv("ret", a.contains(p)).kv("ret2", R::contains(a.lo, a.hi, p)).done(); break; }
          case 6: case 28: { vk::about("contains box");
            ev("ContainsBox").kv("a", box(a)).kv("b", box(b)).kv("ret", a.contains(b)).kv("rev", b.contains(a)).done(); break; }
          case 7: { vk::about("intersects");
            ev("Meets").kv("a", box(a)).kv("b", box(b)).kv("ret", a.intersects(b)).kv("rev", b.intersects(a)).done(); break; }
          case 8: { vk::about("measures"); R s = g.chance(80) ? solid() : R(point(span), point(span));
            ev("Measure").kv("a", box(s)).kv("dim", pt(s.dimensions())).kv("ctr", pt(s.center())).kv("vol", vk::exact(s.volume(), std::pow(SC, N), 1e8)).kv("empty", s.is_empty()).kv("cube", vk::fixed(std::pow((double)s.length(), N), std::pow(SC, N), 1e8)).done(); break; }
          case 9: { vk::about("from_corner"); P d = nonzero(span);
            ev("FromCorner").kv("p", pt(p)).kv("d", pt(d)).kv("r", box(R::from_corner(p, d))).done(); break; }
          case 10: { vk::about("from_center"); P d = nonzero(span);
            R o = R::from_center(p, d);
            ev("FromCenter").kv("p", pt(p)).kv("d", pt(d)).kv("r", box(o)).kv("r2", box(R::from_size(d))).kv("ctr", pt(o.center())).done(); break; }
          case 11: { vk::about("spanning"); R v = a; v.set_corners(p, q);
            ev("Span").kv("p", pt(p)).kv("q", pt(q)).kv("r", box(R::spanning_corners(p, q))).kv("r2", box(v)).done(); break; }
          case 12: { vk::about("from points"); std::vector<P> ps; std::vector<V> vs; int c = g.in(0, 5);
            for (int i = 0; i < c; ++i) { ps.push_back(point(span)); vs.push_back(pt(ps.back())); }
            ev("Points").kv("ps", vs).kv("r", box(R::from_point_sequence(ps.begin(), ps.end()))).done(); break; }
          case 13: { vk::about("axis"); std::vector<std::vector<long long>> ax;
            for (index_t i = 0; i < N; ++i) { auto x = a.axis(i); ax.push_back({num(x.lo), num(x.hi)}); }
            auto s1 = a(N - 1);
            std::vector<V> two{{}, {}};
            int i = g.in(0, N - 1), j = g.in(0, N - 1);
            auto s2 = a(i, j);
            two = {{num(s2.lo[0]), num(s2.lo[1])}, {num(s2.hi[0]), num(s2.hi[1])}};
            ev("Axes").kv("a", box(a)).kv("ax", ax).kv("last", V{num(s1.lo), num(s1.hi)}).kv("i", i + 1).kv("j", j + 1).kv("two", two).done(); break; }
          case 14: { vk::about("cartesian"); Rect<T,2> o(Vec<T,2>(coord(span), coord(span)), Vec<T,2>(coord(span), coord(span)));
            auto c = a * o; Rect<T,1> z(coord(span), coord(span)); auto d = a * z;
            ev("Product").kv("a", box(a)).kv("b", Go<T,2>::box(o)).kv("r", Go<T,N+2>::box(c)).kv("z", Go<T,1>::box(z)).kv("r1", Go<T,N+1>::box(d)).done(); break; }
          case 15: { vk::about("scale"); R s = solid(); P f{}; for (index_t i = 0; i < N; ++i) PT::iterator(f)[i] = (T)(g.in(0, 1) ? g.in(1, 4) : -g.in(1, 4));
            R v = s; v *= f; R back = v; back /= f;
            V fi; for (index_t i = 0; i < N; ++i) fi.push_back((long long)PT::iterator(f)[i]);
            ev("Scale").kv("a", box(s)).kv("f", fi).kv("r", box(s * f)).kv("r2", box(v)).kv("back", g.chance(50) ? box(back) : box((s * f) / f)).done(); break; }
          case 16: { vk::about("dilated"); R s = solid();
            ev("Grow").kv("a", box(s)).kv("p", pt(p)).kv("r", box(s.dilated(p))).done(); break; }
          case 17: { vk::about("minkowski"); R s = solid(), t = solid();
            ev("Sum").kv("a", box(s)).kv("b", box(t)).kv("r", box(s.minkowski_sum(t))).done(); break; }
          case 18: { vk::about("clip"); R s = solid();
            ev("Clip").kv("a", box(s)).kv("p", pt(p)).kv("r", pt(s.clip(p))).kv("d2", vk::exact(s.dist2(p), SC * SC)).done(); break; }
          case 19: case 20: { vk::about("project"); R s = solid(); if (g.chance(40)) p = s.clip(p);
            double sd = 0; if constexpr (!I) sd = s.sdf(p);
            ev("Project").kv("a", box(s)).kv("p", pt(p)).kv("r", pt(s.project(p))).kv("sdf", vk::fixed(sd, SC * 100)).done(); break; }
          case 21: if constexpr (!I) { vk::about("contact"); R s = solid(), t = near(s); if (t.is_empty()) t = solid();
            // flat boxes have no inside to overlap
            bool flat = s.volume() == 0 || t.volume() == 0;
            if (flat) break;
            auto c = s.contact_vector(t);
            ev("Contact").kv("a", box(s)).kv("b", box(t)).kv("v", pt(c.first)).kv("over", c.second).done(); } break;
          case 22: { vk::about("abs"); R s(point(span), point(span));
            ev("Abs").kv("a", box(s)).kv("r", box(s.abs())).done(); break; }
          case 23: if constexpr (!I) { vk::about("remap"); P lo = point(span), d{}, s{};
            for (index_t i = 0; i < N; ++i) { PT::iterator(d)[i] = (T)(1 << g.in(0, 2)) * (g.in(0, 4) ? 1 : -1); PT::iterator(s)[i] = (T)g.in(-2, 6) / 4; }
            R r(lo, lo + d);
            P x = r.remap(s);
            V si, bi; P u = r.unmap(x);
            for (index_t i = 0; i < N; ++i) { si.push_back(vk::exact(PT::iterator(s)[i], 4)); bi.push_back(vk::exact(PT::iterator(u)[i], 4)); }
            V xi; for (index_t i = 0; i < N; ++i) xi.push_back(vk::exact(PT::iterator(x)[i], 16));
            ev("Remap").kv("a", box(r)).kv("s", si).kv("x", xi).kv("back", bi).done(); } break;
          case 24: { vk::about("support"); R s = solid(); P d = point(3);
            ev("Support").kv("a", box(s)).kv("d", pt(d)).kv("r", pt(s.convex_support(d))).kv("bb", box(s.bounds())).done(); break; }
          case 25: { vk::about("equality"); R c = g.chance(50) ? a : b;
            ev("Eq").kv("a", box(a)).kv("b", box(c)).kv("eq", a == c).kv("ne", a != c).kv("cast", Go<double,N>::raw((Rect<double,N>)c, SC)).done(); break; }
          case 26: if constexpr (!I) { vk::about("resize"); R s = solid(); P d = nonzero(span);
            R v = s; v.set_dimensions(d + d); R w = s.centered_on(p);
            R t = solid();
            ev("Resize").kv("a", box(s)).kv("d", pt(d)).kv("r", Go<T,N>::raw(v, 8)).kv("p", pt(p)).kv("w", Go<T,N>::raw(w, 8)).done();
            P sz{}; for (index_t i = 0; i < N; ++i) PT::iterator(sz)[i] = (T)(1 << g.in(0, 2)) * (g.in(0, 5) ? 1 : 0);
            R shape(p, p + sz);
            if (shape.is_empty()) break;
            R fit = shape.fitted_to(t);
            ev("Fit").kv("a", box(shape)).kv("b", box(t)).kv("r", Go<T,N>::raw(fit, 64)).done(); } break;
        }
        vk::odd_number = false;
    }
    static std::vector<V> raw(const R& r, int sc) {
        std::vector<V> o{{}, {}};
        for (index_t i = 0; i < N; ++i) {
            for (int s = 0; s < 2; ++s) {
                double v = PT::iterator(s ? r.hi : r.lo)[i];
                double far = 1e9;
                o[s].push_back(v > far ? FAR : v < -far ? -FAR : vk::exact(v, sc, 1e5));
            }
        }
        return o;
    }
};

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    for (int i = 0; i < atoi(argv[2]); ++i) {
        Go<int,1>{g}.step();
        Go<int,2>{g}.step();
        Go<int64_t,3>{g}.step();
        Go<double,1>{g}.step();
        Go<double,2>{g}.step();
        Go<double,3>{g}.step();
        Go<float,4>{g}.step();
    }
    vk::close();
}
