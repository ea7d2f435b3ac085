// Hashes of bytes and of every hashable type.
#include "vk.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/function/Dual.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Dilated.h>
#include <geomc/Hash.h>
#include <unordered_set>
using namespace geom;
typedef std::vector<int> VI;
static vk::Rng rng(1);

static std::string limbs(uint64_t x) {
    std::vector<int> v;
    for (int i = 0; i < 4; ++i) v.push_back((x >> (16 * i)) & 0xffff);
    std::string s; vk::Ev::emit(s, v); return s;
}
static uint64_t word(const uint8_t* p) { uint64_t x = 0; for (int i = 7; i >= 0; --i) x = x << 8 | p[i]; return x; }

static void sip() {
    // heap blocks of the exact size, so that a read past the end is seen
    int n = rng.chance(70) ? rng.in(0, 24) : rng.in(0, 300);
    std::vector<uint8_t> key(16), msg(n);
    std::unique_ptr<uint8_t[]> m(new uint8_t[n]), k(new uint8_t[16]);
    VI mv, kv;
    int style = rng.in(0, 3);
    for (int i = 0; i < 16; ++i) { k[i] = style == 0 ? 0 : style == 1 ? 255 : rng.in(0, 255); kv.push_back(k[i]); }
    style = rng.in(0, 3);
    for (int i = 0; i < n; ++i) { m[i] = style == 0 ? 0 : style == 1 ? 255 : rng.in(0, 255); mv.push_back(m[i]); }
    if (rng.chance(70)) {
        bool wide = rng.chance(50);
        uint8_t out[24];
        memset(out, 0xa5, 24);
        vk::about("siphash");
        geom::detail::siphash(m.get(), n, k.get(), out, wide ? 16 : 8);
        bool guard = true;
        for (int i = wide ? 16 : 8; i < 24; ++i) if (out[i] != 0xa5) guard = false;
        vk::Ev("Sip").kv("key", kv).kv("msg", mv).kv("wide", wide)
            .raw("ret", "[" + limbs(word(out)) + (wide ? "," + limbs(word(out + 8)) : "") + "]").kv("guard", guard).done();
    } else {
        typedef unsigned __int128 H;
        H nonce = (H)word(k.get() + 8) << 64 | word(k.get());
        vk::about("hash_bytes");
        H h = geom::hash_bytes<H>(nonce, m.get(), n);
        vk::Ev("Bytes128").kv("key", kv).kv("msg", mv).raw("hi", limbs((uint64_t)(h >> 64))).raw("lo", limbs((uint64_t)h)).done();
    }
}

// a component as a number; zeros come with either sign
template <typename T> T num(int x) {
    if constexpr (std::is_floating_point_v<T>) { if (x == 0 && rng.chance(50)) return -(T)0; }
    return (T)x;
}
struct Src {
    const VI& v; size_t i = 0;
    template <typename T> T n() { return num<T>(v[i++]); }
    template <typename T, int N> Vec<T, N> p() { Vec<T, N> r; for (int j = 0; j < N; ++j) r[j] = n<T>(); return r; }
    Rect<double, 2> r2() { auto a = p<double, 2>(); return Rect<double, 2>(a, p<double, 2>()); }
    AffineTransform<double, 2> xf() {
        AffineTransform<double, 2> x;
        for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) x.mat(r, c) = n<double>();
        // equality is of the matrices alone
        x.inv(0, 0) = rng.in(0, 5);
        return x;
    }
};

template <typename X, typename F>
static void pairs(const char* name, int comps, F make, bool has_std = true) {
    VI a(comps), b;
    for (auto& x : a) x = rng.chance(60) ? rng.in(0, 2) : rng.in(-9, 9);
    b = a;
    if (rng.chance(70)) {
        int k = rng.in(0, 9);
        if (k < 6) b[rng.in(0, comps - 1)] += rng.chance(50) ? 1 : rng.in(1, 5);
        else if (k < 9) std::swap(b[rng.in(0, comps - 1)], b[rng.in(0, comps - 1)]);
        else b[rng.in(0, comps - 1)] *= -1;
    }
    vk::about(std::string("hash of ") + name);
    Src sa{a}, sb{b};
    X x = make(sa), y = make(sb);
    bool eq;
    if constexpr (requires { x == y; }) eq = x == y; else eq = a == b;
    size_t hx = geom::hash<X, size_t>(x), hy = geom::hash<X, size_t>(y);
    vk::Ev("Pair").kv("type", name).kv("a", a).kv("b", b).kv("eq", eq).kv("same", hx == hy).kv("same64", hx == hy).done();
    bool same = geom::hash<X, size_t>(X(x)) == hx && Digest<X, size_t>{}(x) == hx;
    if constexpr (requires { std::hash<X>{}(x); }) if (has_std) {
        same = same && std::hash<X>{}(x) == std::hash<X>{}(X(x)) && ((std::hash<X>{}(x) == std::hash<X>{}(y)) == (hx == hy));
    }
    vk::Ev("Ways").kv("type", name).kv("same", same).done();
}

template <typename X, typename F>
static void set_of(const char* name, int comps, F make) {
    std::set<VI> want;
    std::unordered_set<X> got;
    for (int i = 0; i < 40; ++i) {
        VI a(comps);
        for (auto& x : a) x = rng.in(-1, 1);
        want.insert(a);
        Src s{a};
        got.insert(make(s));
    }
    vk::Ev("Set").kv("type", name).kv("size", got.size()).kv("want", want.size()).done();
}

int main(int argc, char** argv) {
    rng = vk::Rng(atoi(argv[1]));
    int reps = atoi(argv[2]);
    vk::open();
    for (int i = 0; i < reps; ++i) {
        ++vk::episode;
        for (int k = 0; k < 6; ++k) sip();
        auto v2 = [](Src& s) { return s.p<double, 2>(); };
        pairs<Vec<double, 2>>("Vec<double,2>", 2, v2);
        pairs<Vec<double, 3>>("Vec<double,3>", 3, [](Src& s) { return s.p<double, 3>(); });
        pairs<Vec<float, 4>>("Vec<float,4>", 4, [](Src& s) { return s.p<float, 4>(); });
        pairs<Vec<index_t, 3>>("Vec<index_t,3>", 3, [](Src& s) { return s.p<index_t, 3>(); });
        pairs<Vec<double, 5>>("Vec<double,5>", 5, [](Src& s) { return s.p<double, 5>(); });
        pairs<Quat<double>>("Quat<double>", 4, [](Src& s) { double x = s.n<double>(), y = s.n<double>(), z = s.n<double>(); return Quat<double>(x, y, z, s.n<double>()); });
        pairs<Ray<double, 2>>("Ray<double,2>", 4, [](Src& s) { auto o = s.p<double, 2>(); return Ray<double, 2>(o, s.p<double, 2>()); });
        pairs<SimpleMatrix<double, 2, 3>>("SimpleMatrix<double,2,3>", 6, [](Src& s) { SimpleMatrix<double, 2, 3> m; for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) m(r, c) = s.n<double>(); return m; });
        pairs<SimpleMatrix<float, 0, 0>>("SimpleMatrix<float,0,0>", 6, [](Src& s) { SimpleMatrix<float, 0, 0> m(3, 2); for (int r = 0; r < 3; ++r) for (int c = 0; c < 2; ++c) m(r, c) = s.n<float>(); return m; });
        pairs<AffineTransform<double, 2>>("AffineTransform<double,2>", 6, [](Src& s) { return s.xf(); });
        pairs<Dual<double>>("Dual<double>", 1, [](Src& s) { return Dual<double>(s.n<double>(), rng.in(0, 5)); });
        pairs<Vec<Dual<double>, 2>>("Vec<Dual<double>,2>", 2, [](Src& s) { Dual<double> a(s.n<double>(), rng.in(0, 5)); return Vec<Dual<double>, 2>(a, Dual<double>(s.n<double>(), rng.in(0, 5))); });
        pairs<Sphere<double, 2>>("Sphere<double,2>", 3, [](Src& s) { auto c = s.p<double, 2>(); return Sphere<double, 2>(c, s.n<double>()); });
        pairs<Rect<double, 2>>("Rect<double,2>", 4, [](Src& s) { return s.r2(); });
        pairs<Rect<index_t, 1>>("Rect<index_t,1>", 2, [](Src& s) { index_t a = s.n<index_t>(); return Rect<index_t, 1>(a, s.n<index_t>()); });
        pairs<Plane<double, 3>>("Plane<double,3>", 4, [](Src& s) { Plane<double, 3> p; p.normal = s.p<double, 3>(); p.d = s.n<double>(); return p; });
        pairs<Capsule<double, 2>>("Capsule<double,2>", 5, [](Src& s) { auto a = s.p<double, 2>(); auto b = s.p<double, 2>(); return Capsule<double, 2>(a, b, s.n<double>()); });
        pairs<Cylinder<double, 3>>("Cylinder<double,3>", 7, [](Src& s) { auto a = s.p<double, 3>(); auto b = s.p<double, 3>(); return Cylinder<double, 3>(a, b, s.n<double>()); });
        pairs<Extruded<Rect<double, 2>>>("Extruded<Rect>", 6, [](Src& s) { auto r = s.r2(); double lo = s.n<double>(); return Extruded<Rect<double, 2>>(r, Rect<double, 1>(lo, s.n<double>())); });
        pairs<Frustum<Rect<double, 2>>>("Frustum<Rect>", 6, [](Src& s) { auto r = s.r2(); Frustum<Rect<double, 2>> f; f.base = r; double lo = s.n<double>(); f.height = Rect<double, 1>(lo, s.n<double>()); return f; });
        pairs<Dilated<Rect<double, 2>>>("Dilated<Rect>", 5, [](Src& s) { auto r = s.r2(); return Dilated<Rect<double, 2>>(r, s.n<double>()); });
        pairs<Oriented<Rect<double, 2>>>("Oriented<Rect>", 10, [](Src& s) { auto r = s.r2(); return Oriented<Rect<double, 2>>(r, s.xf()); });
        pairs<Dilated<Oriented<Sphere<double, 2>>>>("Dilated<Oriented<Sphere>>", 10, [](Src& s) { auto c = s.p<double, 2>(); Sphere<double, 2> b(c, s.n<double>()); Oriented<Sphere<double, 2>> o(b, s.xf()); return Dilated<Oriented<Sphere<double, 2>>>(o, s.n<double>()); });
        pairs<Simplex<double, 2>>("Simplex<double,2>", 4, [](Src& s) {
            Simplex<double, 2> x;
            // stale points beyond the last
            if (rng.chance(50)) for (int j = 0; j < 3; ++j) x.pts[j] = Vec<double, 2>(rng.in(3, 9), rng.in(3, 9));
            x.n = 0;
            for (int j = 0; j < 2; ++j) x.insert(s.p<double, 2>());
            return x;
        });
        pairs<std::tuple<Vec<double, 2>, double>>("tuple", 3, [](Src& s) { auto v = s.p<double, 2>(); return std::tuple<Vec<double, 2>, double>(v, s.n<double>()); }, false);
        if (i % 20 == 0) {
            set_of<Vec<double, 2>>("Vec<double,2>", 2, v2);
            set_of<Quat<double>>("Quat<double>", 4, [](Src& s) { double x = s.n<double>(), y = s.n<double>(), z = s.n<double>(); return Quat<double>(x, y, z, s.n<double>()); });
            set_of<SimpleMatrix<double, 2, 2>>("SimpleMatrix<double,2,2>", 4, [](Src& s) { SimpleMatrix<double, 2, 2> m; for (int r = 0; r < 2; ++r) for (int c = 0; c < 2; ++c) m(r, c) = s.n<double>(); return m; });
            set_of<AffineTransform<double, 2>>("AffineTransform<double,2>", 6, [](Src& s) { return s.xf(); });
            set_of<Dual<double>>("Dual<double>", 1, [](Src& s) { return Dual<double>(s.n<double>(), rng.in(0, 5)); });
        }
    }
    vk::close();
}
