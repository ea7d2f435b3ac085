// Gradient noise and paths, at places where their values are exact.
#include "vk.h"
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/Path.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
// fresh memory holds nothing useful
void* operator new[](size_t n) {
    void* p = malloc(n);
    if (!p) abort();
    memset(p, 0x7f, n);
    return p;
}
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
using namespace geom;
typedef std::vector<int> VI;
static vk::Rng rng(1);
static int D(int t) { return t % 4 == 0 ? 1 : t % 4 == 2 ? 8 : 512; }

template <typename T, index_t N> struct Cells {
    typedef PerlinNoise<T, N> P;
    typedef PointType<T, N> PT;
    typedef typename P::point_t point_t;
    static T& at(point_t& p, int i) { return PT::iterator(p)[i]; }
    static std::string ints(point_t p, double scale) {
        std::vector<long long> v;
        for (int i = 0; i < N; ++i) v.push_back(vk::exact(at(p, i), scale, 2e9));
        std::string s; vk::Ev::emit(s, v); return s;
    }
    static void dirty() { // what lies on the stack is not zero
        volatile double junk[64];
        for (auto& x : junk) x = 12345.678;
    }
    static void cell(P& n) {
        point_t base, p;
        VI q;
        // single precision holds what two axes off the halves need
        int odd = 0, most = sizeof(T) == 4 ? 0 : N >= 3 ? 1 : 2;
        int far = rng.chance(20) ? 100000 : rng.chance(50) ? 300 : 5;
        double scale = 1;
        for (int i = 0; i < N; ++i) {
            at(base, i) = rng.in(-far, far);
            int t = rng.in(0, 3);
            if (t % 2 && ++odd > most) t = 2 * rng.in(0, 1);
            q.push_back(t);
            scale *= D(t);
            at(p, i) = at(base, i) + (T)(t / 4.0);
        }
        std::string g = "[";
        std::vector<long long> zero;
        vk::about("noise");
        for (int c = 0; c < (1 << N); ++c) {
            point_t k = base;
            for (int i = 0; i < N; ++i) if (c & (1 << i)) at(k, i) += 1;
            dirty();
            auto r = n.gradient(k);
            zero.push_back(vk::exact(r.first, 4)); zero.push_back(vk::exact(n.eval(k), 4));
            g += (c ? "," : "") + ints(r.second, 4);
        }
        T v = n.eval(p);
        dirty();
        auto r = n.gradient(p);
        // gradients are in quarters, and so are distances
        double s = scale * 16;
        vk::Ev("Cell").kv("n", N).kv("p", q).raw("g", g + "]").raw("at", ints(base, 1)).kv("scale", vk::exact(scale, 1, 2e9))
            .kv("val", vk::exact(v, s, 2e9)).kv("gval", vk::exact(r.first, s, 2e9)).raw("grad", ints(r.second, s)).kv("zero", zero).done();
    }
    static void go(int k) {
        MTRand rand(rng.next() & 0xffffff);
        P n(&rand);
        // gradients of our own, with few bits
        for (int i = 0; i < PERLIN_NUM_GRADIENTS; ++i)
            for (int j = 0; j < N; ++j) at(n.gradients[i], j) = (T)(rng.in(-8, 8) / 4.0);
        for (int i = 0; i < k; ++i) cell(n);
    }
    static void random() {
        uint64_t seed = rng.next() & 0xffffff;
        MTRand ra(seed), rb(seed);
        vk::about("make noise");
        P a(&ra), b(&rb), c(a), dflt;
        bool same = true, copy = true, unit = true;
        std::set<std::string> kinds;
        double most[N] = {}, least[N] = {};
        // (the whole table: few places would miss an entry)
        for (int i = 0; i < PERLIN_NUM_GRADIENTS; ++i) {
            double m = 0;
            for (int j = 0; j < N; ++j) {
                double v = at(a.gradients[i], j);
                m += v * v;
                most[j] = std::max(most[j], v); least[j] = std::min(least[j], v);
                same = same && v == at(b.gradients[i], j);
            }
            unit = unit && (N == 1 ? m <= 1.00001 : std::abs(m - 1) < 1e-4);
        }
        bool sides = true;
        for (int j = 0; j < N; ++j) sides = sides && most[j] > 0.5 && least[j] < -0.5;
        for (int i = 0; i < 300; ++i) {
            point_t p, q;
            for (int j = 0; j < N; ++j) {
                at(q, j) = rng.in(-1000, 1000);
                at(p, j) = at(q, j) + (T)(rng.in(0, 999) / 1000.0);
            }
            same = same && a.eval(p) == b.eval(p) && a.gradient(p) == b.gradient(p);
            copy = copy && a.eval(p) == c.eval(p);
            for (P* x : {&a, &dflt}) {
                dirty();
                point_t g = x->gradient(q).second;
                double m = 0;
                for (int j = 0; j < N; ++j) m += (double)at(g, j) * at(g, j);
                unit = unit && (N == 1 ? m <= 1.00001 : std::abs(m - 1) < 1e-4);
                if (x == &a) { std::ostringstream o; for (int j = 0; j < N; ++j) o << at(g, j) << ' '; kinds.insert(o.str()); }
            }
        }
        vk::Ev("Random").kv("n", N).kv("same", same).kv("copy", copy).kv("unit", unit).kv("sides", sides).kv("few", kinds.size() < 100).done();
    }
};

template <typename T, index_t N> void path() {
    Path<T, N> p;
    int n = rng.in(0, 4);
    std::string ks = "[";
    for (int i = 0; i < n; ++i) {
        Vec<T, N> a, b;
        std::vector<int> ia, ib;
        for (int j = 0; j < N; ++j) { ia.push_back(rng.in(-20, 20)); ib.push_back(rng.in(-9, 9)); a[j] = ia[j]; b[j] = ib[j]; }
        if (rng.chance(80)) p.appendKnot(a, b); else p.knots.push_back(Ray<T, N>(a, b));
        std::string u, v;
        vk::Ev::emit(u, ia); vk::Ev::emit(v, ib);
        ks += (i ? ",[" : "[") + u + "," + v + "]";
    }
    for (int i = 0; i < 12; ++i) {
        int t = rng.in(-9, 4 * n + 9);
        double scale = 4 * (t < 0 || (t / 4) >= n - 1 ? 1 : D(t));
        vk::about("path");
        Vec<T, N> v = p.eval((T)(t / 4.0));
        std::vector<long long> r;
        for (int j = 0; j < N; ++j) r.push_back(vk::exact(v[j], scale, 2e9));
        vk::Ev("Path").raw("ks", ks + "]").kv("t", t).kv("scale", (int)scale).kv("ret", r).done();
    }
}

int main(int argc, char** argv) {
    rng = vk::Rng(atoi(argv[1]));
    int reps = atoi(argv[2]);
    vk::open();
    for (int i = 0; i < reps; ++i) {
        ++vk::episode;
        Cells<double, 1>::go(20);
        Cells<double, 2>::go(25);
        Cells<double, 3>::go(20);
        Cells<double, 4>::go(5);
        Cells<float, 1>::go(10);
        Cells<float, 2>::go(10);
        if (i % 4 == 0) { Cells<double, 1>::random(); Cells<double, 2>::random(); Cells<float, 3>::random(); }
        for (int k = 0; k < 4; ++k) { path<double, 2>(); path<double, 3>(); path<float, 2>(); }
    }
    vk::close();
}
