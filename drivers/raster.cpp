// Histories of writes and samples on rasters of several dimensions and types.
#include "vk.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/function/Raster.h>
#include <memory>
using namespace geom;
typedef std::vector<int> VI;

static vk::Rng rng(1);
static const char* EDGE[] = {"clamp", "periodic", "mirror", "constant"};
static constexpr EdgeBehavior EB[] = {EDGE_CLAMP, EDGE_PERIODIC, EDGE_MIRROR, EDGE_CONSTANT};
static const char* INTERP[] = {"nearest", "linear", "cubic"};
static constexpr Interpolation IB[] = {INTERP_NEAREST, INTERP_LINEAR, INTERP_CUBIC};
static const int Q = 64; // sampling coordinates are multiples of 1/Q

template <typename T, index_t M> typename PointType<T, M>::point_t point(const std::vector<double>& v) {
    typename PointType<T, M>::point_t p;
    T* it = PointType<T, M>::iterator(p);
    for (index_t i = 0; i < M; ++i) it[i] = (T)v[i];
    return p;
}
template <typename T, index_t M> typename PointType<T, M>::point_t point(const VI& v) {
    return point<T, M>(std::vector<double>(v.begin(), v.end()));
}

template <typename I, typename O, index_t M, index_t N>
struct Run {
    typedef Raster<I, O, M, N> R;
    typedef typename R::sample_t sample_t;
    typedef typename R::coord_t  coord_t;
    typedef typename R::grid_t   grid_t;

    std::unique_ptr<R> r;
    VI ext, lo, hi;

    // an integer number of 1/unit's, but for roundoff
    static constexpr double slack = sizeof(I) == 4 || sizeof(O) == 4 ? 0.1 : 1e-3;
    static long long units(double v, double unit) {
        double x = v * unit, n = std::round(x);
        if (!(std::abs(x) < 2e9) || std::abs(x - n) > slack) { vk::odd_number = true; return 0; }
        return (long long)n;
    }
    static std::vector<long long> seen(const sample_t& s, double unit = 1) {
        std::vector<long long> v;
        const O* it = PointType<O, N>::iterator(s);
        for (index_t i = 0; i < N; ++i) v.push_back(units(it[i], unit));
        return v;
    }
    template <typename P> static std::vector<long long> seen_pt(const P& p) {
        std::vector<long long> v;
        const index_t* it = PointType<index_t, M>::iterator(p);
        for (index_t i = 0; i < M; ++i) v.push_back(it[i]);
        return v;
    }

    VI value() { VI v; for (index_t i = 0; i < N; ++i) v.push_back(rng.in(-8, 8)); return v; }
    VI spot(int past) {
        VI p;
        for (index_t i = 0; i < M; ++i) p.push_back(rng.chance(60) ? rng.in(0, ext[i] - 1) : rng.in(-past * ext[i] - 1, past * ext[i] + 1));
        return p;
    }

    template <int E> sample_t fixed_sample(const coord_t& x, int i) {
        switch (i) {
            case 0:  return r->template sample<EB[E], INTERP_NEAREST>(x);
            case 1:  return r->template sample<EB[E], INTERP_LINEAR>(x);
            default: return r->template sample<EB[E], INTERP_CUBIC>(x);
        }
    }

    void create() {
        int how = rng.in(0, 3);
        ext.clear(); lo.clear(); hi.clear();
        size_t n = N;
        for (index_t i = 0; i < M; ++i) {
            ext.push_back(rng.chance(12) ? 1 : rng.in(2, M == 1 ? 9 : M == 2 ? 5 : M == 3 ? 4 : 3));
            n *= ext[i];
            int a = rng.in(-3, 3);
            lo.push_back(a);
            hi.push_back(ext[i] == 1 && rng.chance(70) ? a : a + rng.in(1, 8));
        }
        std::vector<int> data;
        std::vector<O> src;
        for (size_t i = 0; i < n; ++i) { data.push_back(rng.in(-8, 8)); src.push_back((O)data.back()); }
        grid_t g = point<index_t, M>(ext);
        Rect<I, M> dom(point<I, M>(lo), point<I, M>(hi));
        vk::Ev e("New");
        vk::about("Raster()");
        switch (how) {
            case 0:  r.reset(new R(g)); break;
            case 1:  r.reset(new R(g, dom)); break;
            case 2:  r.reset(new R(g, src.data())); break;
            default: r.reset(new R(g, src.data(), dom)); break;
        }
        if (how % 2 == 0) for (index_t i = 0; i < M; ++i) { lo[i] = 0; hi[i] = ext[i] - 1; }
        std::vector<long long> dl, dh;
        Rect<I, M> seen_dom = r->domain();
        for (index_t i = 0; i < M; ++i) {
            dl.push_back(vk::exact(PointType<I, M>::iterator((const coord_t&)seen_dom.lo)[i]));
            dh.push_back(vk::exact(PointType<I, M>::iterator((const coord_t&)seen_dom.hi)[i]));
        }
        e.kv("n", (int)N).kv("ext", ext).kv("lo", lo).kv("hi", hi).kv("filled", how >= 2).kv("data", how >= 2 ? data : std::vector<int>());
        e.kv("gext", seen_pt(r->dataExtents())).kv("glo", dl).kv("ghi", dh);
        e.kv("count", r->samplecount()).kv("m", r->inputDimension()).kv("nn", r->outputDimension()).done();
    }

    void step() {
        int k = rng.in(0, 99);
        int e = rng.in(0, 3), i = rng.in(0, 2);
        bool dyn = rng.chance(40);
        if (k < 14) {
            VI p = spot(1), v = value();
            vk::about("set");
            r->set(point<index_t, M>(p), point<O, N>(v));
            vk::Ev("Set").kv("at", p).kv("v", v).done();
        } else if (k < 17) {
            VI v = value();
            r->setAbyss(point<O, N>(v));
            vk::Ev("Abyss").kv("v", v).done();
        } else if (k < 21) {
            VI p = spot(1);
            vk::Ev("Contains").kv("at", p).kv("ret", r->contains_gridpt(point<index_t, M>(p))).done();
        } else if (k < 40) {
            VI p = spot(3);
            grid_t g = point<index_t, M>(p);
            vk::about(std::string("sample_discrete ") + EDGE[e]);
            sample_t s;
            if (dyn) s = r->sample_discrete(g, EB[e]);
            else switch (e) {
                case 0:  s = r->template sample_discrete<EDGE_CLAMP>(g); break;
                case 1:  s = r->template sample_discrete<EDGE_PERIODIC>(g); break;
                case 2:  s = r->template sample_discrete<EDGE_MIRROR>(g); break;
                default: s = r->template sample_discrete<EDGE_CONSTANT>(g); break;
            }
            vk::Ev("Discrete").kv("at", p).kv("edge", EDGE[e]).kv("dyn", dyn).kv("ret", seen(s)).done();
        } else if (k < 47) {
            VI a = spot(1), b;
            size_t n = 1;
            for (index_t j = 0; j < M; ++j) { int w = rng.in(1, 3); b.push_back(a[j] + w - 1); n *= w; }
            Rect<index_t, M> box(point<index_t, M>(a), point<index_t, M>(b));
            // a guard past the end
            std::vector<sample_t> buf(n + 1, point<O, N>(VI(N, 77)));
            vk::about(std::string("copy ") + EDGE[e]);
            if (dyn) r->copy(buf.data(), box, EB[e]);
            else switch (e) {
                case 0:  r->template copy<EDGE_CLAMP>(buf.data(), box); break;
                case 1:  r->template copy<EDGE_PERIODIC>(buf.data(), box); break;
                case 2:  r->template copy<EDGE_MIRROR>(buf.data(), box); break;
                default: r->template copy<EDGE_CONSTANT>(buf.data(), box); break;
            }
            std::vector<std::vector<long long>> out;
            for (auto& s : buf) out.push_back(seen(s));
            vk::Ev("Copy").kv("lo", a).kv("hi", b).kv("edge", EDGE[e]).kv("dyn", dyn).kv("ret", out).done();
        } else {
            // choose a place whose grid coordinates are k/d with small d
            VI x, ks, ds;
            double unit = 1;
            for (index_t j = 0; j < M; ++j) {
                int len = hi[j] - lo[j], c, kk, dd;
                int most = M < 3 || j == 0 || i < 2 ? 4 : j < 3 ? 2 : 1;
                do {
                    // in 1/16ths, within and around the domain
                    c = (len ? rng.in(-len, 2 * len) : rng.in(-2, 2)) * 16 + (rng.chance(75) ? rng.in(0, 16) : 0);
                    long num = len ? (long)c * (ext[j] - 1) : c, den = len ? 16L * len : 16;
                    long a = std::labs(num), b = den;
                    while (b) { long t = a % b; a = b; b = t; }
                    kk = num / a; dd = den / a;
                } while (dd > most || (i == 0 && dd == 2 && (ext[j] - 1) % 3 == 0) || (i == 0 && dd == 2 && len % 3 == 0)
                         || (i == 0 && dd == 2 && len % 5 == 0) || (i == 0 && dd == 2 && len % 7 == 0) || (i == 0 && dd == 2 && (ext[j] - 1) % 5 == 0)
                         || (i == 0 && dd == 2 && (ext[j] - 1) % 7 == 0));
                x.push_back(Q * lo[j] + c * (Q / 16)); ks.push_back(kk); ds.push_back(dd);
                unit *= i == 0 ? 1 : i == 1 ? dd : 2 * dd * dd * dd;
            }
            std::vector<double> xd;
            for (int v : x) xd.push_back(v / (double)Q);
            coord_t pt = point<I, M>(xd);
            vk::about(std::string("sample ") + EDGE[e] + " " + INTERP[i] + (dyn ? " run-time" : ""));
            sample_t s;
            if (dyn) s = e == 0 && i == 1 && rng.chance(50) ? r->sample(pt) : r->sample(pt, EB[e], IB[i]);
            else switch (e) {
                case 0:  s = fixed_sample<0>(pt, i); break;
                case 1:  s = fixed_sample<1>(pt, i); break;
                case 2:  s = fixed_sample<2>(pt, i); break;
                default: s = fixed_sample<3>(pt, i); break;
            }
            vk::Ev("Sample").kv("x", x).kv("k", ks).kv("d", ds).kv("edge", EDGE[e]).kv("interp", INTERP[i]).kv("dyn", dyn).kv("ret", seen(s, unit)).done();
        }
    }

    void go(int steps) {
        vk::Ev("Reset").done();
        create();
        for (int i = 0; i < steps; ++i) step();
    }
};

int main(int argc, char** argv) {
    rng = vk::Rng(atoi(argv[1]));
    int reps = atoi(argv[2]);
    vk::open();
    for (int i = 0; i < reps; ++i) {
        ++vk::episode;
        switch (i % 8) {
            case 0: { Run<double, double, 1, 1> x; x.go(40); break; }
            case 1: { Run<double, float,  1, 3> x; x.go(40); break; }
            case 2: { Run<double, double, 2, 1> x; x.go(40); break; }
            case 3: { Run<double, float,  2, 3> x; x.go(40); break; }
            case 4: { Run<float,  double, 2, 2> x; x.go(40); break; }
            case 5: { Run<double, double, 3, 2> x; x.go(25); break; }
            case 7: { Run<double, double, 4, 1> x; x.go(15); break; }
            case 6: { Run<double, double, 3, 1> x; x.go(25); break; }
        }
    }
    vk::close();
}
