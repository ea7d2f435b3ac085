// Draws from the generators, scripted and real, and samples of regions.
//   random SEED EPISODES LEN MODE     MODE: draw | mt | sample
#include "vk.h"
#include <functional>
#include <random>
#include <memory>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/random/SampleGeometry.h>
using namespace geom;
using vk::Ev;
typedef std::vector<int> Bytes;

template <typename U> static Bytes bytes(U v) {
    Bytes b;
    for (int i = sizeof(U) - 1; i >= 0; --i) b.push_back((int)((uint64_t)v >> (8 * i) & 255));
    return b;
}
static std::vector<uint32_t> drawn;

// the generator under test, with a record of the words it gives
template <typename G> struct Rec : G {
    using G::G;
    uint32_t rand32() override { uint32_t w = G::rand32(); drawn.push_back(w); return w; }
};
struct ScriptBase : Random {
    std::vector<uint32_t> todo;
    size_t at = 0;
    vk::Rng* g = nullptr;
    void rseed(uint64_t) override { _bitsleft = 0; }
    uint32_t rand32() override {
        if (at < todo.size()) return todo[at++];
        int r = g->in(0, 9);
        uint32_t w = (uint32_t)g->next();
        if (r == 0) return 0;
        if (r == 1) return 0xFFFFFFFFu;
        if (r == 2) return w & 0x1FF;
        if (r == 3) return w & (0xFFFFFFFFu << g->in(0, 31));
        return w;
    }
};
typedef Rec<ScriptBase> Script;

static void words(Ev& e) {
    std::vector<Bytes> ws;
    for (auto w : drawn) ws.push_back(bytes(w));
    e.kv("ws", ws);
    drawn.clear();
}

template <typename U> static void tries(Ev& e, U n) {
    // quotient and remainder of each candidate
    e.key("tries");
    e.s += "[";
    size_t per = sizeof(U) / 4;
    for (size_t i = 0; i + per <= drawn.size(); i += per) {
        U b = 0;
        for (size_t j = 0; j < per; ++j) b = (per == 1) ? (U)drawn[i] : (U)((uint64_t)b << 32 | drawn[i + j]);
        if (i) e.s += ",";
        e.s += "{\"q\":"; Ev::emit(e.s, bytes((U)(b / n))); e.s += ",\"r\":"; Ev::emit(e.s, bytes((U)(b % n))); e.s += "}";
    }
    e.s += "]";
}

// a size of range: small, near powers of two, or anything
template <typename U> static U size_of(vk::Rng& g) {
    const int W = sizeof(U) * 8;
    U n;
    switch (g.in(0, 6)) {
        case 0: n = g.in(1, 12); break;
        case 1: n = (U)1 << g.in(0, W - 1); break;
        case 2: n = ((U)1 << g.in(0, W - 1)) + g.in(0, 5) - 2; break;
        case 3: n = (U)0 - (U)g.in(1, 1000); break;
        case 4: n = (U)0 - (U)((uint64_t)g.next() >> g.in(0, W - 1)); break;
        default: n = (U)((uint64_t)g.next()) >> g.in(0, W - 1);
    }
    return n ? n : 1;
}
template <typename U> static void aim(Script* s, vk::Rng& g, U n) {
    // candidates about the multiples of n, the last ones most
    if (!s) return;
    s->todo.clear(); s->at = 0;
    int k = g.in(0, 3);
    for (int i = 0; i < k; ++i) {
        U top = (U)~(U)0 / n;
        U m = g.chance(60) ? top : (U)((uint64_t)g.next() % ((uint64_t)top + (top != (U)~(U)0)));
        U b = m * n + (U)(g.in(0, 4) - 2);
        if (g.chance(30)) b = (U)0 - (U)g.in(1, 3);
        if (sizeof(U) == 8) s->todo.push_back((uint32_t)((uint64_t)b >> 32));
        s->todo.push_back((uint32_t)b);
    }
}

template <typename U> static void range(Random& r, Script* s, vk::Rng& g, int how) {
    typedef typename std::make_signed<U>::type I;
    U n = size_of<U>(g);
    const U half = (U)1 << (sizeof(U) * 8 - 1);
    if (how == 1 && n >= half) n -= half;
    if (!n) n = 1;
    if (how >= 2 && std::is_same<U, unsigned long>::value) return;
    aim(s, g, n);
    vk::about("rand(range)");
    if (how == 0) {
        U v = r.rand<U>(n);
        Ev e("Range");
        e.kv("size", (int)sizeof(U)).kv("n", bytes(n)).kv("lo", bytes((U)0)).kv("down", false).kv("v", bytes(v));
        tries(e, n); words(e); e.done();
    } else if (how == 1) {
        bool neg = g.chance(50);
        I v = r.rand<I>(neg ? (I)-(I)n : (I)n);
        Ev e("Range");
        e.kv("size", (int)sizeof(U)).kv("n", bytes(n)).kv("lo", bytes((U)0)).kv("down", neg).kv("v", bytes((U)v));
        tries(e, n); words(e); e.done();
    } else {
        // lo < hi with hi - lo = n
        U room = (U)~(U)0 - n;            // places for lo above the least
        U off = room ? (U)((uint64_t)g.next() % ((uint64_t)room + (room != (U)~(U)0))) : 0;
        if (g.chance(30)) off = 0;
        if (g.chance(20)) off = room;
        if (g.chance(30) && n < half) off = half - n / 2;
        I lo = (I)(U)(off + half), hi = (I)(U)(off + half + n);
        I v;
        bool sw = g.chance(30);
        if constexpr (std::is_same<U, unsigned>::value) v = sw ? r.rand<int>(hi, lo) : r.rand<int>(lo, hi);
        else v = sw ? r.rand<long long>(hi, lo) : r.rand<long long>(lo, hi);
        Ev e("Range");
        e.kv("size", (int)sizeof(U)).kv("n", bytes(n)).kv("lo", bytes((U)lo)).kv("hi", bytes((U)hi)).kv("down", false).kv("v", bytes((U)v));
        tries(e, n); words(e); e.done();
    }
}

template <typename F, typename U> static Bytes raw(F f) { U u; memcpy(&u, &f, sizeof u); return bytes(u); }

// reals drawn in a range: the same words give the plain real
template <typename F> struct Replay : Random {
    std::vector<uint32_t> ws; size_t at = 0;
    void rseed(uint64_t) override {}
    uint32_t rand32() override { return at < ws.size() ? ws[at++] : 0; }
    void pool(Random& r) { Random& me = *this; me = r; }
};
struct Peek : Random { static void copy(Random& dst, const Random& src) { (dst.*(&Peek::_bitpool)) = (src.*(&Peek::_bitpool)); (dst.*(&Peek::_bitsleft)) = (src.*(&Peek::_bitsleft)); } };

template <typename F, typename U> static void scaled(Random& r, vk::Rng& g) {
    int lo = g.in(-20, 20), hi = g.in(-20, 20);
    if (hi < lo) std::swap(lo, hi);
    int how = g.in(0, 2);
    Replay<F> again;
    Peek::copy(again, r);
    vk::about("rand(real range)");
    F v;
    if (how == 0) { lo = 0; hi = std::abs(hi); v = r.rand<F>((F)hi); }
    else if (how == 1) { lo = -std::abs(lo); hi = 0; v = r.rand<F>((F)lo); }
    else v = r.rand<F>((F)lo, (F)hi);
    again.ws = drawn;
    F x = again.template rand<F>();
    if (how == 1) { v = lo - v; }   // measured from the lower end
    Ev e("Scaled");
    e.kv("size", (int)sizeof(F)).kv("lo", lo).kv("hi", hi).kv("v", vk::fixed(v, 4096, 1e6)).kv("r", raw<F, U>(x)).kv("r12", vk::fixed(x, 65536, 1e6));
    words(e); e.done();
}

static void permutations(vk::Rng& g) {
    int n = g.in(1, 5);
    bool vec = g.chance(50);
    std::vector<int> c(n, 0);
    std::vector<std::vector<int>> res;
    while (true) {
        Script s;
        s.g = &g;
        for (int x : c) { s.todo.push_back(0); s.todo.push_back(x); }
        std::vector<int> v;
        for (int i = 1; i <= n; ++i) v.push_back(i);
        vk::about("permute");
        if (vec) permute(v, s); else permute(v.data(), (size_t)n, s);
        res.push_back(v);
        int i = 0;
        while (i < n && ++c[i] > n - 1 - i) c[i++] = 0;
        if (i == n) break;
    }
    drawn.clear();
    Ev e("Perms");
    e.kv("n", n).kv("res", res);
    e.done();
}

static uint64_t seed_of(vk::Rng& g) {
    switch (g.in(0, 3)) { case 0: return g.in(0, 3); case 1: return ~(uint64_t)g.in(0, 3); case 2: return (uint64_t)g.next() << 32; default: return g.next(); }
}
static void seeded(const char* gen, const Bytes& seed, bool first) {
    Ev e("Seed");
    e.kv("gen", gen).kv("seed", seed).kv("first", first);
    e.done();
}
static Bytes ent(const uint64_t* x) { Bytes b; for (int i = 0; i < 4; ++i) for (int y : bytes(x[i])) b.push_back(y); return b; }

static void history(vk::Rng& g, int kind, int len) {
    ++vk::episode;
    drawn.clear();
    std::unique_ptr<Random> r;
    Script* s = nullptr;
    const char* gen = "SCRIPT";
    uint64_t seed = seed_of(g);
    uint64_t en[4] = {seed_of(g), (uint64_t)g.next(), seed_of(g), seed_of(g)};
    Bytes sb = bytes(seed);
    if (kind == 0) { s = new Script; s->g = &g; r.reset(s); }
    else if (kind == 1) { gen = "LC"; r.reset(new Rec<LCRand>(seed)); }
    else if (kind == 2) { gen = "MT"; r.reset(new Rec<MTRand>(seed)); }
    else if (kind == 3) { gen = "XO"; r.reset(new Rec<XoshiroRand>(seed)); }
    else { const uint64_t* ce = en; gen = "XOE"; sb = ent(en); r.reset(new Rec<XoshiroRand>(ce)); }
    seeded(gen, sb, true);
    for (int i = 0; i < len; ++i) {
        int op = g.in(0, 24);
        if (s) { s->todo.clear(); s->at = 0; }
        vk::about("rand");
        if (op < 3) {
            // bursts carry the larger generators past several rounds of their state
            if (kind == 2 && g.chance(40)) {
                std::vector<Bytes> vs;
                for (int k = g.in(20, 120); k > 0; --k) vs.push_back(bytes(r->rand32()));
                Ev e("Words"); e.kv("v", vs); words(e); e.done();
                continue;
            }
            uint32_t v = r->rand32();
            Ev e("Word"); e.kv("v", bytes(v)); words(e); e.done();
        } else if (op < 7) {
            std::vector<bool> v;
            int k = g.in(1, 40);
            while (k--) v.push_back(r->rand<bool>());
            Ev e("Coins"); e.kv("v", v); words(e); e.done();
        } else if (op < 9) {
            int h = g.in(0, 5);
            Bytes v;
            switch (h) {
                case 0: v = bytes(r->rand<unsigned>()); break;
                case 1: v = bytes((unsigned)r->rand<int>()); break;
                case 2: v = bytes(r->rand<unsigned long>()); break;
                case 3: v = bytes((unsigned long)r->rand<long>()); break;
                case 4: v = bytes(r->rand<unsigned long long>()); break;
                default: v = bytes((unsigned long long)r->rand<long long>());
            }
            Ev e("Any"); e.kv("size", (int)v.size()).kv("v", v); words(e); e.done();
        } else if (op < 14) {
            int how = g.in(0, 2);
            switch (g.in(0, 2)) {
                case 0: range<unsigned>(*r, s, g, how); break;
                case 1: range<unsigned long>(*r, s, g, how); break;
                default: range<unsigned long long>(*r, s, g, how);
            }
        } else if (op < 17) {
            if (s && g.chance(20)) { s->todo.assign(g.in(1, 5), 0); if (g.chance(50)) s->todo.push_back(1u << g.in(0, 31)); }
            float v = r->rand<float>();
            Ev e("Float"); e.kv("v", raw<float, uint32_t>(v)); words(e); e.done();
        } else if (op < 20) {
            if (s && g.chance(20)) { s->todo.assign(g.in(1, 40), 0); if (g.chance(50)) s->todo.push_back(1u << g.in(0, 31)); }
            double v = r->rand<double>();
            Ev e("Double"); e.kv("v", raw<double, uint64_t>(v)); words(e); e.done();
        } else if (op < 22) {
            if (g.chance(50)) scaled<float, uint32_t>(*r, g); else scaled<double, uint64_t>(*r, g);
        } else if (op == 22) {
            if (kind == 0) permutations(g);
        } else if (op == 23 && !s && g.chance(kind == 2 ? 1 : 60)) {
            vk::about("rseed");
            uint64_t x = g.chance(40) ? seed : seed_of(g);
            if (kind == 4 && g.chance(50)) {
                const uint64_t* ce = en;
                ((Rec<XoshiroRand>*)r.get())->seed(ce);
                seeded("XOE", ent(en), false);
            } else {
                r->rseed(x);
                seeded(kind == 4 ? "XO" : gen, bytes(x), false);
            }
        }
    }
}

// ---- samples of regions ----
struct Sample {
    Ev e;
    std::vector<std::vector<int>> hist;
    std::vector<std::vector<long>> ends;
    int bins;
    Sample(const std::string& name, int nc, int bins = 8) : e("Sample"), hist(nc, std::vector<int>(bins, 0)), ends(nc, {1000000, 0}), bins(bins) { e.kv("name", name); }
    // u should be even over [0,1]
    void add(int c, double u) {
        long m = (long)std::floor(u * 1e6 + 0.5);
        if (!(u > -100 && u < 100)) { vk::odd_number = true; return; }
        ends[c][0] = std::min(ends[c][0], m);
        ends[c][1] = std::max(ends[c][1], m);
        int b = (int)std::floor(u * bins);
        hist[c][std::max(0, std::min(bins - 1, b))]++;
    }
    void done(long tol) { e.kv("hist", hist).kv("ends", ends).kv("tol", tol); e.done(); }
};
// coordinates, even if v is spread evenly over the unit sphere
template <typename T, index_t N> static void sphere_cells(Sample& s, int c, const Vec<T,N>& v) {
    if (N == 2) s.add(c, (std::atan2((double)v[1], (double)v[0]) / M_PI + 1) / 2);
    else if (N == 3) { s.add(c, ((double)v[2] + 1) / 2); s.add(c + 1, (std::atan2((double)v[1], (double)v[0]) / M_PI + 1) / 2); }
    else { int o = 0; for (int i = 0; i < 3; ++i) o += (v[i] > 0) << i; s.add(c, (o + .5) / 8); }
}
template <index_t N> static int ncells() { return N == 3 ? 2 : 1; }

template <typename T, index_t N> static void sample(vk::Rng& g, const char* t) {
    XoshiroRand r((uint64_t)g.next());
    Sampler<T> sm(&r);
    const int K = 3000;
    const long tol = sizeof(T) == 4 ? 20 : 2;
    std::string nm = std::string(t) + std::to_string((int)N);
    T R = g.in(1, 40) / (T)8, R1 = R + g.in(1, 20) / (T)8;
    double q = std::pow((double)R / R1, (int)N);
    vk::about("sample");
    {
        Sample s("unit" + nm, 1 + ncells<N>());
        for (int i = 0; i < K; ++i) { bool k = i % 2; auto v = k ? sm.template unit<N>() : sm.template unit<N>(R) / R; s.add(0, (v.mag() - 1) * 100 + (i % 8 + .5) / 8); sphere_cells<T,N>(s, 1, v); }
        s.done(100 * tol);
    }
    for (int k = 0; k < 2; ++k) {
        Sample s("ball" + nm, 1 + ncells<N>());
        for (int i = 0; i < K; ++i) { auto v = k ? sm.template solidball<N>() : sm.template solidball<N>(R) / R; s.add(0, std::pow((double)v.mag(), (int)N)); sphere_cells<T,N>(s, 1, v.unit()); }
        s.done(tol);
    }
    {
        Sample s("shell" + nm, 1 + ncells<N>());
        for (int i = 0; i < K; ++i) { auto v = sm.template shell<N>(R, R1); s.add(0, (std::pow((double)v.mag() / R1, (int)N) - q) / (1 - q)); sphere_cells<T,N>(s, 1, v.unit()); }
        s.done(tol * 200);
    }
    Vec<T,N> lo, hi;
    for (int i = 0; i < N; ++i) { lo[i] = g.in(-40, 40) / (T)8; hi[i] = lo[i] + g.in(1, 40) / (T)8; }
    for (int k = 0; k < 4; ++k) {
        if (k == 3 && N > 3) break;
        Sample s("box" + nm, N);
        for (int i = 0; i < K; ++i) {
            Vec<T,N> v;
            Vec<double,N> l, h;
            for (int j = 0; j < N; ++j) { l[j] = k ? lo[j] : 0; h[j] = k ? hi[j] : 1; }
            if (k == 0) v = sm.template box<N>();
            else if (k == 1) v = sm.template box<N>(lo, hi);
            else if (k == 2) v = sm.template box<N>(Rect<T,N>(lo, hi));
            else if constexpr (N == 2) v = sm.box(lo[0], lo[1], hi[0], hi[1]);
            else if constexpr (N == 3) v = sm.box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
            for (int j = 0; j < N; ++j) s.add(j, (v[j] - l[j]) / (h[j] - l[j]));
        }
        s.done(tol);
    }
    if constexpr (N == 2) {
        T a = g.in(-30, 10) / (T)10, b = a + g.in(1, 30) / (T)10;
        for (int k = 0; k < 4; ++k) {
            Sample s("disk" + nm, 2);
            for (int i = 0; i < K; ++i) {
                if (k < 2) {
                    auto v = k ? sm.disk(R) / R : sm.disk();
                    s.add(0, v.mag2()); sphere_cells<T,2>(s, 1, v.unit());
                } else {
                    auto v = k == 2 ? sm.arc(a, b) : sm.solidarc(a, b, R, R1);
                    double t = std::atan2((double)v[1], (double)v[0]);
                    while (t < a - .001) t += 2 * M_PI;
                    while (t > b + .001) t -= 2 * M_PI;
                    s.add(0, (t - a) / (b - a));
                    s.add(1, k == 2 ? (v.mag() - 1) * 100 + (i % 8 + .5) / 8 : (v.mag2() / R1 / R1 - q) / (1 - q));
                }
            }
            s.done(tol * 200);
        }
    }
    if constexpr (N == 3) {
        T ang = g.in(2, 30) / (T)10;
        for (int k = 0; k < 5; ++k) {
            Vec<T,3> d;
            do for (int i = 0; i < 3; ++i) d[i] = g.in(-3, 3); while (d.mag2() == 0);
            if (k == 0 || g.chance(30)) d = Vec<T,3>(0, 0, g.chance(60) ? -2 : 1);
            Vec<T,3> u = d.unit();
            Vec<T,3> x = std::abs(u[0]) < 0.6 ? Vec<T,3>(1, 0, 0) : Vec<T,3>(0, 1, 0);
            x = (x - u * x.dot(u)).unit();
            Vec<T,3> y = u.cross(x);
            double ca = std::cos((double)ang);
            Sample s("cap" + nm, k == 4 ? 3 : 3);
            for (int i = 0; i < K; ++i) {
                if (k < 4) {
                    Vec<T,3> v;
                    double r3;
                    if (k == 1) { u = Vec<T,3>(0, 0, 1); x = Vec<T,3>(1, 0, 0); y = Vec<T,3>(0, 1, 0); v = sm.cap(ang); }
                    else if (k == 0 || k == 2) v = sm.cap(d, ang);
                    else v = sm.solidcap(d, ang, R, R1);
                    if (k < 3) r3 = (v.mag() - 1) * 100 + (i % 8 + .5) / 8;
                    else { r3 = (std::pow((double)v.mag() / R1, 3) - q) / (1 - q); v = v.unit(); }
                    s.add(0, r3);
                    s.add(1, (v.dot(u) - ca) / (1 - ca));
                    s.add(2, (std::atan2((double)v.dot(y), (double)v.dot(x)) / M_PI + 1) / 2);
                } else {
                    auto v = sm.oriented_disk(d, R) / R;
                    s.add(0, v.dot(u) + (i % 8 + .5) / 8);
                    s.add(1, v.mag2());
                    s.add(2, (std::atan2((double)v.dot(y), (double)v.dot(x)) / M_PI + 1) / 2);
                }
            }
            s.done(tol * 3000);
        }
    }
    // distributions over shapes
    std::mt19937 std_rng((unsigned)g.next());
    {
        Rect<T,N> box(lo, hi);
        SampleShape<Rect<T,N>> d(box);
        Sample s("rect" + nm, N);
        for (int i = 0; i < K; ++i) { auto v = d(std_rng); for (int j = 0; j < N; ++j) s.add(j, (v[j] - lo[j]) / (double)(hi[j] - lo[j])); }
        s.done(tol);
    }
    {
        SampleShape<Sphere<T,N>> d(Sphere<T,N>(lo, R));
        Sample s("sphere" + nm, 1 + ncells<N>());
        for (int i = 0; i < K; ++i) { Vec<T,N> v = (d(std_rng) - lo) / R; s.add(0, std::pow((double)v.mag(), (int)N)); sphere_cells<T,N>(s, 1, v.unit()); }
        s.done(tol * 50);
    }
    {
        Simplex<T,N> x;
        x |= lo;
        for (int i = 0; i < N; ++i) { Vec<T,N> p = lo; p[i] += hi[i] - lo[i]; x |= p; }
        SampleShape<Simplex<T,N>> d(x);
        Sample s("simplex" + nm, N + 1);
        for (int i = 0; i < K; ++i) {
            auto v = d(std_rng);
            double rest = 1;
            for (int j = 0; j < N; ++j) { double b = (v[j] - lo[j]) / (double)(hi[j] - lo[j]); rest -= b; s.add(j, 1 - std::pow(std::max(0., 1 - b), (int)N)); if (b < -1e-5) vk::odd_number = true; }
            s.add(N, 1 - std::pow(std::max(0., 1 - rest), (int)N));
            if (rest < -1e-4) vk::odd_number = true;
        }
        s.done(tol * 200);
    }
}
static void reals(vk::Rng& g) {
    XoshiroRand r((uint64_t)g.next());
    Sample s("reals", 4);
    for (int i = 0; i < 4000; ++i) { s.add(0, r.rand<float>()); s.add(1, r.rand<double>()); s.add(2, (r.rand<int>(-8, 8) + 8.5) / 16); s.add(3, (r.rand<unsigned>(8) + .5) / 8); }
    s.done(0);
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    int eps = atoi(argv[2]), len = atoi(argv[3]);
    std::string mode = argv[4];
    for (int i = 0; i < eps; ++i) {
        if (mode == "draw") { int k[] = {0, 0, 0, 1, 3, 4}; history(g, k[i % 6], len); }
        else if (mode == "mt") history(g, 2, len);
        else {
            ++vk::episode;
            seeded("SCRIPT", bytes((uint64_t)0), true);
            switch (i % 6) {
                case 0: sample<float, 2>(g, "f"); break;
                case 1: sample<double, 2>(g, "d"); break;
                case 2: sample<float, 3>(g, "f"); break;
                case 3: sample<double, 3>(g, "d"); break;
                case 4: sample<double, 4>(g, "d"); break;
                case 5: reals(g); break;
            }
        }
    }
    vk::close();
}
