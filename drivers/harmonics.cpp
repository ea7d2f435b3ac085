// Polynomials and spherical harmonics at arguments where their values are fractions.
#include "vk.h"
#include <geomc/linalg/Quaternion.h>
#include <geomc/function/SphericalHarmonics.h>
using namespace geom;
typedef std::vector<int> VI;
typedef std::vector<long long> VL;
static vk::Rng rng(1);
static const double kPi = 3.14159265358979323846;

/// an integer, but for rounding
static long long near(double v, double scale = 1) {
    double x = v * scale;
    if (!(std::abs(x) < 2.1e9)) { vk::odd_number = true; return 0; }
    double r = std::round(x);
    if (std::abs(x - r) > 5e-3) vk::odd_number = true;
    return (long long)r;
}
static double fact(int n) { return n <= 1 ? 1 : n * fact(n - 1); }
static double power(double b, int n) { return n <= 0 ? 1 : b * power(b, n - 1); }

struct Dir { int d[3], q; };
static Dir direction(int most) {
    static const int base[][4] = {{0, 0, 1, 1}, {0, 0, 1, 1}, {1, 2, 2, 3}, {0, 3, 4, 5}, {2, 3, 6, 7}, {1, 4, 8, 9}, {4, 4, 7, 9}, {0, 3, 4, 5}};
    const int* b;
    do b = base[rng.in(0, 7)]; while (b[3] > most);
    int p[3] = {0, 1, 2};
    std::swap(p[0], p[rng.in(0, 2)]); std::swap(p[1], p[rng.in(1, 2)]);
    Dir r;
    for (int i = 0; i < 3; ++i) r.d[i] = b[p[i]] * (rng.chance(50) ? -1 : 1);
    r.q = b[3];
    return r;
}
static Vec<double, 3> vec(const Dir& d, double k = 1) { return Vec<double, 3>(d.d[0] * k, d.d[1] * k, d.d[2] * k); }
static VI list(const Dir& d) { return {d.d[0], d.d[1], d.d[2]}; }
static int bandsFor(int q) { return q == 1 ? 8 : q <= 3 ? 6 : q <= 7 ? 5 : 4; }

static void polys() {
    int q = rng.in(1, 9), p = rng.in(-q, q), n = rng.in(0, bandsFor(q));
    double x = p / (double)q, s = power(2 * q, n);
    vk::about("legendre");
    vk::Ev("Leg").kv("n", n).kv("p", p).kv("q", q).kv("ret", near(legendre<double>(n, x), s)).kv("ret2", near(legendre<double>(n, 0, x), s)).done();
    int nn = std::min(n, bandsFor(q) - 1);
    vk::Ev("Int").kv("n", nn).kv("p", p).kv("q", q).kv("ret", near(legendre_integral<double>(nn, x), (2 * nn + 1) * power(2 * q, nn + 1))).done();
    int k = rng.in(1, 2);
    // arguments outside of [-1, 1] too
    int pp = rng.in(-12, 12), qq = rng.in(1, 6), c = rng.in(0, 6);
    vk::Ev("Cheb").kv("kind", k).kv("n", c).kv("p", pp).kv("q", qq).kv("ret", near(chebyshev<double>(k, c, pp / (double)qq), power(qq, c))).done();
    static const int trip[][3] = {{0, 1, 1}, {1, 0, 1}, {3, 4, 5}, {4, 3, 5}, {-3, 4, 5}, {-4, 3, 5}, {-1, 0, 1}};
    const int* t = trip[rng.in(0, 6)];
    int l = rng.in(0, bandsFor(t[2])), m = rng.in(0, l);
    vk::Ev("LegA").kv("n", l).kv("m", m).kv("p", t[0]).kv("s", t[1]).kv("q", t[2]).kv("ret", near(legendre<double>(l, m, t[0] / (double)t[2]), power(2 * t[2], l))).done();
}

template <index_t B> void column() {
    static const int trip[][3] = {{0, 1, 1}, {1, 0, 1}, {3, 4, 5}, {4, 3, 5}, {-3, 4, 5}};
    const int* t = trip[rng.in(0, 4)];
    index_t b = B ? B : rng.in(1, bandsFor(t[2]));
    SphericalHarmonics<double, B> sh(b);
    for (index_t i = 0; i < sh.size(); ++i) sh.coeffs[i] = 77;
    int m = rng.in(0, (int)b - 1);
    vk::about("legendre column");
    legendre(&sh, (index_t)m, t[0] / (double)t[2]);
    VL r, n;
    bool rest = true;
    for (int l = 0; l < b; ++l)
        for (int k = -l; k <= l; ++k) {
            if (k == m) r.push_back(near(sh.coeff(l, k), power(2 * t[2], l)));
            if (k == -m) n.push_back(near(sh.coeff(l, k), power(2 * t[2], l)));
            if (k != m && k != -m && sh.coeff(l, k) != 77) rest = false;
        }
    vk::Ev("Column").kv("b", (int)b).kv("m", m).kv("p", t[0]).kv("s", t[1]).kv("q", t[2]).kv("ret", r).kv("neg", n).kv("rest", rest).done();
}

template <index_t B> void harmonic() {
    typedef SphericalHarmonics<double, B> SH;
    Dir d = direction(9);
    int l = rng.in(0, B ? B - 1 : bandsFor(d.q)), m = rng.in(-l, l), a = std::abs(m);
    if (l > bandsFor(d.q)) return;
    index_t b = B ? B : l + rng.in(1, 3);
    double scale = std::sqrt(fact(l + a) / fact(l - a) / (m ? 2 : 1) * 4 * kPi / (2 * l + 1)) * power(2 * d.q, l);
    double z = d.d[2] / (double)d.q, alt = std::acos(z), azi = std::atan2(d.d[1], d.d[0]);
    double k = rng.chance(50) ? 1 : rng.in(1, 9) / 4.0;
    VL w;
    vk::about("harmonics");
    w.push_back(near(spherical_harmonic_coeff<double>(l, m, z, azi), scale));
    w.push_back(near(SH::basis(vec(d, k), b).coeff(l, m), scale));
    SH one(b);
    one.coeff(l, m) = 1;
    w.push_back(near(one.eval(vec(d, k)), scale));
    w.push_back(near(one.eval(alt, azi), scale));
    SH sum(b);
    Dir o = direction(9);
    sum.project(vec(o), 2.0);
    double before = sum.coeff(l, m);
    sum.project(vec(d, k), 3.0);
    w.push_back(near((sum.coeff(l, m) - before) / 3, scale));
    before = sum.coeff(l, m);
    sum.project(alt, azi, -0.5);
    w.push_back(near((sum.coeff(l, m) - before) / -0.5, scale));
    vk::Ev("Y").kv("b", (int)B).kv("n", l).kv("m", m).kv("d", list(d)).kv("q", d.q).kv("ways", w).done();
}

template <index_t ZB, index_t SB> void zonal() {
    typedef ZonalHarmonics<double, ZB> ZH;
    typedef SphericalHarmonics<double, SB> SH;
    // a direction seen from an axis
    Dir a = direction(9), d = direction(9 / a.q);
    int q = a.q * d.q;
    index_t n = ZB ? ZB : rng.in(1, std::min(6, bandsFor(q)));
    ZH zh(n);
    VI c;
    for (int i = 0; i < n; ++i) { c.push_back(rng.in(-9, 9)); zh.coeff(i) = c.back(); }
    // what a representation with fewer bands holds
    VI cut = c;
    index_t kept = SB ? std::min(SB, n) : n;
    cut.resize(kept);
    vk::about("zonal harmonics");
    {
        double s = power(2 * d.q, n - 1);
        double z = d.d[2] / (double)d.q;
        vk::Ev("Zonal").kv("c", c).kv("p", d.d[2]).kv("q", d.q).kv("ways", VL{near(zh.eval(z), s)}).done();
        vk::about("spherical from zonal harmonics");
        SH sh(zh);
        s = power(2 * d.q, kept - 1);
        vk::Ev("Zonal").kv("c", cut).kv("p", d.d[2]).kv("q", d.q).kv("ways", VL{near(sh.eval(vec(d)), s)}).done();
        vk::about("spherical harmonics along an axis");
        SH turned(zh, vec(a, rng.chance(50) ? 1 : 0.5));
        vk::Ev("Turned").kv("c", cut).kv("d", list(a)).kv("e", list(d)).kv("q", q).kv("zb", (int)ZB).kv("sb", (int)SB)
            .kv("ret", near(turned.eval(vec(d)), power(2 * q, kept - 1))).done();
        // whatever is not zonal goes
        for (int l = 1; l < kept; ++l) for (int m = 1; m <= l; ++m) { sh.coeff(l, m) = rng.in(-5, 5); sh.coeff(l, -m) = rng.in(-5, 5); }
        ZonalHarmonics<double, SB> back(sh);
        VL r;
        bool zero = back.bands() == sh.bands();
        for (int i = 0; i < kept && zero; ++i) r.push_back(near(back.coeff(i)));
        vk::Ev("Back").kv("c", cut).kv("ret", r).done();
    }
    {
        int p = rng.in(-q, q);
        index_t nb = std::min<index_t>(n, bandsFor(q));
        zh.generate_spot(rng.chance(5) ? p / (double)q * 1.0 : p / (double)q);
        VL r;
        for (int i = 0; i < nb; ++i) r.push_back(near(zh.coeff(i), 2 * power(2 * q, i + 1)));
        vk::Ev("Spot").kv("p", p).kv("q", q).kv("ret", r).done();
        zh.clear();
        int v = rng.in(-5, 5);
        zh.project(p / (double)q, v);
        r.clear();
        for (int i = 0; i < nb; ++i) r.push_back(near(zh.coeff(i), power(2 * q, i)));
        vk::Ev("ZProject").kv("v", v).kv("p", p).kv("q", q).kv("ret", r).done();
    }
    {
        index_t k = ZB ? ZB : rng.in(1, 9);
        ZH x(k);
        for (int i = 0; i < k; ++i) x.coeff(i) = 5;
        int order = rng.chance(40) ? -1 : rng.in(1, 10);
        if (order < 0 && rng.chance(50)) x.generate_lambertian(); else x.generate_lambertian(order);
        VL r;
        for (int i = 0; i < k; ++i) r.push_back(near(x.coeff(i), power(2, i + 1) * 2520));
        vk::Ev("Lambert").kv("order", order < 1 ? (int)k : order).kv("ret", r).done();
    }
    {
        ZonalHarmonics<double, 0> o(rng.in(1, 7));
        VI a, b;
        for (int i = 0; i < n; ++i) { a.push_back(rng.in(-9, 9)); zh.coeff(i) = a.back(); }
        for (int i = 0; i < o.bands(); ++i) { b.push_back(rng.in(-9, 9)); o.coeff(i) = b.back(); }
        vk::about("inner product");
        vk::Ev("ZDot").kv("a", a).kv("b", b).kv("ret", near(zh.dot(o))).done();
    }
}

template <index_t B> void sizes() {
    index_t n = B ? B : rng.in(1, 5);
    SphericalHarmonics<double, B> s(n), dflt;
    ZonalHarmonics<double, B> z(n), zd;
    bool zero = s.size() == n * n && dflt.size() == (B ? B * B : 1) && zd.bands() == (B ? B : 1) && z.bands() == n;
    for (int i = 0; i < s.size(); ++i) zero = zero && s.get()[i] == 0;
    for (int i = 0; i < z.bands(); ++i) zero = zero && z.get()[i] == 0;
    vk::Ev("Sizes").kv("n", (int)n).kv("bands", (int)s.bands()).kv("size", (int)s.size()).kv("zero", zero).done();
}

static bool alike(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static void blur() {
    index_t n = rng.in(1, 6), kb = rng.in(1, 6);
    typedef ZonalHarmonics<double, 0> ZH;
    ZH f(n), k(n), shorter(kb);
    for (int i = 0; i < n; ++i) { f.coeff(i) = rng.in(1, 9) / 4.0; k.coeff(i) = rng.in(1, 9) * (rng.chance(50) ? -1 : 1) / 4.0; }
    for (int i = 0; i < kb; ++i) shorter.coeff(i) = rng.in(1, 9) / 4.0;
    vk::about("diffuse");
    bool one = true, two = true, none = true, same = true, lost = true, shrt = true;
    ZH a = f; a.diffuse(1);
    for (int i = 0; i < n; ++i) one = one && alike(a.coeff(i), f.coeff(i));
    a = f; a.diffuse(2);
    ZH b = f; b.convolve(f);
    for (int i = 0; i < n; ++i) two = two && alike(a.coeff(i), b.coeff(i));
    a = f; a.diffuse(0.5); a.diffuse(2);
    for (int i = 0; i < n; ++i) two = two && alike(a.coeff(i), f.coeff(i));
    a = k; a.diffuse(0); b = f; b.convolve(a);
    for (int i = 0; i < n; ++i) none = none && alike(b.coeff(i), f.coeff(i));
    a = f; a.convolve(k); b = k; b.convolve(f);
    for (int i = 0; i < n; ++i) two = two && alike(a.coeff(i), b.coeff(i));
    // a kernel with fewer bands has zeros beyond
    vk::about("convolve with fewer bands");
    a = f; a.convolve(shorter);
    for (int i = 0; i < n; ++i) if (i >= kb) shrt = shrt && a.coeff(i) == 0;
    // on the sphere: each band by one factor, in proportion to the kernel
    SphericalHarmonics<double, 0> s(n), t(n), u(n);
    for (int i = 0; i < s.size(); ++i) s.coeffs[i] = rng.in(1, 9);
    t = s; u = s;
    vk::about("convolve on the sphere");
    t.convolve(shorter);
    ZH twice = shorter;
    for (int i = 0; i < kb; ++i) twice.coeff(i) *= 2;
    u.convolve(twice);
    for (int l = 0; l < n; ++l)
        for (int m = -l; m <= l; ++m) {
            if (l >= kb) lost = lost && t.coeff(l, m) == 0;
            else {
                same = same && t.coeff(l, 0) != 0 && alike(t.coeff(l, m) * s.coeff(l, 0), t.coeff(l, 0) * s.coeff(l, m));
                same = same && alike(u.coeff(l, m), 2 * t.coeff(l, m));
            }
        }
    vk::Ev("Blur").kv("n", (int)n).kv("kb", (int)kb).kv("one", one).kv("two", two).kv("none", none).kv("alike", same).kv("lost", lost).kv("short", shrt).done();
}

template <index_t B> void algebra() {
    typedef SphericalHarmonics<double, B> SH;
    index_t n = B ? B : rng.in(1, 4), n2 = B ? B : rng.in(1, 4);
    SH a(n), b(n2);
    VI ia, ib;
    for (int i = 0; i < a.size(); ++i) { ia.push_back(rng.in(-9, 9)); a.coeffs[i] = ia.back(); }
    for (int i = 0; i < b.size(); ++i) { ib.push_back(rng.in(-9, 9)); b.coeffs[i] = ib.back(); }
    const double r4pi = std::sqrt(4 * kPi);
    auto out = [&](const char* f, const SH& r, int k, double scale = 1, bool bias = false) {
        VL v;
        for (int i = 0; i < r.size(); ++i) v.push_back(near(r.coeffs[i], i == 0 && bias ? 1 / r4pi : scale));
        vk::Ev("Alg").kv("f", f).kv("bands", (int)B).kv("a", ia).kv("b", ib).kv("k", k).kv("ret", v).done();
    };
    vk::about("algebra of spherical harmonics");
    switch (rng.in(0, 8)) {
        case 0: { SH c = a; const SH& r = -c; out("neg", r, 0); break; }
        case 1: { int k = rng.in(-5, 5); SH c = a; out("mul", c *= k, k); break; }
        case 2: { int k = rng.in(1, 5); for (auto& x : ia) x *= k; SH c = a; c *= k; out("div", c /= k, k); break; }
        case 3: {
            int k = rng.in(-5, 5), c0 = rng.in(-3, 3);
            a.coeffs[0] = c0 * r4pi; ia[0] = c0;
            out("bias", a += (double)k, c0 + k, 1, true);
            break;
        }
        case 4: { SH c = a; out("adds", c += b, 0); break; }
        case 5: { SH c = a + b; out("plus", c, 0); break; }
        case 6: vk::Ev("Alg").kv("f", "dot").kv("a", ia).kv("b", ib).kv("k", near(a.dot(b))).done(); break;
        case 7: { SH c = a; c.normalize(); out("norm", c, 0, ia[0] ? ia[0] * r4pi : 1); break; }
        case 8: { a.clear(); out("clear", a, 0); break; }
    }
}

int main(int argc, char** argv) {
    rng = vk::Rng(atoi(argv[1]));
    int reps = atoi(argv[2]);
    vk::open();
    for (int i = 0; i < reps; ++i) {
        ++vk::episode;
        for (int k = 0; k < 4; ++k) polys();
        column<0>(); column<4>();
        for (int k = 0; k < 4; ++k) harmonic<0>();
        harmonic<3>(); harmonic<5>();
        zonal<0, 0>(); zonal<3, 3>();
        if (i % 2) zonal<4, 2>(); else zonal<2, 4>();
        if (i % 2) zonal<0, 3>(); else zonal<3, 0>();
        sizes<0>(); sizes<1>(); sizes<3>();
        blur();
        algebra<0>(); algebra<0>(); algebra<0>(); algebra<3>(); algebra<1>();
    }
    vk::close();
}
