// Scalar functions.
//   scalar SEED REPS
#include "vk.h"
#include <complex>
#include <geomc/function/Utils.h>
#include <geomc/function/Dual.h>
#include <geomc/function/Basis.h>
using namespace geom;
using vk::Ev;
typedef std::vector<int> VI;
typedef std::vector<long long> VL;

static long long whole(long double v) {
    if (!(fabsl(v) < 2e9L) || v != std::floor(v)) { vk::odd_number = true; return 0; }
    return (long long)v;
}
// results of scaled whole numbers come back as multiples of the scale
template <typename T> static long long unscale(T v, T f) { if (v % f != 0) vk::odd_number = true; return (long long)(v / f); }

template <typename T> static void div_int(vk::Rng& g) {
    const bool neg = std::is_signed<T>::value;
    const int bits = sizeof(T) * 8 - neg;
    int w = std::min(bits, 20);
    int lim = (1 << (w - 1)) - 1;           // room for the scale
    int a, b;
    T f = 1;
    if (g.chance(50)) {
        // up to the whole range of the type
        int top = bits >= 30 ? 30000 : (bits == 15 || bits == 16) ? 120 : 15;
        a = g.in(neg ? -top : 0, top); b = g.in(1, top);
        T most = std::numeric_limits<T>::max() / (T)top;
        f = g.chance(50) ? most : most - (T)g.in(0, 3);
    } else if (g.chance(50)) { a = g.in(neg ? -9 : 0, 9); b = g.in(1, 5); }
    else { a = g.in(neg ? -lim : 0, lim); b = g.in(1, std::max(1, lim >> g.in(0, w - 2))); }
    if (neg && g.chance(40)) b = -b;
    T x = (T)((T)a * f), y = (T)((T)b * f);
    vk::about("integer division");
    Ev e("Div");
    e.kv("a", a).kv("b", b).kv("floor", (long long)floor_div<T>(x, y)).kv("ceil", (long long)ceil_div<T>(x, y)).kv("mod", unscale<T>(positive_mod<T>(x, y), f));
    // the multiple above may be out of range
    bool ok = b > 0 && ((a + (b - 1) * (a > 0)) / (double)b * (double)b) * (double)f + (double)y < (double)std::numeric_limits<T>::max();
    if (ok) e.kv("snap", unscale<T>(snap<T>(x, y), f));
    else e.kv("snap", b > 0 ? (long long)b * (long long)ceil_div<T>(x, y) : 0);
    e.done();
}
template <typename T> static void div_real(vk::Rng& g) {
    int a = g.in(-60, 60), b = g.in(1, 20);
    if (g.chance(40)) b = -b;
    if (g.chance(30)) a = b * g.in(-4, 4);
    T x = a / (T)4, y = b / (T)4;
    vk::about("real division");
    Ev e("DivR");
    e.kv("a", a).kv("b", b).kv("floor", whole(floor_div<T>(x, y))).kv("ceil", whole(ceil_div<T>(x, y))).kv("mod", whole(4 * positive_mod<T>(x, y))).kv("snap", whole(4 * snap<T>(x, y)));
    e.done();
}
template <typename T> static void pow2(vk::Rng& g) {
    int top = sizeof(T) == 1 ? 127 : sizeof(T) == 2 ? 32767 : 1 << 29;
    int a = g.in(std::is_signed<T>::value ? -9 : 0, 9);
    if (g.chance(70)) { a = 1 << g.in(0, 29); a += g.in(-1, 1); if (g.chance(30)) a += 1 << g.in(0, 28); if (a > top) a &= top; }
    // and the same bits further up
    int room = sizeof(T) == 8 ? g.in(0, 30) : 0;
    Ev e("Pow2");
    e.kv("a", a).kv("ret", is_power_of_two<T>((T)a)).kv("big", is_power_of_two<T>((T)((T)a << room)));
    e.done();
}
template <typename T, typename R = T> static void cancel(vk::Rng& g, int kmax) {
    // (M + x)(M + y) - (M + z)(M + w), x + y = z + w
    int k = g.in(10, kmax), sp = std::min(k - 2, 11);
    int x = g.in(-(1 << sp), 1 << sp), y = g.in(-(1 << sp), 1 << sp), z = g.in(-(1 << sp), 1 << sp), w = x + y - z;
    if (g.chance(20)) z = x, w = y;
    long double M = std::ldexp(1.0L, k);
    T a = M + x, b = M + y, c = M + z, d = M + w;
    int r = g.in(-1000, 1000);
    T f = M + r, h = M - r;
    vk::about("sum of products");
    Ev e("Cancel");
    e.kv("v", VI{x, y, z, w, -r * r}).kv("diff", whole((R)diff_of_products<T>(a, b, c, d))).kv("sum", whole((R)sum_of_products<T>(a, b, -c, d)));
    e.kv("fma", whole((R)multiply_add<T>(f, h, (T)(-M * M))));
    e.done();
}
template <typename T> static void products(vk::Rng& g) {
    VI v; for (int i = 0; i < 4; ++i) v.push_back(g.in(-60, 60));
    T a = v[0], b = v[1], c = v[2], d = v[3];
    Ev e("Products");
    e.kv("v", v).kv("diff", whole(diff_of_products<T>(a, b, c, d))).kv("sum", whole(sum_of_products<T>(a, b, c, d))).kv("fma", whole(multiply_add<T>(a, b, c)));
    e.done();
}
template <typename T> static void complexes(vk::Rng& g) {
    typedef std::complex<T> C;
    std::vector<VI> v; C z[4];
    for (int i = 0; i < 4; ++i) { v.push_back(VI{g.in(-9, 9), g.in(-9, 9)}); z[i] = C(v[i][0], v[i][1]); }
    auto put = [](C c) { return VL{whole(c.real()), whole(c.imag())}; };
    Ev e("Complex");
    e.kv("v", v).kv("diff", put(diff_of_products<C>(z[0], z[1], z[2], z[3]))).kv("sum", put(sum_of_products<C>(z[0], z[1], z[2], z[3]))).kv("fma", put(multiply_add<C>(z[0], z[1], z[2])));
    e.done();
}
template <typename T> static void linear(vk::Rng& g) {
    int n = g.in(1, 4), q = 4;
    std::vector<T> s, p; VI js, pi;
    for (int i = 0; i < n; ++i) { js.push_back(g.in(0, q)); s.push_back(js[i] / (T)q); }
    int scale = 1; for (int i = 0; i < n; ++i) scale *= q;
    for (int i = 0; i < 1 << n; ++i) { pi.push_back(g.in(-20, 20)); p.push_back(pi[i]); }
    vk::about("interp_linear");
    Ev e("Linear");
    e.kv("js", js).kv("q", q).kv("p", pi).kv("ret", whole(interp_linear(s.data(), p.data(), n) * (T)scale));
    e.kv("mix", whole((g.chance(50) ? mix(s[0], p[0], p[1]) : mix(s[0], pi[0], pi[1])) * q));
    e.done();
}
template <typename T> static void cubic(vk::Rng& g) {
    int n = g.in(1, 3), q = n < 3 ? 4 : 2;
    std::vector<T> s, p; VI js, pi;
    int scale = 1, sz = 1;
    for (int i = 0; i < n; ++i) { js.push_back(g.in(0, q)); s.push_back(js[i] / (T)q); scale *= 2 * q * q * q; sz *= 4; }
    for (int i = 0; i < sz; ++i) { pi.push_back(g.in(-20, 20)); p.push_back(pi[i]); }
    vk::about("interp_cubic");
    Ev e("Cubic");
    e.kv("js", js).kv("q", q).kv("p", pi).kv("ret", whole((n == 1 && g.chance(50) ? interp_cubic(s[0], p.data()) : interp_cubic(s.data(), p.data(), n)) * (T)scale));
    e.done();
}
template <typename T> static void quad(vk::Rng& g) {
    T x[2] = {77, 78};
    vk::about("quadratic_solve");
    if (g.chance(50)) {
        int a = g.in(-4, 4), b = g.in(-9, 9), c = g.in(-9, 9);
        if (g.chance(15)) a = 0;
        if (g.chance(15)) b = 0;
        if (g.chance(15)) c = 0;
        bool r = quadratic_solve<T>(x, a, b, c);
        Ev e("Quad");
        e.kv("a", a).kv("b", b).kv("c", c).kv("un", 512).kv("tol", 2).kv("ret", r).kv("kept", x[0] == 77 && x[1] == 78).kv("x", VL{vk::fixed(x[0], 512), vk::fixed(x[1], 512)});
        e.done();
    } else {
        // whole roots of very different size
        int big = g.in(0, sizeof(T) == 8 ? 24 : 10), a = g.in(1, 3) * (g.chance(50) ? 1 : -1);
        int p = (1 << big) - g.in(0, 3), q = g.in(-3, 3);
        if (g.chance(40)) { p = (sizeof(T) == 8 ? 1 << 26 : 1 << 12) - g.in(1, 2000); q = p - g.in(0, 3); a = 1; }
        bool r = quadratic_solve<T>(x, (T)a, -(T)a * ((T)p + q), (T)a * p * q);
        Ev e("QuadRoots");
        e.kv("p", p).kv("r", q).kv("ret", r).kv("x", VL{whole(x[0]), whole(x[1])});
        e.done();
    }
}
template <typename T> static void angles(vk::Rng& g) {
    int w = g.chance(50) ? 8 : 60, a = g.in(-w, w), b = g.in(-w, w);
    T r = angle_to<T>((T)(a * M_PI / 4), (T)(b * M_PI / 4));
    long long k = std::llround(r / (M_PI / 4));
    if (!(std::abs(r - k * M_PI / 4) < 1e-3)) vk::odd_number = true;
    Ev e("AngleTo");
    e.kv("a", a).kv("b", b).kv("ret", k);
    e.done();
    int d = g.in(-8, 8);
    Ev f("Degrees");
    f.kv("k", d).kv("rad", vk::fixed(radians<T>((T)(90 * d)), 1024));
    f.done();
    Ev h("DegreesBack");
    h.kv("k", 45 * d).kv("deg", vk::fixed(degrees<T>(radians<T>((T)(45 * d))), 1));
    h.done();
}
static const int XS[][3] = {{0,1,1},{1,0,1},{-1,0,1},{3,4,5},{-3,4,5},{4,3,5},{-4,3,5},{12,5,13},{-5,12,13},{1,0,2},{-3,0,4}};
static void polys(vk::Rng& g) {
    const int* x = XS[g.in(0, 10)];
    int c = x[0], s = x[1], h = x[2];
    double v = c / (double)h;
    vk::about("polynomials");
    int op = g.in(0, 3);
    int most = h > 5 ? 3 : h > 4 ? 4 : 5;
    int un = 128, tol = 1;
    if (op == 0) {
        int n = g.in(0, most);
        Ev e("Legendre");
        e.kv("n", n).kv("c", c).kv("h", h).kv("un", un).kv("tol", tol).kv("ret", vk::fixed(legendre<double>(n, v), un)).kv("ret2", vk::fixed(legendre<double>(n, 0, v), un));
        e.done();
    } else if (op == 1) {
        int n = g.in(0, h > 5 ? 2 : h == 1 ? 4 : 3);
        un = 64;
        Ev e("LegendreInt");
        e.kv("n", n).kv("c", c).kv("h", h).kv("un", un).kv("tol", tol).kv("ret", vk::fixed(legendre_integral<double>(n, v), un));
        e.done();
    } else if (op == 2) {
        if (s * s + c * c != h * h) return;
        int n = g.in(0, std::min(most, 4)), m = g.in(0, n);
        un = 32;
        if (n == 4 && h >= 5) un = 4;
        Ev e("LegendreM");
        e.kv("n", n).kv("m", m).kv("c", c).kv("s", s).kv("h", h).kv("un", un).kv("tol", tol).kv("ret", vk::fixed(legendre<double>(n, m, v), un));
        e.done();
    } else {
        int n = g.in(0, h > 5 ? 4 : 6), kind = g.in(1, 2);
        Ev e("Chebyshev");
        e.kv("n", n).kv("kind", kind).kv("c", c).kv("h", h).kv("un", un).kv("tol", tol).kv("ret", vk::fixed(chebyshev<double>(kind, n, v), un));
        e.done();
    }
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    int n = atoi(argv[2]);
    for (int i = 0; i < n; ++i) {
        int w = g.in(0, 9);
        switch (g.in(0, 11)) {
            case 0: case 1:
                if (w == 0) div_int<int8_t>(g); else if (w == 1) div_int<uint8_t>(g); else if (w == 2) div_int<int16_t>(g); else if (w == 3) div_int<uint16_t>(g);
                else if (w <= 5) div_int<int32_t>(g); else if (w == 6) div_int<uint32_t>(g); else if (w <= 8) div_int<int64_t>(g); else div_int<uint64_t>(g);
                break;
            case 2: w < 5 ? div_real<double>(g) : div_real<float>(g); break;
            case 3: if (w < 3) pow2<int>(g); else if (w < 5) pow2<int64_t>(g); else if (w < 7) pow2<uint8_t>(g); else if (w < 9) pow2<uint64_t>(g); else pow2<int16_t>(g); break;
            case 4: if (w < 3) cancel<float>(g, 21); else if (w < 8) cancel<double>(g, 50); else cancel<long double>(g, 60); break;
            case 5: if (w < 3) products<int>(g); else if (w < 5) products<long>(g); else if (w < 8) products<double>(g); else complexes<double>(g); break;
            case 6: w < 7 ? linear<double>(g) : linear<float>(g); break;
            case 7: cubic<double>(g); break;
            case 8: w < 7 ? quad<double>(g) : quad<float>(g); break;
            case 9: { int lo = g.in(-5, 5), hi = g.in(lo, lo + 4), v = g.in(-8, 8); Ev e("Clamp"); e.kv("lo", lo).kv("hi", hi).kv("v", v).kv("ret", w < 5 ? (int)geom::clamp<int>(v, lo, hi) : (int)geom::clamp<double>(v, lo, hi)); e.done(); break; }
            case 10: w < 7 ? angles<double>(g) : angles<float>(g); break;
            default: polys(g);
        }
    }
    vk::close();
}
