// Operations on dual numbers over a prime field, whole numbers, and reals at rational points.
//   dual SEED N
#include "vk.h"
static int P = 7;
struct Fp {
    int v;
    Fp(): v(0) {}
    Fp(long long x): v((int)(((x % P) + P) % P)) {}
    Fp operator-() const { return Fp(-v); }
    Fp operator+(Fp o) const { return Fp(v + o.v); }
    Fp operator-(Fp o) const { return Fp(v - o.v); }
    Fp operator*(Fp o) const { return Fp((long long)v * o.v); }
    Fp operator/(Fp o) const {
        if (o.v == 0) { vk::odd_number = true; return Fp(0); }
        long long r = 1, b = o.v;
        for (int e = P - 2; e; e >>= 1, b = b * b % P) if (e & 1) r = r * b % P;
        return *this * Fp(r);
    }
    Fp& operator+=(Fp o) { return *this = *this + o; }
    Fp& operator-=(Fp o) { return *this = *this - o; }
    Fp& operator*=(Fp o) { return *this = *this * o; }
    Fp& operator/=(Fp o) { return *this = *this / o; }
    Fp& operator++() { return *this += 1; }
    Fp operator++(int) { Fp o = *this; *this += 1; return o; }
    Fp& operator--() { return *this -= 1; }
    Fp operator--(int) { Fp o = *this; *this -= 1; return o; }
    bool operator==(const Fp& o) const = default;
    friend bool operator<(Fp a, Fp b) { return a.v < b.v; }
    friend bool operator>(Fp a, Fp b) { return a.v > b.v; }
    friend bool operator<=(Fp a, Fp b) { return a.v <= b.v; }
    friend bool operator>=(Fp a, Fp b) { return a.v >= b.v; }
};
namespace std { inline Fp abs(Fp x) { return x; } }
#include <geomc/function/Dual.h>
#include <geomc/linalg/Matrix.h>
using namespace geom;
using vk::Ev;
typedef std::vector<long long> VL;
typedef DiscontinuityPolicy DP;
static vk::Rng* G;
static int in(int a, int b) { return G->in(a, b); }

static long long val(Fp x) { return x.v; }
static long long val(int x) { return x; }
static long long val(double x, int un = 1) { return vk::exact(x, un); }
template <typename T, DP Q> VL pr(const Dual<T,Q>& d, int un = 1) {
    if constexpr (std::is_floating_point_v<T>) return {val(d.x, un), val(d.dx, un)};
    else return {val(d.x), val(d.dx)};
}

// ---- arithmetic ----
template <typename T, DP Q> struct Alg {
    typedef Dual<T,Q> D;
    static constexpr bool field = std::is_same_v<T,Fp>, real = std::is_floating_point_v<T>;
    static T num(bool unit = false) {
        if (field) return T((long long)in(unit ? 1 : 0, P - 1));
        if (!unit) return T((long long)in(-9, 9));
        static const int B[] = {1, -1, 2, -2, 4};
        return T((long long)B[in(0, 4)]);
    }
    static void go() {
        D a(num(), num()), b(num(), num()), c(num(), num()), d(num(), num()), r;
        const D a0 = a, b0 = b;
        T s = num();
        int k = in(-3, 3);
        Ev e("Alg");
        const char* f = "same";
        VL A = pr(a), B = pr(b);
        int un = 1, form = in(0, 5);
        // operands that are scalars, or the same object
        auto as_a = [&](auto q) { A = {field ? (((long long)val(q) % P) + P) % P : (long long)q, 0}; };
        auto as_b = [&](long long q) { B = {field ? ((q % P) + P) % P : q, 0}; };
        int op = in(0, 14);
        switch (op) {
          case 0: f = "add";
            if (form == 0) r = a0 + b0;
            else if (form == 1) { r = a; r += b0; }
            else if (form == 2) { r = a0 + s; as_b(val(s)); }
            else if (form == 3) { r = s + b0; A = {val(s), 0}; }
            else if (form == 4) { r = a; r += s; as_b(val(s)); }
            else { r = a; r += r; B = A; }
            break;
          case 1: f = "sub";
            if (form == 0) r = a0 - b0;
            else if (form == 1) { r = a; r -= b0; }
            else if (form == 2) { r = a0 - s; as_b(val(s)); }
            else if (form == 3) { r = s - b0; A = {val(s), 0}; }
            else if (form == 4) { r = a; r -= s; as_b(val(s)); }
            else { r = a; r -= r; B = A; }
            break;
          case 2: case 3: f = "mul";
            if (form == 0) r = a0 * b0;
            else if (form == 1) { r = a; r *= b0; }
            else if (form == 2) { r = a0 * s; as_b(val(s)); }
            else if (form == 3) { r = s * b0; A = {val(s), 0}; }
            else if (form == 4) { r = a; r *= s; as_b(val(s)); }
            else { r = a; r *= r; B = A; }
            break;
          case 4: case 5: if constexpr (!field && !real) { r = a; break; } else { f = "div"; un = real ? 64 : 1;
            b.x = num(true); s = num(true);
            B = pr(b);
            if (form == 0) r = a0 / b;
            else if (form == 1) { r = a; r /= b; }
            else if (form == 2) { r = a0 / s; as_b(val(s)); }
            else if (form == 3) { r = s / b; A = {val(s), 0}; }
            else if (form == 4) { r = a; r /= s; as_b(val(s)); }
            else { a.x = num(true); A = pr(a); r = a; r /= r; B = A; a = a0; A = pr(D(r)); A = B; }
            break; }
          case 6: f = "neg"; r = -a0; break;
          case 7: f = "inc"; if (form < 2) { r = a; ++r; } else if (form < 4) { r = a; r++; } else { r = a; D q = ++r; r = q; } break;
          case 8: f = "dec"; if (form < 2) { r = a; --r; } else if (form < 4) { r = a; r--; } else { r = a; D q = --r; r = q; } break;
          case 9: f = "same";
            if (form == 0) { r = a; D q = r++; r = q; }
            else if (form == 1) { r = a; D q = r--; r = q; }
            else if (form == 2) { r = a; r = s; A = {val(s), 0}; }
            else if (form == 3) { r = D(s); A = {val(s), 0}; }
            else if (form == 4) { D q; r = D(a.x, q.dx); A = {val(a.x), 0}; }
            else { Dual<T,DP::NaN> q(a); Dual<T,DP::Left> t = q; Dual<T,DP::Right> u = t; r = D(u); }
            break;
          case 10: f = "fma"; e.kv("c", pr(c)); if (form < 3) r = multiply_add(a0, b0, c); else r = std::fma(a0, b0, c); break;
          case 11: f = "dop"; e.kv("c", pr(c)).kv("d", pr(d)); r = diff_of_products(a0, b0, c, d); break;
          case 12: f = "sop"; e.kv("c", pr(c)).kv("d", pr(d)); r = sum_of_products(a0, b0, c, d); break;
          case 13: if constexpr (real) { f = "mix"; e.kv("c", pr(c)); r = mix(a0, b0, c); } else r = a; break;
          default: // scalars of another type
            if constexpr (field) r = a;
            else {
                if (form == 0) { f = "mul"; r = a0 * k; as_b(k); }
                else if (form == 1) { f = "mul"; r = k * b0; A = {k, 0}; }
                else if (form == 2) { f = "add"; r = a0 + k; as_b(k); }
                else if (form == 3) { f = "sub"; r = k - b0; A = {k, 0}; }
                else if (form == 4) { f = "mul"; r = a; r *= k; as_b(k); }
                else { f = "sub"; r = a; r -= k; as_b(k); }
            }
        }
        if (un == 64 && std::string(f) == "div") {} else un = 1;
        // operands stay
        bool kept = a.x == a0.x && a.dx == a0.dx && (std::string(f) == "div" || (b.x == b0.x && b.dx == b0.dx));
        e.kv("f", f).kv("form", form).kv("a", A).kv("b", B).kv("p", field ? P : 0).kv("un", un).kv("ret", pr(r, un));
        if (!kept) vk::odd_number = true;
        e.done();
    }
};

typedef Dual<Fp> DF;
typedef Dual<DF> DDF;
static VL quad(const DDF& d) { return {d.x.x.v, d.x.dx.v, d.dx.x.v, d.dx.dx.v}; }
static void nest() {
    auto n = [&] { return Fp(in(0, P - 1)); };
    DDF a(DF(n(), n()), DF(n(), n())), b(DF(n(), n()), DF(n(), n())), r;
    int op = in(0, 4), form = in(0, 2);
    if (op == 3 && b.x.x.v == 0) b.x.x = 1;
    VL B = quad(b);
    Ev e("Nest");
    DF s(n(), n());
    if (form == 2 && op != 4) { if (op == 3 && s.x.v == 0) s.x = 1; B = {s.x.v, s.dx.v, 0, 0}; }
    switch (op) {
        case 0: if (form == 0) r = a + b; else if (form == 1) { r = a; r += b; } else r = a + s; break;
        case 1: if (form == 0) r = a - b; else if (form == 1) { r = a; r -= b; } else r = a - s; break;
        case 2: if (form == 0) r = a * b; else if (form == 1) { r = a; r *= b; } else r = a * s; break;
        case 3: if (form == 0) r = a / b; else if (form == 1) { r = a; r /= b; } else r = a / s; break;
        default: r = -a;
    }
    static const char* F[] = {"add", "sub", "mul", "div", "neg"};
    e.kv("f", F[op]).kv("a", quad(a)).kv("b", B).kv("p", P).kv("ret", quad(r));
    e.done();
}

// ---- functions ----
struct Tri { int c, s, h; };
static const Tri TRI[] = {{4,3,5},{3,4,5},{12,5,13},{5,12,13},{4,-3,5},{3,-4,5},{-4,3,5},{-3,-4,5},{-5,12,13},{-12,-5,13},{1,0,1},{0,1,1},{0,-1,1},{-1,0,1}};
static long long fx(double v) { return vk::fixed(v, 1024, 4e6); }
template <typename T> VL out(const Dual<T>& d) { return {fx(d.x), fx(d.dx)}; }
template <typename T> VL out(const Dual<Dual<T>>& d) { return {fx(d.x.x), fx(d.x.dx), fx(d.dx.x), fx(d.dx.dx)}; }
template <typename T> T prim(const Dual<T>& d) { return d.x; }
template <typename T> T prim(const Dual<Dual<T>>& d) { return d.x.x; }
template <typename T> struct Mk {};
template <typename T> struct Mk<Dual<T>> { static constexpr bool two = false; typedef T R; static Dual<T> at(double x, double a, double, double) { return {(T)x, (T)a}; } };
template <typename T> struct Mk<Dual<Dual<T>>> { static constexpr bool two = true; typedef T R; static Dual<Dual<T>> at(double x, double a, double b, double c) { return {Dual<T>((T)x, (T)a), Dual<T>((T)b, (T)c)}; } };

template <typename D> void fn() {
    typedef typename Mk<D>::R R;
    Tri t = TRI[in(0, 13)];
    int m1 = in(-3, 3), m2 = in(-2, 2), m3 = in(-2, 2), op = in(0, 11), q = in(1, 5), r = in(1, 4), n = in(-3, 4), j = in(-2, 2);
    double unit = 1;
    std::string f;
    D y;
    bool has_vc = false;
    double vc = 0, vs = 0;
    double th = std::atan2((double)t.s, (double)t.c) + 2 * M_PI * in(-1, 1);
    auto at = [&](double x) { return Mk<D>::at(x, m1 * unit, m2 * unit, m3 * unit); };
    if (op == 2 && t.c == 0) op = 0;
    if (op == 5 && t.c == 0) op = 1;
    if (op == 3 && t.c <= 0) t = TRI[in(0, 5)];
    if (op == 4 && t.s <= 0) t = TRI[in(0, 3)];
    if (op == 5 && t.c < 0) t.c = -t.c;
    switch (op) {
        case 0: f = "sin"; y = std::sin(at(th)); break;
        case 1: f = "cos"; y = std::cos(at(th)); break;
        case 2: f = "tan"; y = std::tan(at(th)); break;
        case 3: f = "asin"; y = std::asin(at(t.s / (double)t.h)); has_vc = true; break;
        case 4: f = "acos"; y = std::acos(at(t.c / (double)t.h)); has_vc = true; break;
        case 5: f = "atan"; y = std::atan(at(t.s / (double)t.c)); has_vc = true; break;
        case 6: { int k = in(-3, 3); q = k > 0 ? 1 << k : 1; r = k < 0 ? 1 << -k : 1; f = "exp"; y = std::exp(at(k * M_LN2)); break; }
        case 7: f = "log"; y = std::log(at(q / (double)r)); vc = std::exp((double)prim(y)); break;
        case 8: f = "sqrt"; y = std::sqrt(at(q * q / (double)(r * r))); break;
        case 9: f = "pow"; if (G->chance(25)) q = -q; if (n >= 0 && G->chance(15)) q = 0;
            if (n < 0) r = in(1, 2); else if (n == 4 && q > 3) q = 3;
            {
                D x = at(q / (double)r);
                int form = in(0, 2);
                if constexpr (Mk<D>::two) form = 1;
                if (form == 0) { if constexpr (!Mk<D>::two) y = std::pow(x, D((R)n)); }
                else if (form == 1) y = std::pow(x, (R)n);
                else { if constexpr (!Mk<D>::two) y = std::pow(x, n); else y = std::pow(x, (R)n); }
            }
            break;
        case 10: {
            f = "powS"; unit = 1 / M_LN2;
            int k = j * n; q = k > 0 ? 1 << k : 1; r = k < 0 ? 1 << -k : 1;
            if (k > 8 || k < -8) { q = r = 1; n = 0; }
            y = std::pow((R)std::pow(2.0, j), at(n));
            break;
        }
        default: {
            if constexpr (Mk<D>::two) { f = "sin"; y = std::sin(at(th)); break; }
            else {
                f = "powD";
                j = in(0, 2);
                // (2^j)^n with infinitesimals m1 and m2/log 2
                int k = j * n;
                q = k > 0 ? 1 << k : 1; r = k < 0 ? 1 << -k : 1;
                y = std::pow(D((R)(1 << j), (R)m1), D((R)n, (R)(m2 / M_LN2)));
            }
        }
    }
    if (has_vc) { vc = std::cos((double)prim(y)); vs = std::sin((double)prim(y)); }
    bool ranged = true;
    if (f == "asin" || f == "atan") ranged = std::abs((double)prim(y)) <= M_PI / 2 + 1e-6;
    if (f == "acos") ranged = prim(y) >= 0 && prim(y) <= M_PI + 1e-6;
    Ev e("Fn");
    VL o = f == "log" || has_vc ? VL{} : out(y);
    if (o.empty()) { o = out(y); }
    e.kv("f", f).kv("c", t.c).kv("s", t.s).kv("h", t.h).kv("q", q).kv("r", r).kv("n", n).kv("j", j).kv("b", 1 << std::abs(j)).kv("m", VL{m1, m2, m3}).kv("two", Mk<D>::two);
    e.kv("tol", std::is_same_v<R,float> ? 6 : 2).kv("vc", fx(vc)).kv("vs", fx(vs)).kv("ret", o);
    if (!ranged) vk::odd_number = true;
    e.done();
}
template <typename T> void atan2s() {
    Tri t = TRI[in(0, 13)];
    int k = in(1, 3), my = in(-3, 3), mx = in(-3, 3);
    Dual<T> y((T)(k * t.s), (T)my), x((T)(k * t.c), (T)mx), r = std::atan2(y, x);
    Ev e("Atan2");
    e.kv("x", k * t.c).kv("y", k * t.s).kv("h", k * t.h).kv("m", VL{my, mx}).kv("tol", 2).kv("vc", fx(std::cos((double)r.x))).kv("vs", fx(std::sin((double)r.x))).kv("ang", fx(r.x)).kv("d", fx(r.dx));
    e.done();
}

// ---- kinks ----
static VL token(double v) {
    if (std::isnan(v)) return {1, 0};
    if (std::isinf(v)) return {v > 0 ? 2 : 3, 0};
    return {0, vk::exact(v, 2)};
}
template <typename T, DP Q> void edge(const char* policy) {
    typedef Dual<T,Q> D;
    int d = in(-3, 3), op = in(0, 5);
    D a((T)(in(-4, 4) * 0.5), (T)d), b((T)(in(-2, 2) * 0.5), (T)in(-3, 3)), c((T)(in(-2, 4) * 0.5), (T)in(-3, 3)), r;
    if ((op == 1 || op == 2) && Q == DP::Inf && d == 0) a.dx = d = 1;
    static const char* F[] = {"abs", "floor", "ceil", "min", "max", "clamp"};
    if (op == 5 && b.x > c.x) std::swap(b, c);
    switch (op) {
        case 0: r = std::abs(a); break;
        case 1: r = std::floor(a); break;
        case 2: r = std::ceil(a); break;
        case 3: r = std::min(a, b); break;
        case 4: r = std::max(a, b); break;
        default: r = geom::clamp(a, b, c);
    }
    auto h = [](const D& x) { return VL{vk::exact(x.x, 2), vk::exact(x.dx, 1)}; };
    Ev e("Edge");
    e.kv("f", F[op]).kv("policy", policy).kv("a", h(a)).kv("b", h(b)).kv("c", h(c)).kv("ret", vk::exact(r.x, 2)).kv("dret", token(r.dx));
    e.done();
}
template <typename T> void compare() {
    typedef Dual<T> D;
    const D a((T)in(-1, 1), (T)in(-1, 1)), b((T)in(-1, 1), (T)in(-1, 1));
    Ev e("Compare");
    e.kv("a", pr(a)).kv("b", pr(b)).kv("eq", a == b).kv("ne", a != b).kv("lt", a < b).kv("le", a <= b).kv("gt", a > b).kv("ge", a >= b);
    e.kv("hash", std::hash<D>()(a) == std::hash<D>()(b)).kv("eqs", a == b.x).kv("lts", a < b.x);
    e.done();
}
template <typename T> void classes() {
    typedef Dual<T> D;
    auto v = [](int k) { return k == 0 ? (T)1 : k == 1 ? std::numeric_limits<T>::quiet_NaN() : (G->chance(50) ? -1 : 1) * std::numeric_limits<T>::infinity(); };
    int kx = in(0, 2), kd = in(0, 2);
    D a(v(kx), v(kd));
    Ev e("Class");
    e.kv("kx", kx).kv("kd", kd).kv("nan", (bool)std::isnan(a)).kv("inf", (bool)std::isinf(a)).kv("fin", (bool)std::isfinite(a));
    std::string s = e.s;
    // (the field "nan" would mark the event)
    size_t i = s.find("\"nan\""); 
    e.s = s.replace(i, 5, "\"isnan\"");
    e.done();
    Ev f("Limits");
    f.kv("ok", std::numeric_limits<D>::max() == std::numeric_limits<T>::max() && std::numeric_limits<D>::epsilon() == std::numeric_limits<T>::epsilon() && (T)D(3, 4) == 3 && ((Dual<double>)Dual<float>(3, 4)).dx == 4
        && ((Dual<float>)Dual<double>(3, 4)).dx == 4);
    f.done();
}
template <typename T> void vecs() {
    typedef Dual<T> D;
    typedef Vec<D,3> V;
    VL a, b, da, db;
    for (int i = 0; i < 3; ++i) { a.push_back(in(-4, 4)); b.push_back(in(-4, 4)); da.push_back(in(-3, 3)); db.push_back(in(-3, 3)); }
    if (G->chance(50)) {
        static const int S[][4] = {{1,2,2,3},{2,-2,1,3},{2,3,6,7},{0,-3,4,5},{0,0,-2,2},{-4,4,7,9}};
        const int* s = S[in(0, 5)];
        a = {s[0], s[1], s[2]};
        V v;
        for (int i = 0; i < 3; ++i) v[i] = D((T)a[i], (T)da[i]);
        D m = v.mag(); V u = v.unit();
        VL ux, ud;
        for (int i = 0; i < 3; ++i) ux.push_back(fx(u[i].x)), ud.push_back(fx(u[i].dx));
        Ev e("Mag");
        e.kv("a", a).kv("da", da).kv("L", s[3]).kv("tol", 2).kv("ret", out(m)).kv("unit", ux).kv("dunit", ud);
        e.done();
        return;
    }
    V v, w;
    for (int i = 0; i < 3; ++i) v[i] = D((T)a[i], (T)da[i]), w[i] = D((T)b[i], (T)db[i]);
    V c = v ^ w;
    VL cx, cd;
    for (int i = 0; i < 3; ++i) cx.push_back(val(c[i].x)), cd.push_back(val(c[i].dx));
    Ev e("Vec");
    e.kv("a", a).kv("b", b).kv("da", da).kv("db", db).kv("dot", pr(v.dot(w))).kv("mag2", pr(v.mag2())).kv("cross", cx).kv("dcross", cd);
    e.done();
}
static void matrices() {
    // a whole matrix of determinant 1, 2 or 4 and either sign: exact in doubles
    typedef Dual<double> D;
    SimpleMatrix<D,3,3> x, y;
    int a[3][3], lo[3][3], up[3][3];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { lo[i][j] = i == j ? 1 : j < i ? in(-2, 2) : 0; up[i][j] = i == j ? (G->chance(80) ? 1 : in(0, 2)) * (in(0, 1) ? 1 : -1) : j > i ? in(-2, 2) : 0; }
    std::vector<VL> X(3), DX(3), Y(3), DY(3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        a[i][j] = 0;
        for (int k = 0; k < 3; ++k) a[i][j] += lo[i][k] * up[k][j];
    }
    int perm = in(0, 2);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        x(i, j) = D(a[(i + perm) % 3][j], in(-3, 3));
        X[i].push_back(val(x(i, j).x)); DX[i].push_back(val(x(i, j).dx));
    }
    D d = det(x);
    bool ok = geom::inv(&y, x);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Y[i].push_back(ok ? val(y(i, j).x, 64) : 0); DY[i].push_back(ok ? val(y(i, j).dx, 64) : 0); }
    Ev e("Matrix");
    e.kv("x", X).kv("dx", DX).kv("y", Y).kv("dy", DY).kv("det", pr(d)).kv("ret", ok);
    e.done();
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    G = &g;
    int n = atoi(argv[2]);
    static const int primes[] = {3, 5, 7, 31, 97};
    for (int i = 0; i < n; ++i) {
        P = primes[i % 5];
        vk::about("dual numbers");
        switch (in(0, 19)) {
            case 0: case 1: case 2: Alg<Fp,DP::Right>::go(); break;
            case 3: Alg<double,DP::Right>::go(); break;
            case 4: Alg<float,DP::Left>::go(); break;
            case 5: Alg<int,DP::Right>::go(); break;
            case 6: Alg<double,DP::Average>::go(); break;
            case 7: case 8: nest(); break;
            case 9: case 10: fn<Dual<double>>(); break;
            case 11: fn<Dual<float>>(); break;
            case 12: case 13: fn<Dual<Dual<double>>>(); break;
            case 14: atan2s<double>(); break;
            case 15: compare<double>(); if (in(0, 9) == 0) classes<double>(), classes<float>(); break;
            case 16: vecs<double>(); break;
            case 17: matrices(); break;
            default: switch (in(0, 5)) {
                case 0: edge<double,DP::NaN>("NaN"); break;
                case 1: edge<double,DP::Left>("Left"); break;
                case 2: edge<double,DP::Right>("Right"); break;
                case 3: edge<double,DP::Average>("Average"); break;
                case 4: edge<double,DP::Inf>("Inf"); break;
                default: edge<float,DP::Right>("Right");
            }
        }
    }
    vk::close();
}
