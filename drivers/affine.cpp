// Histories of affine transforms in registers.
//   affine SEED EPISODES LEN
#include "vk.h"
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
using vk::Ev;
typedef std::vector<int> VI;
typedef std::vector<long long> VL;

static const int U = 1024;
template <typename T> static VL row(const T* v, int n) { VL r; for (int i = 0; i < n; ++i) r.push_back(vk::fixed(v[i], U, 1e5)); return r; }
template <typename T, index_t N> static VL vec(const Vec<T,N>& v) { return row(v.begin(), N); }
template <typename M> static std::vector<VL> mat(const M& m) {
    std::vector<VL> r(m.rows());
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) r[i].push_back(vk::fixed(m(i, j), U, 1e5));
    return r;
}

// how large the entries of a map and of its inverse can be, and their denominators
struct Size { double lin = 1, off = 0; double den = 1; };
struct Sizes { Size f, g; };
static Size then(const Size& x, const Size& y) { return {y.lin * x.lin, y.lin * x.off + y.off, x.den * y.den}; }
static bool fits(const Size& s) { return s.lin <= 40 && s.off <= 40 && s.den <= 1000; }
static bool fits(const Sizes& s) { return fits(s.f) && fits(s.g) && s.f.lin * s.g.lin < 400; }

static int det(const std::vector<VI>& a) {
    int n = a.size();
    if (n == 1) return a[0][0];
    int d = 0;
    for (int j = 0; j < n; ++j) {
        std::vector<VI> b;
        for (int i = 1; i < n; ++i) { VI r = a[i]; r.erase(r.begin() + j); b.push_back(r); }
        d += (j % 2 ? -1 : 1) * a[0][j] * det(b);
    }
    return d;
}

static const int ANGLES[][3] = {{1,0,1},{0,1,1},{-1,0,1},{0,-1,1},{3,4,5},{4,-3,5},{-3,4,5},{-4,-3,5}};
static const int AXES[][4] = {{1,0,0,1},{0,1,0,1},{0,0,1,1},{0,0,-2,2},{-3,0,0,3},{1,2,2,3},{2,-1,2,3},{-2,-2,1,3},{0,3,4,5}};
static const int UNITS[][4] = {{1,2,2,3},{2,-1,2,3},{-2,-2,1,3},{3,0,0,3},{0,3,0,3},{0,0,-3,3},{0,-3,0,3},{-1,-2,-2,3},{-2,1,-2,3}};

template <typename T, index_t N> struct History {
    typedef AffineTransform<T,N> X;
    typedef Vec<T,N> V;
    vk::Rng& g;
    X x[3];
    Sizes z[3];
    int tol = sizeof(T) == 4 ? 8 : 2;
    History(vk::Rng& g) : g(g) {}

    void shows(Ev& e, const X& y) { e.kv("tol", tol).kv("mat", mat(y.mat)).kv("inv", mat(y.inv)); e.done(); }
    VI ints(int lo, int hi) { VI v; for (int i = 0; i < N; ++i) v.push_back(g.in(lo, hi)); return v; }
    static V real(const VI& v, int q = 1) { V r; for (int i = 0; i < N; ++i) r[i] = v[i] / (T)q; return r; }
    static double len(const VI& v) { double s = 0; for (int a : v) s += (double)a * a; return std::sqrt(s); }

    void fresh(int k) {
        Sizes s;
        int how = g.in(0, N == 4 ? 3 : 9);
        if (g.chance(15)) how = 1;
        Ev e("New");
        e.kv("n", (int)N).kv("k", k + 1);
        auto about = [](const char* w) { vk::about(w); };
        if (how == 0) { e.kv("how", "ident"); x[k] = X(); }
        else if (how == 1) {
            VI t = ints(-4, 4);
            e.kv("how", "trans").kv("t", t);
            about("translation");
            bool sep = g.chance(30);
            if constexpr (N == 2) x[k] = sep ? translation<T>(t[0], t[1]) : translation(real(t));
            else if constexpr (N == 3) x[k] = sep ? translation<T>(t[0], t[1], t[2]) : translation(real(t));
            else x[k] = translation(real(t));
            s.f.off = s.g.off = len(t);
        } else if (how == 2) {
            int q = 1 << g.in(0, 2);
            VI t;
            for (int i = 0; i < N; ++i) { int a = g.in(1, 4); t.push_back(g.chance(30) ? -a : a); }
            e.kv("how", "scale").kv("t", t).kv("q", q);
            about("scale");
            bool sep = g.chance(30);
            V r = real(t, q);
            if constexpr (N == 2) x[k] = sep ? geom::scale<T>(r[0], r[1]) : geom::scale(r);
            else if constexpr (N == 3) x[k] = sep ? geom::scale<T>(r[0], r[1], r[2]) : geom::scale(r);
            else x[k] = geom::scale(r);
            s.f = {4. / q, 0, (double)q};
            s.g = {(double)q, 0, 12};
        } else if (how == 3) {
            std::vector<VI> a(N);
            int d;
            do {
                for (int i = 0; i < N; ++i) { a[i].clear(); for (int j = 0; j < N; ++j) a[i].push_back(g.in(0, 2) ? g.in(-1, 1) : g.in(-2, 2)); }
                d = det(a);
            } while (d == 0 || std::abs(d) > 4);
            e.kv("how", "matrix").kv("a", a);
            about("transformation");
            if (g.chance(50)) { SimpleMatrix<T,N,N> m; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = a[i][j]; x[k] = transformation(m); }
            else { SimpleMatrix<T,N,N,COL_MAJOR> m; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = a[i][j]; x[k] = transformation(m); }
            s.f = {2. * N, 0, 1};
            s.g = {(N == 2 ? 4. : N == 3 ? 16. : 30.) / std::abs(d), 0, (double)std::abs(d)};
        } else if constexpr (N == 2) {
            auto& a = ANGLES[g.in(0, 7)];
            e.kv("how", "plane").kv("c", a[0]).kv("s", a[1]).kv("h", a[2]);
            about("rotation(angle)");
            T th = std::atan2((T)a[1], (T)a[0]);
            if (g.chance(20)) th += 2 * M_PI;
            x[k] = rotation(th);
            s.f.den = s.g.den = a[2];
        } else if constexpr (N == 3) {
            auto& a = ANGLES[g.in(0, 7)];
            T th = std::atan2((T)a[1], (T)a[0]);
            if (g.chance(20)) th += 2 * M_PI;
            auto& u = AXES[g.in(0, 8)];
            V axis((T)u[0], (T)u[1], (T)u[2]);
            VI ui(u, u + 3);
            double den = a[2] * (u[3] == 3 ? 9 : u[3] == 5 ? 25 : 1);
            if (how <= 5) {
                if (how == 4 && g.chance(50)) {
                    int ax = g.in(0, 2);
                    VI un(3, 0); un[ax] = 1;
                    e.kv("how", "axis").kv("u", un).kv("L", 1).kv("c", a[0]).kv("s", a[1]).kv("h", a[2]);
                    about("rotation_xyz");
                    x[k] = ax == 0 ? rotation_x(th) : ax == 1 ? rotation_y(th) : rotation_z(th);
                    den = a[2];
                } else {
                    e.kv("how", "axis").kv("u", ui).kv("L", u[3]).kv("c", a[0]).kv("s", a[1]).kv("h", a[2]);
                    about("rotation(axis, angle)");
                    x[k] = rotation(axis, th);
                }
                s.f.den = s.g.den = den;
            } else if (how == 6) {
                VI c = ints(-3, 3);
                e.kv("how", "center").kv("u", ui).kv("L", u[3]).kv("c", a[0]).kv("s", a[1]).kv("h", a[2]).kv("ctr", c);
                about("rotation(axis, center, angle)");
                x[k] = rotation(axis, real(c), th);
                if (g.chance(30)) { V unit = axis.unit(); rotmat(&x[k].mat, unit, real(c), th); }
                s.f.den = s.g.den = den;
                s.f.off = s.g.off = 2 * len(c);
            } else if (how == 7) {
                int q[4], m2 = 0;
                do { m2 = 0; for (int& v : q) { v = g.in(-2, 2); m2 += v * v; } } while (!m2);
                e.kv("how", "quat").kv("q", VI(q, q + 4));
                about("rotation(quat)");
                x[k] = rotation(Quat<T>(q[0], q[1], q[2], q[3]));
                s.f.den = s.g.den = m2;
            } else {
                auto& w = UNITS[g.in(0, 8)];
                int pick = g.in(0, 8), v[3];
                bool back = g.chance(25);
                for (int i = 0; i < 3; ++i) v[i] = back ? -w[i] : UNITS[pick][i];
                V from((T)w[0], (T)w[1], (T)w[2]), to((T)v[0], (T)v[1], (T)v[2]);
                int c = w[0] * v[0] + w[1] * v[1] + w[2] * v[2];
                from /= 3; to /= 3;
                VI wi(w, w + 3), vi(v, v + 3);
                int form = g.in(0, 3);
                about("direction_align");
                X y;
                if (form == 0) y = direction_align(from, to);
                else {
                    SimpleMatrix<T,3,3> m;
                    if (form == 1) m = rotmat_direction_align(from, to);
                    else if (form == 2) rotmat_direction_align(&m, from, to);
                    else { SimpleMatrix<T,4,4> m4; rotmat_direction_align(&m4, from, to); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = m4(i, j); }
                    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) y.mat(i, j) = y.inv(j, i) = m(i, j);
                }
                if (c == -9) {
                    Ev r("Reverse");
                    SimpleMatrix<T,3,3> m, mi;
                    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m(i, j) = y.mat(i, j); mi(i, j) = y.inv(i, j); }
                    r.kv("u", wi).kv("L", 3).kv("tol", tol).kv("mat", mat(m)).kv("inv", mat(mi));
                    r.done();
                    return;
                }
                e.kv("how", "align").kv("u", wi).kv("v", vi).kv("L", 3);
                x[k] = y;
                s.f.den = s.g.den = 9 * (9 + c);
            }
        }
        z[k] = s;
        shows(e, x[k]);
    }

    template <index_t M, typename T2> void resize(int i) {
        if (M < N && z[i].f.lin * z[i].f.den > 12) return;
        vk::about("resized");
        auto y = x[i].template resized<M, T2>();
        Ev e("Resize");
        e.kv("n", (int)N).kv("i", i + 1).kv("to", (int)M).kv("tol", 8).kv("mat", mat(y.mat));
        bool odd = vk::odd_number;
        e.kv("inv", mat(y.inv));
        vk::odd_number = odd;        // the inverse of a degenerate map is anything
        e.done();
    }

    void run(int len) {
        { Ev e("Start"); e.kv("n", (int)N); e.done(); }
        for (int it = 0; it < len; ++it) {
            int op = g.in(0, 19), i = g.in(0, 2), j = g.in(0, 2), k = g.in(0, 2);
            if (op < 5) fresh(k);
            else if (op < 10) {
                bool undo = g.chance(40);
                Sizes yz = undo ? Sizes{z[j].g, z[j].f} : z[j];
                Sizes r{then(z[i].f, yz.f), then(yz.g, z[i].g)};
                if (!fits(r)) continue;
                int form = g.in(0, 2);
                vk::about(undo ? "compose with inverse" : "compose");
                X y;
                if (!undo) {
                    if (form == 0) y = x[j] * x[i];
                    else if (form == 1) y = x[i].apply(x[j]);
                    else { y = x[i]; y *= x[j]; if (i == j) { y = x[i]; y *= y; } }
                } else {
                    if (form == 0) y = x[i] / x[j];
                    else if (form == 1) y = x[i].apply_inverse(x[j]);
                    else { y = x[i]; y /= x[j]; }
                }
                x[k] = y; z[k] = r;
                Ev e(undo ? "ThenInv" : "Then");
                e.kv("i", i + 1).kv("j", j + 1).kv("k", k + 1);
                shows(e, x[k]);
            } else if (op == 10) {
                vk::about("inverse");
                X y = x[i].inverse();
                Sizes r{z[i].g, z[i].f};
                x[k] = y; z[k] = r;
                Ev e("Inverse"); e.kv("i", i + 1).kv("k", k + 1);
                shows(e, x[k]);
            } else if (op == 11) {
                vk::about("cast");
                AffineTransform<float,N> f(x[i]);
                AffineTransform<double,N> d(x[i]);
                Ev e("Same"); e.kv("i", i + 1).kv("tol", 8);
                bool w = g.chance(50);
                e.kv("mat", w ? mat(f.mat) : mat(d.mat)).kv("inv", w ? mat(f.inv) : mat(d.inv));
                e.done();
            } else if (op == 12) {
                vk::about("==");
                bool r = x[i] == x[j], h = std::hash<X>()(x[i]) == std::hash<X>()(x[j]);
                Ev e("Equal"); e.kv("i", i + 1).kv("j", j + 1).kv("tol", 8).kv("ret", r).kv("hash", h);
                e.done();
            } else if (op == 13) {
                int w = g.in(0, 5);
                if (w == 0) resize<2, T>(i); else if (w == 1) resize<3, T>(i); else if (w == 2) resize<4, T>(i);
                else if (w == 3) resize<2, float>(i); else if (w == 4) resize<3, double>(i); else resize<5, double>(i);
            } else {
                VI p = ints(-5, 5), v = ints(-5, 5);
                V pt = real(p), vv = real(v);
                const X& y = x[i];
                vk::about("apply");
                Ev e("Apply");
                e.kv("i", i + 1).kv("tol", 4 * tol).kv("p", p).kv("v", v);
                e.kv("pt", vec(y.apply(pt))).kv("pt2", vec<T,N>(y * pt)).kv("ipt", vec(y.apply_inverse(pt))).kv("ipt2", vec<T,N>(pt / y));
                e.kv("vec", vec(y.apply_vector(vv))).kv("ivec", vec(y.apply_inverse_vector(vv)));
                e.kv("nrm", vec(y.apply_normal(vv))).kv("inrm", vec(y.apply_inverse_normal(vv)));
                Ray<T,N> r(pt, vv), a = y * r, b = r / y;
                e.kv("ray", std::vector<VL>{vec(a.origin), vec(a.direction)}).kv("iray", std::vector<VL>{vec(b.origin), vec(b.direction)});
                e.kv("dir", mat(y.direction_matrix()));
                e.done();
            }
        }
    }
};

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    int eps = atoi(argv[2]), len = atoi(argv[3]);
    for (int i = 0; i < eps; ++i) {
        ++vk::episode;
        switch (i % 5) {
            case 0: History<double,3>(g).run(len); break;
            case 1: History<double,2>(g).run(len); break;
            case 2: History<float,3>(g).run(len); break;
            case 3: History<double,4>(g).run(len); break;
            default: History<float,2>(g).run(len);
        }
    }
    vk::close();
}
