// Quaternions, rotations and polar coordinates.
//   rot SEED REPS
#include "vk.h"
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
using vk::Ev;
typedef std::vector<int> VI;
typedef std::vector<long long> VL;

static const int U = 1024;
static long long fx(double v) { return vk::fixed(v, U, 1e6); }
template <typename V> static VL vec(const V& v) { VL r; for (index_t i = 0; i < V::DIM; ++i) r.push_back(fx(v[i])); return r; }
template <typename V> static VL exact(const V& v) { VL r; for (index_t i = 0; i < V::DIM; ++i) r.push_back(vk::fixed(v[i], 1, 1e6)); return r; }

struct Ang { int c, s, h; };
// half angles, and how many of them stay below 90 and below 180 degrees
struct Half { Ang a; int q, p; };
static const Half HALVES[] = {{{4,3,5},2,4}, {{3,4,5},1,3}, {{12,5,13},3,3}, {{5,12,13},1,2}, {{0,1,1},0,1}, {{-3,4,5},0,1}, {{-4,3,5},0,1}, {{1,0,1},4,4}, {{-1,0,1},0,1}};
static const Ang ANGLES[] = {{1,0,1},{0,1,1},{-1,0,1},{0,-1,1},{3,4,5},{4,-3,5},{-3,4,5},{-4,-3,5},{12,5,13},{-5,-12,13}};
static const int AXES[][4] = {{1,0,0,1},{0,1,0,1},{0,0,1,1},{0,0,-2,2},{-3,0,0,3},{1,2,2,3},{2,-1,2,3},{-2,-2,1,3},{0,3,4,5},{2,3,-6,7},{-4,4,7,9}};
static const int UNITS[][3] = {{1,2,2},{2,-1,2},{-2,-2,1},{3,0,0},{0,3,0},{0,0,-3},{0,-3,0},{-1,-2,-2},{-2,1,-2},{-3,0,0},{0,0,3}};

template <typename T> struct Rot {
    typedef Quat<T> Q;
    typedef Vec<T,3> V3;
    typedef Vec<T,2> V2;
    vk::Rng& g;
    int tol = sizeof(T) == 4 ? 3 : 1;
    Rot(vk::Rng& g) : g(g) {}

    VI ints(int n, int w) { VI v; for (int i = 0; i < n; ++i) v.push_back(g.in(-w, w)); return v; }
    static Q quat(const VI& v) { return Q(v[0], v[1], v[2], v[3]); }
    static V3 v3(const VI& v) { return V3(v[0], v[1], v[2]); }
    T rad(const Ang& a) { T th = std::atan2((T)a.s, (T)a.c); if (g.chance(15)) th += 2 * M_PI; else if (g.chance(15)) th -= 2 * M_PI; return th; }
    static Q axis_quat(const int* u, const Ang& a, int k) {
        double b = k * std::atan2((double)a.s, (double)a.c), s = std::sin(b), L = u[3];
        return Q(u[0] / L * s, u[1] / L * s, u[2] / L * s, std::cos(b));
    }
    static void put(Ev& e, const int* u, const Ang& a) { e.kv("u", VI(u, u + 3)).kv("L", u[3]).kv("c", a.c).kv("s", a.s).kv("h", a.h); }

    // a unit quaternion but for rounding
    static Q over(const int* u) { T e = std::numeric_limits<T>::epsilon(); return Q(u[0] * e, u[1] * e, u[2] * e, 1 + 2 * e); }
    // in tolerances
    int miss(const V3& d) { return (int)std::min(1000., std::ceil(std::max({std::abs((double)d.x), std::abs((double)d.y), std::abs((double)d.z)}) / (sizeof(T) == 4 ? 2e-5 : 1e-7))); }

    void step() {
        int op = g.in(0, 21);
        auto& half = HALVES[g.in(0, 8)];
        const Ang& h = half.a;
        const Ang& a = ANGLES[g.in(0, 9)];
        const int* u = AXES[g.in(0, 10)];
        V3 axis(u[0], u[1], u[2]);
        vk::about("rotation op " + std::to_string(op));
        if (op <= 1) {
            VI p = ints(4, 4), q = ints(4, 4), v = ints(3, 5);
            Q x = quat(p), y = quat(q);
            Ev e("Mul");
            e.kv("p", p).kv("q", q).kv("v", v).kv("ret", exact(x * y)).kv("ret2", exact(x.mult(y)));
            e.kv("conj", exact(x.conj())).kv("conj2", exact(std::conj(x))).kv("im", exact(x.imag())).kv("re", vk::fixed(x.real(), 1));
            e.kv("fwd", exact(x * v3(v))).kv("bwd", exact(v3(v) * x));
            e.done();
        } else if (op == 2) {
            std::vector<VI> qs;
            VI v = ints(3, 5);
            Q x = Q::identity();
            int n = g.in(1, 3);
            for (int i = 0; i < n; ++i) {
                VI q;
                do q = ints(4, 2); while (q == VI(4, 0));
                qs.push_back(q);
                x = quat(q).unit() * x;
            }
            Ev e("Chain");
            e.kv("tol", 2 * tol).kv("qs", qs).kv("v", v).kv("fwd", vec(x * v3(v))).kv("bwd", vec(v3(v) * x));
            e.done();
        } else if (op == 3) {
            if (g.chance(10)) { Q r = Q::rotation_from_axis_angle(V3(), rad(h)); Ev e("NoAxis"); e.kv("ret", vec(r)); e.done(); return; }
            int k = g.in(-half.p, half.p);
            Ang b = {h.c, k < 0 ? -h.s : h.s, h.h};
            T th = 2 * k * std::atan2((T)h.s, (T)h.c);
            Q r = Q::rotation_from_axis_angle(axis, th);
            Ev e("AxisAngle");
            put(e, u, b);
            e.kv("k", std::abs(k)).kv("tol", tol).kv("ret", vec(r));
            e.done();
        } else if (op == 4 || op == 5) {
            const int* w = UNITS[g.in(0, 10)];
            const int* z = UNITS[g.in(0, 10)];
            VI wi(w, w + 3), zi(z, z + 3);
            if (g.chance(30)) for (int i = 0; i < 3; ++i) zi[i] = -wi[i];
            V3 from = v3(wi) / 3, to = v3(zi) / 3;
            bool near = false;
            if (wi[0] == -zi[0] && wi[1] == -zi[1] && wi[2] == -zi[2] && g.chance(50)) {
                // nearly opposed
                near = true;
                V3 d((T)g.in(-2, 2), (T)g.in(-2, 2), (T)g.in(-2, 2));
                to = (to + d * (T)std::pow(10, -g.in(2, 17))).unit();
            }
            if (op == 4) {
                Q r = Q::rotation_direction_align(from, to);
                Ev e("Align");
                e.kv("u", wi).kv("v", zi).kv("L", 3).kv("tol", tol + 1).kv("ret", vec(r)).kv("near", near).kv("miss", miss(r * from - to));
                e.done();
            } else {
                V3 c[3];
                for (int i = 0; i < 3; ++i) { V3 b; b[i] = 1; c[i] = b.align(from, to); }
                std::vector<VL> m;
                for (int i = 0; i < 3; ++i) m.push_back(VL{fx(c[0][i]), fx(c[1][i]), fx(c[2][i])});
                Ev e("AlignVec");
                e.kv("u", wi).kv("v", zi).kv("L", 3).kv("tol", tol + 1).kv("mat", m).kv("near", near).kv("miss", miss(V3(from).align(from, to) - to));
                e.done();
            }
        } else if (op == 6) {
            int k = g.in(0, half.p);
            Q q = axis_quat(u, h, k);
            if (h.s == 0) q = Q(0, 0, 0, k % 2 ? h.c : 1);
            if (k == 0 && g.chance(50)) q = over(u);
            Vec<T,4> r = q.to_axis_angle_rotation();
            Ev e("ToAxis");
            put(e, u, h);
            e.kv("k", k).kv("tol", tol).kv("axis", vec(r.template resized<3>())).kv("cos", fx(std::cos((double)r.w / 2))).kv("sin", fx(std::sin((double)r.w / 2))).kv("ang", fx(r.w));
            e.done();
        } else if (op == 7) {
            int k = g.in(0, half.p);
            Q q = axis_quat(u, h, k);
            if (h.s == 0 || k == 0) q = Q(0, 0, 0, k % 2 ? h.c : 1);
            V3 r = q.to_angular_velocity();
            double m = std::sqrt((double)r.x * r.x + (double)r.y * r.y + (double)r.z * r.z);
            Ev e("AngVel");
            put(e, u, h);
            e.kv("k", k).kv("tol", tol).kv("axis", m == 0 ? vec(r) : vec(V3(r / m))).kv("cos", fx(std::cos(m / 2))).kv("sin", fx(std::sin(m / 2)));
            e.done();
        } else if (op == 8) {
                        if (h.s == 0 && h.c < 0) return;
            int k = g.in(1, half.p), j = g.in(0, k);
            Q q = axis_quat(u, h, k);
            if (h.s == 0) q = g.chance(50) ? over(u) : Q(0, 0, 0, 1);
            Ev e("Scale");
            put(e, u, h);
            e.kv("j", j).kv("k", k).kv("tol", tol).kv("ret", vec(q.rotation_scale((T)j / k)));
            e.done();
        } else if (op == 9 || op == 10) {
            static const int QU[][5] = {{0,0,0,1,1},{1,1,1,1,2},{1,-1,1,-1,2},{0,2,-1,2,3},{4,2,2,1,5},{-2,0,2,1,3},{0,0,-1,0,1},{3,0,4,0,5},{1,1,-1,1,2}};
            const int* pi = QU[g.in(0, 8)];
            Q p = Q(pi[0], pi[1], pi[2], pi[3]) / pi[4];
            if (op == 10 && half.q > 0) {
                int k = g.in(1, half.q), j = g.in(0, k);
                Q end = p * axis_quat(u, h, k);
                if (h.s == 0) end = g.chance(50) ? p * over(u) : p;
                if (g.chance(40)) end = -end;
                Ev e("Slerp");
                put(e, u, h);
                e.kv("p", VI(pi, pi + 4)).kv("pm", pi[4]).kv("j", j).kv("tol", tol).kv("ret", vec(p.slerp(end, (T)j / k)));
                e.done();
                return;
            }
            const int* qi = QU[g.in(0, 8)];
            Q q = Q(qi[0], qi[1], qi[2], qi[3]) / qi[4];
            Ev e("SlerpEnds");
            e.kv("p", VI(pi, pi + 4)).kv("pm", pi[4]).kv("q", VI(qi, qi + 4)).kv("qm", qi[4]).kv("tol", tol);
            e.kv("at0", vec(p.slerp(q, 0))).kv("at1", vec(p.slerp(q, 1))).kv("mid", vec(p.slerp(q, (T)0.5)));
            e.done();
        } else if (op == 11) {
            int k = g.in(0, half.p), ex = g.in(-2, 3);
            T b = k * std::atan2((T)h.s, (T)h.c);
            Q q(axis / (T)u[3] * b, ex * std::log((T)2));
            Ev e("Exp");
            put(e, u, h);
            e.kv("k", k).kv("e", ex).kv("tol", 4 * tol).kv("ret", vec(q.exp())).kv("ret2", vec(std::exp(q)));
            e.done();
        } else if (op == 12) {
            int k = g.in(0, half.p), ex = g.in(-2, 3);
            Q q = axis_quat(u, h, k) * (T)std::pow(2, ex);
            if (k == 0) q = Q(0, 0, 0, std::pow(2, ex));
            if (h.s == 0) q = Q(0, 0, 0, (k % 2 ? h.c : 1) * std::pow(2, ex));
            Q r = q.log();
            double m = std::sqrt((double)r.x * r.x + (double)r.y * r.y + (double)r.z * r.z);
            Ev e("Log");
            put(e, u, h);
            e.kv("k", k).kv("e", ex).kv("tol", 4 * tol).kv("ret", vec(r)).kv("ret2", vec(std::log(q))).kv("re", fx(std::exp((double)r.w)));
            e.kv("axis", m == 0 ? vec(r.imag()) : vec(V3(r.imag() / m))).kv("cos", fx(std::cos(m))).kv("sin", fx(std::sin(m))).kv("ang", fx(m));
            e.done();
        } else if (op == 13) {
            int k = g.in(1, half.p), j = g.in(-k, k), ex = g.in(-1, 1);
            if (g.chance(40)) k = 1, j = g.in(-3, 3);
            Q q = axis_quat(u, h, k) * (T)std::pow(2, ex * k);
            if (h.s == 0) q = Q(0, 0, 0, (k % 2 ? h.c : 1) * std::pow(2, ex * k));
            Q r = k == 1 && g.chance(50) ? std::pow(q, j) : std::pow(q, (T)j / k);
            Ev e("Pow");
            put(e, u, h);
            e.kv("j", j).kv("e", ex).kv("tol", 8 * tol).kv("ret", vec(r));
            e.done();
        } else if (op == 14 || op == 15) {
            VI v = ints(3, 5);
            T th = rad(a);
            Ev e("Spin");
            put(e, u, a);
            e.kv("v", v).kv("tol", 6 * tol);
            if (op == 14) e.kv("ret", vec(v3(v).rotate(axis, th))).kv("ret2", vec(v3(v).rotate(axis.x, axis.y, axis.z, th)));
            else {
                VI c = ints(3, 4);
                e.kv("ctr", c).kv("ret", vec(v3(v).rotate(axis, v3(c), th))).kv("ret2", vec(v3(v).rotate(axis.x, axis.y, axis.z, (T)c[0], (T)c[1], (T)c[2], th)));
            }
            e.done();
        } else if (op == 16) {
            VI v = ints(2, 5);
            T th = rad(a);
            V2 x(v[0], v[1]);
            Ev e("Turn2");
            e.kv("c", a.c).kv("s", a.s).kv("h", a.h).kv("v", v).kv("tol", 4 * tol);
            if (g.chance(50)) e.kv("ret", vec(x.rotated(th)));
            else { VI c = ints(2, 4); e.kv("ctr", c).kv("ret", vec(x.rotate(V2(c[0], c[1]), th))); }
            e.done();
        } else if (op == 17) {
            static const int S[][5] = {{3,4,0,5,5},{0,0,2,2,0},{0,0,-3,3,0},{-3,4,12,13,5},{4,-3,-12,13,5},{-5,12,0,13,13},{-1,0,0,1,1},{0,-2,0,2,2},{8,6,24,26,10},{-8,-6,0,10,10},{0,5,-12,13,5}};
            if (g.chance(50)) {
                const int* s = S[g.in(0, 10)];
                V3 v(s[0], s[1], s[2]), r = v.to_spherical(), b = V3::from_spherical(r.x, r.y, r.z);
                Ev e("Spherical");
                e.kv("v", VI(s, s + 3)).kv("L", s[3]).kv("M", s[4]).kv("tol", 5 * tol).kv("r", fx(r.x)).kv("ce", fx(std::cos((double)r.y))).kv("se", fx(std::sin((double)r.y)));
                e.kv("ca", fx(std::cos((double)r.z))).kv("sa", fx(std::sin((double)r.z))).kv("elev", fx(r.y)).kv("azi", fx(r.z)).kv("back", vec(b));
                e.done();
            } else {
                const Ang& b = ANGLES[g.in(0, 9)];
                int r = g.in(0, 5);
                V3 v = V3::from_spherical(r, rad(a), rad(b));
                Ev e("FromSpherical");
                e.kv("r", r).kv("c", a.c).kv("s", a.s).kv("h", a.h).kv("c2", b.c).kv("s2", b.s).kv("h2", b.h).kv("tol", 4 * tol).kv("ret", vec(v));
                e.done();
            }
        } else if (op == 18) {
            int r = g.in(1, 5);
            if (g.chance(50)) {
                V2 v(r * a.c, r * a.s), p = v.to_polar(), b = p.from_polar();
                Ev e("Polar");
                e.kv("v", VI{r * a.c, r * a.s}).kv("L", r * a.h).kv("tol", 20 * tol).kv("r", fx(p.x)).kv("ang", fx(p.y)).kv("ang2", fx(v.angle()));
                e.kv("ca", fx(std::cos((double)p.y))).kv("sa", fx(std::sin((double)p.y))).kv("back", vec(b));
                e.done();
            } else {
                V2 v = V2(r, rad(a)).from_polar();
                Ev e("FromPolar");
                e.kv("r", r).kv("c", a.c).kv("s", a.s).kv("h", a.h).kv("tol", 4 * tol).kv("ret", vec(v));
                e.done();
            }
        } else if (op == 19) {
            const int* w = AXES[g.in(0, 10)];
            int f = g.chance(50) ? 1 : g.in(1, 3), sgn = g.chance(20) ? -1 : 1;
            if (g.chance(20)) w = u;
            V3 z(sgn * f * w[0], sgn * f * w[1], sgn * f * w[2]);
            T r = axis.angle_to(z), r2 = z.angle_to(axis);
            Ev e("AngleTo");
            e.kv("u", VI(u, u + 3)).kv("L", u[3]).kv("v", VI{sgn * f * w[0], sgn * f * w[1], sgn * f * w[2]}).kv("M", f * w[3]).kv("tol", tol);
            e.kv("cos", fx(std::cos((double)r))).kv("cos2", fx(std::cos((double)r2))).kv("ang", fx(r));
            e.done();
        } else if (op == 20) {
            // rotation matrices, about the axes of the frame or about u
            T th = rad(a);
            int w = g.in(0, 3), form = g.in(0, 2);
            SimpleMatrix<T,4,4> m4;
            std::vector<std::vector<long long>> out;
            VI ax = w < 3 ? VI{w == 0, w == 1, w == 2} : VI(u, u + 3);
            int L = w < 3 ? 1 : u[3];
            auto rows = [&](const auto& m) { for (index_t i = 0; i < m.rows(); ++i) { out.emplace_back(); for (index_t j = 0; j < m.cols(); ++j) out.back().push_back(fx(m(i, j))); } };
            if (g.chance(30)) for (int i = 0; i < 16; ++i) m4.begin()[i] = 7;
            Ev e("Rotmat");
            if (w < 3 && form == 0) rows(w == 0 ? rotmat_x(th) : w == 1 ? rotmat_y(th) : rotmat_z(th));
            else if (w < 3 && form == 1) { if (w == 0) rotmat_x(&m4, th); else if (w == 1) rotmat_y(&m4, th); else rotmat_z(&m4, th); rows(m4); }
            else if (form == 2) {
                VI c = ints(3, 4);
                V3 un = v3(ax) / L;
                if (g.chance(50)) rotmat(&m4, un, v3(c), th);
                else { SimpleMatrix<T,4,4> inv; rotmat(&m4, &inv, un, v3(c), th); }
                e.kv("ctr", c);
                rows(m4);
            } else { rotmat(&m4, V3(v3(ax) / L), th); rows(m4); }
            e.kv("u", ax).kv("L", L).kv("c", a.c).kv("s", a.s).kv("h", a.h).kv("tol", 6 * tol).kv("mat", out);
            e.done();
        } else {
            VI p = ints(4, 1), q = g.chance(50) ? p : ints(4, 1);
            Q x = quat(p), y = quat(q);
            Quat<float> f = y;
            Quat<double> d = y;
            bool odd = vk::odd_number;
            Ev e("Casts");
            e.kv("p", p).kv("q", q).kv("f", exact(f)).kv("d", exact(d)).kv("ident", exact(Q::identity())).kv("eq", x == y).kv("hash", std::hash<Q>()(x) == std::hash<Q>()(y));
            e.done();
        }
    }
};

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    int n = atoi(argv[2]);
    for (int i = 0; i < n; ++i) {
        if (g.chance(60)) Rot<double>(g).step();
        else Rot<float>(g).step();
    }
    vk::close();
}
