// Records what planes and simplexes say and become.   facet SEED COUNT
#include "shape.h"

template <index_t N> struct Facets {
    typedef P<N> Pt;
    vk::Rng& g; Draw d;
    Facets(vk::Rng& g):g(g), d{g} {}

    static std::string jps(const Pt* p, index_t n) { std::string o = "["; for (index_t i = 0; i < n; ++i) o += (i ? "," : "") + jv<N>(p[i]); return o + "]"; }
    static std::string jps(const Simplex<T,N>& s) { return jps(s.pts, s.n); }

    Pt normal() {
        if (g.chance(30)) { Pt a; a[g.in(0, N - 1)] = g.chance(50) ? 1 : -1; return a; }
        return d.template dir<N>(2);
    }
    Pt over(int span, int& q, V& w) {
        static const int qs[] = {1, 1, 2, 4, 3};
        q = qs[g.in(0, 4)];
        Pt p = d.template pt<N>(span * q);
        w = whole<N>(p);
        return p / q;
    }

    void plane() {
        Pt n = normal(), o = d.template pt<N>(3);
        int how = g.in(0, 9);
        vk::about("Plane with normal " + jv<N>(n) + " through " + jv<N>(o));
        Plane<T,N> pl;
        if (how == 0) { n = Pt(); n[0] = 1; o = Pt(); }
        else if (how == 1) { o = Pt(); pl = Plane<T,N>(n); }
        else pl = Plane<T,N>(n, o);
        std::string steps = "[";
        double grow = 2;
        bool any = false;
        for (int k = g.in(0, 3); k > 0; --k) {
            AffineTransform<T,N> xf = d.template map<N>();
            double row = 0;
            for (index_t i = 0; i < N; ++i) { double r = 0; for (index_t j = 0; j < N; ++j) r += std::abs(xf.mat(i,j)); row = std::max(row, r); }
            bool inv = g.chance(50);
            grow *= inv ? row : (N == 2 ? row : std::pow(row, N - 1));
            if (grow > 70) break;
            int f = g.in(0, 2);
            vk::about(std::string("Plane: ") + (inv ? "unapply " : "apply ") + jm<N>(xf));
            if (f == 0) { if (inv) pl.apply_inverse(xf); else pl.apply(xf); }
            else if (f == 1) { if (inv) pl /= xf; else pl *= xf; }
            else { pl = inv ? pl / xf : xf * pl; }
            steps += std::string(any ? "," : "") + "{" + jm<N>(xf) + ",\"inv\":" + (inv ? "true}" : "false}");
            any = true;
        }
        steps += "]";
        int dl = g.in(0, 2);
        Plane<T,N> dil = dilate(pl, (T)dl);
        std::string at = "[";
        for (int k = 0; k < 4; ++k) {
            int q; V w;
            Pt p = over(4, q, w);
            if (k == 0) { Pt s = pl.project(p); bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok && s[i] == std::floor(s[i]) && std::abs(s[i]) < 20; if (ok) { p = s; q = 1; w = whole<N>(p); } }
            at += std::string(k ? "," : "") + "{\"p\":" + js(w) + ",\"q\":" + std::to_string(q) + ",\"dist\":" + std::to_string(fx(pl.distance(p)))
                + ",\"sdf\":" + std::to_string(fx(pl.sdf(p))) + ",\"con\":" + (pl.contains(p) ? "true" : "false")
                + ",\"pr\":" + js(fixv<N>(pl.project(p))) + ",\"dil\":" + std::to_string(fx(dil.distance(p))) + "}";
        }
        Ev("Plane").kv("n", whole<N>(n)).kv("o", whole<N>(o)).raw("steps", steps).kv("nrm", fixv<N>(pl.normal)).kv("d", fx(pl.d))
            .kv("org", fixv<N>(pl.origin())).kv("dil", dl).raw("at", at + "]").done();
    }

    template <typename S> void against() {
        S s;
        d.make(s);
        Pt n = normal();
        // as good a place as any: about the middle, or at the far ends
        int k = g.in(-6, 6);
        int w = g.in(0, 3);
        if (w <= 1) k = (int)std::round((w ? s.convex_support(n) : s.convex_support(-n)).dot(n));
        Pt o; T m2 = n.mag2();
        o = n * (k / m2);
        vk::about("Plane against " + desc(s));
        Plane<T,N> pl(n, o);
        if (n.mag2() == 1) pl.d = -k;
        Ev("PlaneShape").raw("s", desc(s)).kv("n", whole<N>(n)).kv("k", k).kv("con", pl.contains(s)).kv("hit", pl.intersects(s)).done();
    }

    void hull() {
        Pt n = normal();
        int k = g.in(-3, 3), m = g.in(0, 6);
        Plane<T,N> pl(n, n * (k / n.mag2()));
        if (n.mag2() == 1) pl.d = -k;
        std::vector<Pt> pts;
        int side = g.in(0, 3);           // mostly on one side
        while ((int)pts.size() < m) {
            Pt p = d.template pt<N>(3);
            T o = p.dot(n) - k;
            if ((side == 1 && o > 0) || (side == 2 && o < 0) || (side == 3 && o <= 0 && pts.size() + 1 < (size_t)m)) { if (g.chance(97)) continue; }
            pts.push_back(p);
        }
        vk::about("Plane against a hull of " + std::to_string(m));
        Ev("Hull").kv("n", whole<N>(n)).kv("k", k).raw("pts", jps(pts.data(), m)).kv("hit", pl.intersects(pts.data(), m)).done();
    }

    void span() {
        Pt v[N], b[N];
        Simplex<T,N> s;
        d.make(s, N);
        for (index_t i = 0; i < N; ++i) v[i] = s.pts[i];
        for (index_t i = 1; i < N; ++i) b[i-1] = v[i] - v[0];
        vk::about("Plane spanning " + jps(v, N));
        int how = g.in(0, 2);
        Plane<T,N> pl = how == 0 ? Plane<T,N>::from_simplex(v) : how == 1 ? Plane<T,N>::from_basis(b, v[0]) : Plane<T,N>::from_basis(b);
        Ev("Span").raw("b", jps(b, N - 1)).kv("o", whole<N>(how == 2 ? Pt() : v[0])).kv("nrm", fixv<N>(pl.normal)).kv("d", fx(pl.d)).done();
    }

    void equal_planes() {
        Pt n, m; n[g.in(0, N - 1)] = g.chance(50) ? 1 : -1;
        m = n;
        if (g.chance(40)) { m = Pt(); m[g.in(0, N - 1)] = g.chance(50) ? 1 : -1; }
        int k = g.in(-1, 1), j = g.chance(60) ? k : g.in(-1, 1);
        Plane<T,N> a(n, n * (T)k), b(m, m * (T)j);
        Ev("PlaneEq").kv("n", whole<N>(n)).kv("m", whole<N>(m)).kv("k", k).kv("j", j).kv("eq", a == b).done();
    }

    // ------------------------------------------------------------------ simplexes
    Simplex<T,N> simplex(int n) {
        Simplex<T,N> s;
        if (n == N + 1 && g.chance(5)) return Simplex<T,N>::standard_simplex();
        if (g.chance(30)) {          // edges along axes, or around them
            s.insert(d.template pt<N>(N <= 3 ? 2 : 1));
            int ax[N]; for (int i = 0; i < N; ++i) ax[i] = i;
            for (int i = N - 1; i > 0; --i) std::swap(ax[i], ax[g.in(0, i)]);
            bool path = g.chance(50);
            for (int i = 1; i < n; ++i) { Pt e = s.pts[path ? i - 1 : 0]; e[ax[i-1]] += (g.chance(50) ? 1 : -1) * g.in(1, N <= 3 ? 3 : 1); s.insert(e); }
            return s;
        }
        if (N <= 3) { d.make(s, n); return s; }
        while (true) {
            s = Simplex<T,N>();
            Pt o = d.template pt<N>(1);
            s.insert(o);
            for (int i = 1; i < n; ++i) s.insert(o + d.template pt<N>(N > 4 || g.chance(80) ? 1 : 2));
            // independent?
            if (n == 1) return s;
            T gm[N * N];
            for (int i = 1; i < n; ++i) for (int j = 1; j < n; ++j) gm[(i-1) * (n-1) + j - 1] = (s.pts[i] - s.pts[0]).dot(s.pts[j] - s.pts[0]);
            if (det_destructive(gm, n - 1) > 0.1) return s;
        }
    }
    /// a point near it, over q
    Pt near(const Simplex<T,N>& s, int& q, V& w) {
        static const int qs[] = {1, 1, 2, 2, 3, 4};
        q = qs[g.in(0, N > 4 ? 2 : 5)];
        Pt p;
        int k = g.in(0, 5);
        if (k <= 3) {              // a combination of the vertices, maybe with some left out, and maybe moved away
            long sum = 0;
            std::vector<int> c(s.n);
            bool all = g.chance(40);          // of all of them
            for (auto& x : c) { x = all ? g.in(1, 2) : g.chance(40) ? 0 : g.in(g.chance(20) ? -1 : 0, 3); sum += x; }
            if (sum <= 0) { c[0] += 1 - sum; sum = 1; }
            for (index_t i = 0; i < s.n; ++i) p += s.pts[i] * c[i];
            if (all && sum <= 8 && g.chance(50)) q = sum;       // exactly
            p = p * q / (T)sum;
            for (index_t i = 0; i < N; ++i) p[i] = std::round(p[i]);
            if (k == 2) p += d.template pt<N>(q);
            if (k == 3) p[g.in(0, N - 1)] += g.in(-2 * q, 2 * q);
        } else p = d.template pt<N>((N > 4 ? 2 : N > 3 ? 3 : 5) * q);
        for (index_t i = 0; i < N; ++i) p[i] = std::min<T>((N > 4 ? 3 : 6) * q, std::max<T>((N > 4 ? -3 : -6) * q, p[i]));
        w = whole<N>(p);
        return p / q;
    }

    void size() {
        Simplex<T,N> s = simplex(g.in(2, N + 1));
        vk::about("size of " + desc(s));
        Ev("Size").raw("p", jps(s)).kv("vol", fx(s.volume())).kv("meas", fx(s.measure())).done();
    }
    void contains() {
        Simplex<T,N> s = simplex(g.chance(85) ? N + 1 : g.in(1, N));
        int q; V w; Pt p = near(s, q, w);
        vk::about("contains: " + desc(s));
        Ev("Contains").raw("p", jps(s)).kv("x", w).kv("q", q).kv("con", s.contains(p)).done();
    }
    void facing() {
        Simplex<T,N> s;
        int n = g.in(g.chance(5) ? 0 : 1, N + 1), q = 1; V w(N); Pt p, par;
        if (n) { s = simplex(n); p = near(s, q, w); }
        vk::about("is_facing: " + desc(s));
        bool r = g.chance(90) ? s.is_facing(p, &par) : s.is_facing(p);
        bool r2 = s.is_facing(p, &par);
        if (r != r2) vk::odd_number = true;
        Ev e("Facing");
        e.raw("p", jps(s)).kv("x", w).kv("q", q).kv("ret", r);
        V pv; for (index_t i = 0; i + 1 < n; ++i) pv.push_back(r ? fx(par[i]) : 0);
        e.kv("par", pv).done();
    }
    void project() {
        Simplex<T,N> s = simplex(g.chance(40) ? g.in(3, N + 1) : g.in(1, N + 1)), face;
        int q; V w; Pt p = near(s, q, w);
        bool clip = g.chance(40);
        vk::about(std::string(clip ? "clip " : "project ") + js(w) + " to " + desc(s));
        const Simplex<T,N> s0 = s;
        Pt r;
        if (clip && g.chance(30)) { r = s.clip(p, &s); face = s; }
        else if (clip) r = s0.clip(p, &face);
        else r = s0.project(p, &face);
        Pt r2 = clip ? s0.clip(p) : s0.project(p);
        if (!(r == r2)) vk::odd_number = true;
        Ev e("Project");
        e.kv("how", clip ? "clip" : "project").raw("p", jps(s0)).kv("x", w).kv("q", q).kv("pt", fixv<N>(r)).raw("face", jps(face));
        if (!clip) {
            Pt nn, nr;
            T sd = s0.sdf(p, &nn);
            nr = s0.normal(p);
            if (!(nn == nr) || s0.sdf(p) != sd) vk::odd_number = true;
            e.kv("sdf", fx(sd)).kv("nrm", fixv<N>(nr.is_zero() ? nr : nr.unit()));
        }
        e.done();
    }
    Simplex<T,N> cur;
    void edit() {
        if (cur.n == 0 || g.chance(5)) { cur = simplex(g.in(1, N + 1)); }
        Simplex<T,N> was = cur;
        int k = g.in(0, 8);
        Ev e("Edit");
        e.raw("p", jps(was)).kv("n", (long)N);
        vk::about("edit of " + desc(was));
        if (k <= 2) {
            Pt p = d.template pt<N>(3);
            if (k == 0) cur.insert(p); else if (k == 1) cur |= p; else { cur = was | p; }
            e.kv("how", k == 0 ? "insert" : k == 1 ? "|=" : "or").kv("x", whole<N>(p)).raw("out", jps(cur));
        } else if (k == 3) {
            int i = g.in(0, was.n - 1);
            Simplex<T,N> o = was.excluded(i);
            cur.exclude(i);
            if (o != cur) vk::odd_number = true;
            e.kv("how", "exclude").kv("i", i).raw("out", jps(cur));
        } else if (k == 4) {
            AffineTransform<T,N> xf = d.template map<N>();
            cur *= xf;
            e.kv("how", "map").raw("out", jps(cur)).raw("x", "0");
            e.s += "," + jm<N>(xf);
            bool back = g.chance(60);
            for (index_t i = 0; i < cur.n; ++i) for (index_t j = 0; j < N; ++j) if (std::abs(cur.pts[i][j]) > 6) back = true;
            if (back) cur = was;
        } else if (k == 5) {
            AffineTransform<T,N> xf = d.template map<N>();
            Simplex<T,N> img = was; for (index_t i = 0; i < was.n; ++i) img.pts[i] = xf * was.pts[i];
            // undo a map: the answer is whole
            Simplex<T,N> un = img; un /= xf;
            for (index_t i = 0; i < un.n; ++i) for (index_t j = 0; j < N; ++j) if (std::abs(un.pts[i][j] - std::round(un.pts[i][j])) < 1e-9) un.pts[i][j] = std::round(un.pts[i][j]);
            e = Ev("Edit");
            e.raw("p", jps(img)).kv("n", (long)N).kv("how", "unmap").raw("out", jps(un)).raw("x", "0");
            e.s += "," + jm<N>(xf);
        } else if (k == 7) {            // from points, perhaps more than can be kept
            int m = g.in(0, N + 2), form = g.in(0, 2);
            Pt q[N + 3];
            for (int i = 0; i < m; ++i) q[i] = d.template pt<N>(3);
            if (form == 0) m = std::min<int>(m, N + 1);
            if (form) m = std::min(m, 4);
            Simplex<T,N> o;
            if (form == 0) o = Simplex<T,N>(q, m);
            else if (m == 0) o = Simplex<T,N>(std::initializer_list<Pt>{});
            else if (m == 1) o = Simplex<T,N>({q[0]});
            else if (m == 2) o = {q[0], q[1]};
            else if (m == 3) o = Simplex<T,N>{q[0], q[1], q[2]};
            else o = {q[0], q[1], q[2], q[3]};
            e = Ev("Edit");
            e.raw("p", jps(q, m)).kv("n", (long)N).kv("how", "make").raw("out", jps(o));
        } else if (k == 8) {
            Pt x = d.template pt<N>(3);
            int i = g.in(0, was.n - 1);
            Simplex<T,N> o = was;
            o[i] = x;
            const Simplex<T,N>& c = o;
            for (index_t j = 0; j < o.n; ++j) if (!(c[j] == o.pts[j])) vk::odd_number = true;
            e.kv("how", "set").kv("i", i).kv("x", whole<N>(x)).raw("out", jps(o)).raw("std", jps(Simplex<T,N>::standard_simplex()));
        } else {
            Simplex<T,N> o = was;
            int c = g.in(0, 3);
            if (c == 1) o.pts[g.in(0, o.n - 1)][g.in(0, N - 1)] += 1;
            if (c == 2) { o.n -= 1; }
            if (c == 3 && o.n <= N) o.pts[o.n] = d.template pt<N>(2);       // beyond the end
            Simplex<T,N> w = was;
            if (g.chance(50)) std::swap(w, o);
            e = Ev("Edit");
            e.kv("n", (long)N).raw("p", jps(w));
            e.kv("how", "equal").raw("out", jps(o)).kv("eq", w == o).kv("ne", w != o);
        }
        e.done();
    }

    void all(int reps) {
        for (int i = 0; i < reps; ++i) {
            span(); size(); contains(); facing(); facing();
            for (int k = 0; k < (N > 4 ? 24 : N > 3 ? 10 : 6); ++k) project();
            if constexpr (N == 5) continue;
            else {
            plane(); hull(); equal_planes(); edit(); edit();
            against<Sphere<T,N>>(); against<Rect<T,N>>(); against<Capsule<T,N>>(); against<Cylinder<T,N>>(); against<Oriented<Rect<T,N>>>();
            if constexpr (N == 3) { against<Extruded<Sphere<T,2>>>(); against<Frustum<Rect<T,2>>>(); against<Dilated<Rect<T,3>>>(); }
            }
        }
    }
};

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(argc > 1 ? atoi(argv[1]) : 1);
    int reps = argc > 2 ? atoi(argv[2]) : 20;
    for (int r = 0; r < reps; ++r) {
        ++vk::episode;
        Facets<2>(g).all(3);
        Facets<3>(g).all(3);
        Facets<4>(g).all(2);
        Facets<5>(g).all(1);
    }
    vk::close();
}
