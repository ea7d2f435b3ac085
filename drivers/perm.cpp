// Drives PermutationMatrix through walks of the specification and random histories.
//   perm SEED EPISODES LEN    with -DSIZE=N (static dimension) or -DDYN (N given by each history)
#include "vk.h"
#include <iostream>
#include <geomc/linalg/Matrix.h>
using namespace geom;

#ifdef DYN
using PMx = PermutationMatrix<DYNAMIC_DIM>;
using Mx = SimpleMatrix<int, DYNAMIC_DIM, DYNAMIC_DIM>;
#else
using PMx = PermutationMatrix<SIZE>;
using Mx = SimpleMatrix<int, SIZE, SIZE>;
#endif
static int n =
#ifdef DYN
    3;
static PMx fresh_p() { return PMx(n); }
static Mx fresh_m() { return Mx(n, n); }
#else
    SIZE;
static PMx fresh_p() { return PMx(); }
static Mx fresh_m() { return Mx(); }
#endif

struct Cmd { std::string op; int s = 0, t = 0, u = 0, a = 0, b = 0; std::vector<index_t> q; int mode = 0; };

static std::vector<PMx> P;

static std::vector<long> arr(const index_t* p) { return std::vector<long>(p, p + n); }

static void log(vk::Ev& e) {
    e.key("st");
    e.s += "[";
    for (size_t k = 0; k < P.size(); ++k) {
        if (k) e.s += ",";
        const PMx& p = P[k];
        std::vector<std::vector<int>> m(n, std::vector<int>(n));
        for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) m[r][c] = p(r, c) ? 1 : 0;
        e.s += "{\"rs\":"; vk::Ev::emit(e.s, arr(p.getRowSources()));
        e.s += ",\"cs\":"; vk::Ev::emit(e.s, arr(p.getColSources()));
        e.s += ",\"rd\":"; vk::Ev::emit(e.s, arr(p.getRowDestinations()));
        e.s += ",\"cd\":"; vk::Ev::emit(e.s, arr(p.getColDestinations()));
        e.s += ",\"m\":"; vk::Ev::emit(e.s, m);
        e.s += ",\"rows\":" + std::to_string((long)p.rows()) + ",\"cols\":" + std::to_string((long)p.cols()) + "}";
    }
    e.s += "]";
    e.kv("same", P[0] == P[1]).kv("differ", P[0] != P[1]);
    e.done();
}

static std::vector<std::vector<int>> grid(const Mx& m) {
    std::vector<std::vector<int>> g(n, std::vector<int>(n));
    for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) g[r][c] = m(r, c);
    return g;
}

template <index_t N> static void vectorsN(vk::Ev& e, const PMx& p) {
    Vec<int,N> v;
    for (int i = 0; i < N; ++i) v[i] = 20 + i;
    std::vector<std::vector<int>> pv, vp;
    auto out = [](const auto& x) {
        std::vector<int> r;
        if constexpr (requires { x.rows(); }) { for (index_t i = 0; i < x.rows(); ++i) for (index_t j = 0; j < x.cols(); ++j) r.push_back(x(i, j)); }
        else for (index_t i = 0; i < N; ++i) r.push_back(x[i]);
        return r;
    };
    pv.push_back(out(p * v));
    vp.push_back(out(v * p));
    { Vec<int,N> d; mul(&d, p, v); pv.push_back(out(d)); mul(&d, v, p); vp.push_back(out(d)); }
    { Vec<int,N> d = v; mul(&d, p, d); pv.push_back(out(d)); d = v; mul(&d, d, p); vp.push_back(out(d)); }
    { SimpleMatrix<int,N,1> d; mul(&d, p, v); pv.push_back(out(d)); SimpleMatrix<int,1,N> f; mul(&f, v, p); vp.push_back(out(f)); }
    { SimpleMatrix<int,0,0,COL_MAJOR> d(N, 1); mul(&d, p, v); pv.push_back(out(d)); SimpleMatrix<int,0,0> f(1, N); mul(&f, v, p); vp.push_back(out(f)); }
    e.kv("v", out(v)).kv("pv", pv).kv("vp", vp);
}
static void vectors(vk::Ev& e, const PMx& p) {
#ifdef DYN
    switch (n) {
        case 2: vectorsN<2>(e, p); break;
        case 3: vectorsN<3>(e, p); break;
        case 4: vectorsN<4>(e, p); break;
        case 5: vectorsN<5>(e, p); break;
        case 6: vectorsN<6>(e, p); break;
        default: { std::vector<int> none; std::vector<std::vector<int>> empty; e.kv("v", none).kv("pv", empty).kv("vp", empty); }
    }
#else
    vectorsN<SIZE>(e, p);
#endif
}
// matrices of other shapes, layouts and kinds, each with its products
static void rectangles(vk::Ev& e, const PMx& p) {
    auto cells = [](const auto& m) {
        std::vector<std::vector<int>> g(m.rows());
        for (index_t r = 0; r < m.rows(); ++r) for (index_t c = 0; c < m.cols(); ++c) g[r].push_back(m(r, c));
        return g;
    };
    int k = 0;
    auto fill = [&](auto& m) { for (index_t r = 0; r < m.rows(); ++r) for (index_t c = 0; c < m.cols(); ++c) m.set(r, c, 30 + ++k); };
    std::vector<std::vector<std::vector<int>>> A, pa, B, bp;
    auto left = [&](const auto& m) {
        A.push_back(cells(m)); pa.push_back(cells(p * m));
        SimpleMatrix<int,0,0,COL_MAJOR> d(n, m.cols()); fill(d); mul(&d, p, m); A.push_back(cells(m)); pa.push_back(cells(d));
        SimpleMatrix<int,0,0> f(n, m.cols()); fill(f); mul(&f, p, m); A.push_back(cells(m)); pa.push_back(cells(f));
    };
    auto right = [&](const auto& m) {
        B.push_back(cells(m)); bp.push_back(cells(m * p));
        SimpleMatrix<int,0,0,COL_MAJOR> d(m.rows(), n); fill(d); mul(&d, m, p); B.push_back(cells(m)); bp.push_back(cells(d));
        SimpleMatrix<int,0,0> f(m.rows(), n); fill(f); mul(&f, m, p); B.push_back(cells(m)); bp.push_back(cells(f));
    };
    { SimpleMatrix<int,0,2> m(n, 2); fill(m); left(m); }
    { SimpleMatrix<int,0,0,COL_MAJOR> m(n, 3); fill(m); left(m); }
    { SimpleMatrix<int,2,0> m(2, n); fill(m); right(m); }
    { SimpleMatrix<int,0,0,COL_MAJOR> m(3, n); fill(m); right(m); }
    { DiagMatrix<int,0,0> m(n, n); for (int i = 0; i < n; ++i) m.diagonal_begin()[i] = 40 + i; left(m); right(m); }
    { SimpleMatrix<int,0,0> m(n, n); fill(m); auto x = m; mul(&x, p, x); A.push_back(cells(m)); pa.push_back(cells(x)); x = m; mul(&x, x, p); B.push_back(cells(m)); bp.push_back(cells(x)); }
    auto put = [&](const char* key, auto& v) {
        e.key(key); e.s += "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) e.s += ","; vk::Ev::emit(e.s, v[i]); }
        e.s += "]";
    };
    put("A", A); put("pa", pa); put("B", B); put("bp", bp);
}

static void exec(const Cmd& c) {
    vk::about(c.op);
    vk::Ev e(c.op.c_str());
    e.kv("s", c.s + 1).kv("t", c.t + 1).kv("u", c.u + 1).kv("a", c.a).kv("b", c.b);
    PMx& p = P[c.s];
    const std::string& o = c.op;
    if (o == "SetIdentity") p.set_identity();
    else if (o == "SetRowSources" || o == "SetColDestinations" || o == "SetColSources" || o == "SetRowDestinations") {
        std::vector<index_t> q = c.q;
        // the map may be one a matrix already holds, this matrix included
        const index_t* m = q.data();
        if (c.mode & 1) { m = (c.mode & 2) ? P[c.t].getRowSources() : P[c.t].getColSources(); q.assign(m, m + n); }
        e.kv("q", q);
        if (o == "SetRowSources") p.setRowSources(m);
        else if (o == "SetColDestinations") p.setColDestinations(m);
        else if (o == "SetColSources") p.setColSources(m);
        else p.setRowDestinations(m);
    }
    else if (o == "SwapRows") p.swap_rows(c.a, c.b);
    else if (o == "SwapCols") p.swap_cols(c.a, c.b);
    else if (o == "Transpose") p.transpose();
    else if (o == "Sign") { index_t s = p.sign(); e.kv("ret", (long) s); }
    else if (o == "Copy" && (c.mode & 1)) mtxcopy(&p, P[c.t]);
    else if (o == "Copy" && (c.mode & 2)) p = P[c.t];
    else if (o == "TransposeOf" && (c.mode & 1)) transpose(&p, P[c.t]);
    else if (o == "InvOf" && (c.mode & 1)) { if (!inv(&p, P[c.t])) e.kv("nan", 1); }
    else if (o == "InvOf" && (c.mode & 2)) { bool ok = false; p = inv(P[c.t], &ok); if (!ok) e.kv("nan", 1); }
    else if (o == "Mul" && (c.mode & 1)) mul(&p, P[c.t], P[c.u]);
    else if (o == "Copy") { PMx q(P[c.t]); p = q; }
    else if (o == "TransposeOf") { PMx q = transpose(P[c.t]); p = q; }
    else if (o == "InvOf") { PMx q = fresh_p(); bool ok = inv(&q, P[c.t]); if (ok) p = q; }
    else if (o == "Mul") {
        PMx q = P[c.t] * P[c.u];
        Mx general = fresh_m();
        mul(&general, P[c.t], P[c.u]);
        bool same = true;
        for (int r = 0; r < n; ++r) for (int k = 0; k < n; ++k) if (general(r, k) != (q(r, k) ? 1 : 0)) same = false;
        if (!same) e.kv("nan", 1);
        p = q;
    }
    else if (o == "Apply") {
        Mx m = fresh_m();
        int v = 0;
        for (int r = 0; r < n; ++r) for (int k = 0; k < n; ++k) m(r, k) = ++v;
        Mx pm = p * m, mp = m * p;
        e.kv("m", grid(m)).kv("pm", grid(pm)).kv("mp", grid(mp)).kv("mt", grid(m));
        vectors(e, p);
        rectangles(e, p);
        std::vector<index_t> idx(p.getRowSources(), p.getRowSources() + n);
        std::vector<int> seq(n), moved(n);
        for (int i = 0; i < n; ++i) moved[i] = seq[i] = 10 + i;
        permutation_apply(idx.data(), n, moved.begin());
        e.kv("seq", seq).kv("moved", moved).kv("left", std::vector<long>(idx.begin(), idx.end()));
        std::vector<index_t> idx2(p.getRowSources(), p.getRowSources() + n);
        long sg = permutation_sign(idx2.data(), n);
        for (int i = 0; i < n; ++i) if (idx2[i] != i) sg = 99;
        if (sg != det(p)) sg = 98;
        e.kv("sgn", sg);
    }
    log(e);
}

static void begin(int slots) {
    ++vk::episode;
    vk::Ev e("Reset");
    e.kv("n", n);
    e.done();
    P.clear();
    for (int i = 0; i < slots; ++i) P.push_back(fresh_p());
}

int main(int argc, char** argv) {
    vk::open();
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    int eps = atoi(argv[2]), len = atoi(argv[3]);
    static const int SLOTS = 2;
    std::string line;
    bool open = false;
    while (std::getline(std::cin, line)) {
        if (line == "--") { open = false; continue; }
        if (!open) { begin(SLOTS); open = true; }
        std::istringstream is(line);
        Cmd c;
        is >> c.op >> c.s >> c.t >> c.u >> c.a >> c.b;
        long x;
        while (is >> x) c.q.push_back(x);
        exec(c);
    }
    vk::Rng rng(seed);
    for (int k = 0; k < eps; ++k) {
#ifdef DYN
        n = rng.in(1, 7);
#endif
        begin(SLOTS);
        for (int i = 0; i < len; ++i) {
            static const char* ops[] = {"SwapRows", "SwapCols", "SwapRows", "SwapCols", "Transpose", "Sign", "Sign", "Apply", "Copy",
                "TransposeOf", "InvOf", "Mul", "Mul", "SetIdentity", "SetRowSources", "SetColSources", "SetRowDestinations", "SetColDestinations"};
            Cmd c;
            c.op = ops[rng.in(0, 17)];
            c.s = rng.in(0, SLOTS - 1); c.t = rng.in(0, SLOTS - 1); c.u = rng.in(0, SLOTS - 1);
            c.mode = rng.in(0, 3);
            c.a = rng.in(0, n - 1); c.b = rng.in(0, n - 1);
            for (int j = 0; j < n; ++j) c.q.push_back(j);
            for (int j = n - 1; j > 0; --j) std::swap(c.q[j], c.q[rng.in(0, j)]);
            exec(c);
        }
    }
    vk::close();
    _exit(0);
}
