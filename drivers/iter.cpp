// Grid iterators, and matrices walked over and written to in every way they offer.
#include "vk.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/GridIterator.h>

using namespace geom;
using vk::Ev;
using L = long long;

template <typename T, index_t N>
std::vector<L> pv(const Vec<T,N>& p) { std::vector<L> v; for (index_t i = 0; i < N; ++i) v.push_back(p[i]); return v; }
template <typename T> std::vector<L> pv(T p) requires std::is_integral_v<T> { return {(L)p}; }

template <typename T, index_t N>
typename PointType<T,N>::point_t mk(const std::vector<int>& v) {
    if constexpr (N == 1) return v[0];
    else { Vec<T,N> p; for (index_t i = 0; i < N; ++i) p[i] = v[i]; return p; }
}

template <typename T, index_t N, ArrayOrder O>
void grid(vk::Rng& rng, std::vector<int> lo, std::vector<int> hi, int moves) {
    typedef GridIterator<T,N,O> It;
    typedef typename It::point_t P;
    P l = mk<T,N>(lo), h = mk<T,N>(hi);
    Rect<T,N> r(l, h);
    bool first = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE;
    vk::about("grid sweep");
    L vol = 1;
    for (index_t i = 0; i < N; ++i) vol *= hi[i] - lo[i] + 1;
    It a = rng.chance(50) ? It(r) : It(l, (P)(h + P(1)));
    std::vector<std::vector<L>> fwd, rev;
    L guard = 0;
    for (It i = a.begin(); i != a.end() && guard++ < 2 * vol + 5; ++i) fwd.push_back(pv(*i));
    guard = 0;
    for (It i = a.end(); i != a.begin() && guard++ < 2 * vol + 5;) { i--; rev.push_back(pv(*i)); }
    Ev("sweep").kv("lo", lo).kv("hi", hi).kv("first", first).kv("fwd", fwd).kv("rev", rev).kv("size", (L)(a.end() - a.begin())).done();
    for (int m = 0; m < moves; ++m) {
        L at = rng.in(0, vol), to;
        It i = a.begin();
        for (L k = 0; k < at; ++k) ++i;
        It was = i;
        int w = rng.in(0, 5);
        L n = 0;
        const char* did;
        vk::about("grid move");
        if (w == 0 && at < vol) { did = "inc"; if (rng.chance(50)) ++i; else i++; to = at + 1; }
        else if (w == 1 && at > 0) { did = "dec"; if (rng.chance(50)) --i; else i--; to = at - 1; }
        else if (w == 2) { did = "begin"; P p = *(i.begin()); i.pt = p; to = 0; }
        else if (w == 3) { did = "end"; P p = *(i.end()); i.pt = p; to = vol; }
        else {
            to = rng.in(0, vol);
            n = to - at;
            if (rng.chance(50)) { did = "add"; if (rng.chance(50)) i += n; else { P p = *(i + n); i.pt = p; } }
            else { did = "sub"; n = -n; if (rng.chance(50)) i -= n; else { P p = *(i - n); i.pt = p; } }
        }
        Ev("grid").kv("lo", lo).kv("hi", hi).kv("first", first).kv("at", pv(*was)).kv("did", did).kv("n", n).kv("pt", pv(*i))
            .kv("frombegin", (L)(i - a.begin())).kv("toend", (L)(a.end() - i)).kv("moved", (L)(i - was))
            .kv("iseq", i == was).kv("isend", i == a.end()).kv("lt", i < was).kv("gt", i > was).done();
    }
}

template <typename T, index_t N>
void grids(vk::Rng& rng, int k, int span, int moves) {
    std::vector<int> lo(N), hi(N);
    for (index_t i = 0; i < N; ++i) { lo[i] = rng.in(-4, 4); hi[i] = lo[i] + rng.in(0, span); }
    if (k & 1) grid<T,N,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(rng, lo, hi, moves);
    else       grid<T,N,ARRAYORDER_LAST_DIM_CONSECUTIVE>(rng, lo, hi, moves);
}

// ------------------------------------------------------------------ matrices
typedef std::vector<std::vector<L>> Rows;
template <typename M> Rows cells(const M& m) {
    Rows v(m.rows());
    for (index_t r = 0; r < m.rows(); ++r) for (index_t c = 0; c < m.cols(); ++c) v[r].push_back(vk::exact((double)m(r,c)));
    return v;
}

template <typename M> void read(vk::Rng& rng, M& m, const char* kind) {
    vk::about(std::string("read ") + kind);
    L size = m.rows() * m.cols();
    std::vector<L> fwd, rev, idx;
    L guard = 0;
    for (auto i = m.begin(); i != m.end() && guard++ <= 2 * size; ++i) fwd.push_back(vk::exact((double)*i));
    guard = 0;
    for (auto i = m.end(); i != m.begin() && guard++ <= 2 * size;) { --i; rev.push_back(vk::exact((double)*i)); }
    auto b = m.begin();
    for (L k = 0; k < size; ++k) idx.push_back(vk::exact((double)(rng.chance(50) ? *(b + k) : *(m.end() - (size - k)))));
    Rows byrow(m.rows()), bracket(m.rows()), bycol(m.cols());
    for (index_t r = 0; r < m.rows(); ++r) {
        auto i = m.row(r);
        for (index_t c = 0; c < m.cols(); ++c, ++i) byrow[r].push_back(vk::exact((double)*i));
        for (index_t c = 0; c < m.cols(); ++c) bracket[r].push_back(vk::exact((double)m[r][c]));
    }
    for (index_t c = 0; c < m.cols(); ++c) {
        auto i = m.col(c);
        bool hop = rng.chance(50);
        for (index_t r = 0; r < m.rows(); ++r) {
            if (hop) bycol[c].push_back(vk::exact((double)*(m.col(c) + r)));
            else { bycol[c].push_back(vk::exact((double)*i)); ++i; }
        }
    }
    Ev e("read");
    e.kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).kv("fwd", fwd).kv("rev", rev).kv("idx", idx)
        .kv("size", (L)(m.end() - m.begin())).kv("byrow", byrow).kv("bracket", bracket).kv("bycol", bycol);
    e.key("regions");
    e.s += "[";
    for (int k = 0; k < 3; ++k) {
        index_t r0 = rng.in(0, m.rows() - 1), c0 = rng.in(0, m.cols() - 1);
        index_t r1 = rng.in(r0, m.rows() - 1), c1 = rng.in(c0, m.cols() - 1);
        MatrixRegion g(Vec<index_t,2>(r0, c0), Vec<index_t,2>(r1, c1));
        std::vector<L> seq; Rows pts;
        guard = 0;
        for (auto i = m.region_begin(g); i != m.region_end(g) && guard++ <= 2 * size; ++i) {
            seq.push_back(vk::exact((double)*i));
            pts.push_back(pv(i.point()));
        }
        if (k) e.s += ",";
        Ev f("region");
        f.s = "{"; f.first = true;
        f.kv("lo", std::vector<L>{r0, c0}).kv("hi", std::vector<L>{r1, c1}).kv("seq", seq).kv("pts", pts)
            .kv("size", (L)(m.region_end(g) - m.region_begin(g)));
        e.s += f.s + "}";
    }
    e.s += "]";
    e.done();
    Rows now = cells(m);
    // positions within rows and within columns
    for (int k = 0; k < 6; ++k) {
        int c0 = rng.in(0, m.cols() - 1), r0 = rng.in(0, m.rows() - 1), c1 = rng.chance(50) ? c0 : rng.in(0, m.cols() - 1), r1 = rng.chance(50) ? r0 : rng.in(0, m.rows() - 1);
        auto p = m.col(c0) + r0, q = m.col(c1) + r1;
        auto u = m.row(r0) + c0, v = m.row(r1) + c1;
        Ev("line").kv("kind", kind).kv("a", std::vector<int>{r0, c0}).kv("b", std::vector<int>{r1, c1}).kv("coleq", p == q).kv("colne", p != q)
            .kv("roweq", u == v).kv("rowne", u != v).kv("cold", c0 == c1 ? (L)(q - p) : 0).kv("rowd", r0 == r1 ? (L)(v - u) : 0)
            .kv("back", std::vector<L>{vk::exact((double)*(q - r1)), vk::exact((double)*(v - c1))})
            .kv("first", std::vector<L>{vk::exact((double)m(0, c1)), vk::exact((double)m(r1, 0))}).done();
    }
    for (int k = 0; k < 4; ++k) {
        L i = rng.in(0, size - 1), j = rng.in(0, size - 1);
        auto x = m.begin() + i;
        auto y = m.begin() + j;
        Ev("dist").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", now).kv("i", i).kv("j", j).kv("d", (L)(y - x))
            .kv("lt", x < y).kv("eq", x == y).kv("v", vk::exact((double)*y)).done();
    }
}

template <typename M> void fillm(vk::Rng& rng, M& m, const char* kind) {
    Rows want = cells(m);
    std::vector<std::pair<int,int>> order;
    for (index_t r = 0; r < m.rows(); ++r) for (index_t c = 0; c < m.cols(); ++c) order.push_back({r, c});
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.in(0, i - 1)]);
    for (auto [r, c] : order) { L x = rng.in(-99, 99); want[r][c] = x; m.set(r, c, x); }
    Ev("set").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).kv("want", want).done();
}

template <typename M> void writes(vk::Rng& rng, M& m, const char* kind) {
    for (int w = 0; w <= 7; ++w) {
        Rows before = cells(m);
        index_t r = rng.in(0, m.rows() - 1), c = rng.in(0, m.cols() - 1);
        L x = rng.in(100, 199);
        vk::about(std::string("write ") + kind);
        const char* path;
        switch (w) {
            case 0: path = "begin"; *(m.begin() + (r * m.cols() + c)) = x; break;
            case 1: path = "row"; *(m.row(r) + c) = x; break;
            case 2: path = "col"; *(m.col(c) + r) = x; break;
            case 3: path = "bracket"; m[r][c] = x; break;
            case 4: path = "call"; m(r,c) = x; break;
            case 5: path = "set"; m.set(r, c, x) = x; break;
            case 6: {
                path = "region";
                auto i = m.region_begin(MatrixRegion(Vec<index_t,2>(0, 0), Vec<index_t,2>(r, c)));
                i += (r + 1) * (c + 1) - 1;
                *i = x;
                break;
            }
            default: {
                path = "transpose";
                auto t = m.as_transpose();
                t.set(c, r, x);
            }
        }
        Ev("write").kv("kind", kind).kv("path", path).kv("cell", std::vector<L>{r, c}).kv("x", x).kv("before", before).kv("after", cells(m)).done();
    }
}

template <typename M> void simple(vk::Rng& rng, M& m, const char* kind) {
    fillm(rng, m, kind);
    read(rng, m, kind);
    const M& k = m;
    read(rng, k, kind);
    std::vector<L> data;
    for (auto p = k.data_begin(); p != k.data_end(); ++p) data.push_back(vk::exact(*p));
    Ev("data").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).kv("data", data).kv("rowmajor", M::Layout == ROW_MAJOR).done();
    writes(rng, m, kind);
    vk::about(std::string("as_transpose ") + kind);
    auto t = m.as_transpose();
    Ev("transpose").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).kv("trows", t.rows()).kv("tcols", t.cols()).kv("t", cells(t)).done();
    read(rng, t, kind);
    writes(rng, t, kind);
    m.set_identity();
    Ev("identity").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).done();
    m.set_zero();
    Ev("const").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).kv("k", 0).done();
}

template <typename M> void fresh(const M& m, const char* kind) {
    Ev("identity").kv("kind", kind).kv("rows", m.rows()).kv("cols", m.cols()).kv("m", cells(m)).done();
}

template <index_t R, index_t C, MatrixLayout O> void sizes(vk::Rng& rng) {
    { SimpleMatrix<double,R,C,O> m; fresh(m, "static"); simple(rng, m, "static"); }
    { SimpleMatrix<double,0,0,O> m(R, C); fresh(m, "dynamic"); simple(rng, m, "dynamic"); }
    { SimpleMatrix<double,0,0,O,STORAGE_SHARED> m(R, C); fresh(m, "shared"); simple(rng, m, "shared"); }
    { SimpleMatrix<double,0,C,O> m(R, C); fresh(m, "dynrows"); simple(rng, m, "dynrows"); }
    { SimpleMatrix<double,R,0,O> m(R, C); fresh(m, "dyncols"); simple(rng, m, "dyncols"); }
    double arr[R * C] = {};
    { WrapperMatrix<double,R,C,O> m(arr); simple(rng, m, "wrapped"); }
    { WrapperMatrix<double,0,0,O> m(arr, R, C); simple(rng, m, "wrappeddyn"); }
    { WrapperMatrix<double,0,C,O> m(arr, R); simple(rng, m, "wrappedrows"); }
    { WrapperMatrix<double,R,0,O> m(arr, C); simple(rng, m, "wrappedcols"); }
    {
        DiagMatrix<double,R,C> m;
        fresh(m, "diag");
        Rows want(R, std::vector<L>(C, 0));
        for (index_t i = 0; i < R && i < C; ++i) m.diagonal(i) = want[i][i] = rng.in(-9, 9);
        Ev("set").kv("kind", "diag").kv("rows", R).kv("cols", C).kv("m", cells(m)).kv("want", want).done();
        const auto& k = m;
        read(rng, k, "diag");
        m.set_identity();
        fresh(m, "diag");
        m.set_zero();
        Ev("const").kv("kind", "diag").kv("rows", R).kv("cols", C).kv("m", cells(m)).kv("k", 0).done();
    }
    if constexpr (R == C) {
        PermutationMatrix<R> p;
        fresh(p, "perm");
        for (int i = 0; i < 3; ++i) p.swap_rows(rng.in(0, R - 1), rng.in(0, R - 1));
        const auto& k = p;
        read(rng, k, "perm");
    }
}

int main(int argc, char** argv) {
    vk::Rng rng(atoi(argv[1]));
    int rounds = atoi(argv[2]);
    vk::open();
    for (int k = 0; k < rounds; ++k) {
        for (int i = 0; i < 10; ++i) {
            grids<int,1>(rng, k + i, 6, 4); grids<index_t,1>(rng, i, 6, 4);
            grids<int,2>(rng, k + i, 4, 12); grids<index_t,2>(rng, i, 4, 12);
            grids<int,3>(rng, k + i, 2, 12); grids<index_t,3>(rng, i, 2, 12);
            grids<int,4>(rng, i, 1, 6);
        }
        sizes<1,1,ROW_MAJOR>(rng); sizes<1,4,ROW_MAJOR>(rng); sizes<4,1,ROW_MAJOR>(rng); sizes<3,3,ROW_MAJOR>(rng);
        sizes<2,3,ROW_MAJOR>(rng); sizes<5,2,ROW_MAJOR>(rng);
        sizes<1,1,COL_MAJOR>(rng); sizes<1,4,COL_MAJOR>(rng); sizes<4,1,COL_MAJOR>(rng); sizes<3,3,COL_MAJOR>(rng);
        sizes<2,3,COL_MAJOR>(rng); sizes<5,2,COL_MAJOR>(rng);
    }
    vk::close();
}
