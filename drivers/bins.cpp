// Histories of insertions, removals and queries on spatial partitions.
#include "vk.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/BinLatticePartition.h>
#include <memory>
using namespace geom;
typedef std::vector<int> VI;
static vk::Rng rng(1);
static const int Q = 8; // positions are multiples of 1/Q

template <typename T, index_t N>
struct Run {
    typedef BinLatticePartition<T, N, int> B;
    typedef typename B::point_t point_t;
    std::unique_ptr<B> b;
    int cs = 8, names = 0;
    size_t n = 0;

    static point_t at(const VI& v) {
        point_t p;
        for (index_t i = 0; i < N; ++i) PointType<T, N>::iterator(p)[i] = (T)(v[i] / (double)Q);
        return p;
    }
    static std::string pos(const point_t& p) {
        std::vector<long long> v;
        for (index_t i = 0; i < N; ++i) v.push_back(vk::exact(PointType<T, N>::iterator(p)[i], Q));
        std::string s; vk::Ev::emit(s, v); return s;
    }
    template <typename I> static std::string bin(const I& p) {
        std::vector<long long> v;
        for (index_t i = 0; i < N; ++i) v.push_back(PointType<index_t, N>::iterator(p)[i]);
        std::string s; vk::Ev::emit(s, v); return s;
    }
    template <typename It> static std::string item(const It& it) { return "[" + pos(it.first) + "," + std::to_string(it.second) + "]"; }

    VI place() {
        VI v;
        int reach = N == 3 ? 2 : 4;
        for (index_t i = 0; i < N; ++i) v.push_back(rng.chance(45) ? cs * rng.in(-reach, reach) : rng.in(-reach * cs, reach * cs));
        return v;
    }

    void step() {
        int k = rng.in(0, 99);
        if (k < 35) {
            VI p = place();
            int x = ++names;
            vk::about("insert");
            b->insert(at(p), x);
            vk::Ev("Insert").kv("p", p).kv("x", x).done();
            ++n;
        } else if (k < 42) {
            if (!n) return;
            auto it = b->begin();
            for (int j = rng.in(0, (int)n - 1); j > 0 && it != b->end(); --j) ++it;
            if (it == b->end()) { vk::Ev("Lost").done(); return; }
            std::string s = item(*it);
            if (rng.chance(50)) {
                vk::about("erase");
                b->erase(it);
                --n;
                vk::Ev("Erase").raw("it", s).done();
            } else {
                (*it).second = ++names;
                vk::Ev("Rename").raw("it", s).kv("x", names).done();
            }
        } else if (k < 44) {
            if (!n) return;
            auto it = b->binsBegin();
            for (int j = rng.in(0, (int)n - 1); j > 0 && it != b->binsEnd(); --j) ++it;
            if (it == b->binsEnd()) { vk::Ev("Lost").done(); return; }
            std::string s = item(it->second);
            b->erase(it);
            --n;
            vk::Ev("Erase").raw("it", s).done();
        } else if (k < 45) {
            b->clear();
            n = 0;
            vk::Ev("Clear").done();
        } else if (k < 50) {
            vk::Ev("Size").kv("ret", b->size()).done();
        } else if (k < 58) {
            std::string s = "[";
            for (auto it = b->begin(); it != b->end(); ++it) s += (s.size() > 1 ? "," : "") + item(*it);
            vk::Ev("All").raw("ret", s + "]").done();
        } else if (k < 64) {
            VI p = place();
            vk::Ev("BinOf").kv("p", p).raw("ret", bin(b->binOf(at(p)))).done();
        } else {
            VI lo = place(), hi = lo;
            int form = rng.in(0, 1), r = 0;
            typename B::region_iterator it, again;
            vk::about("query");
            if (form == 0) {
                for (auto& x : hi) x += rng.chance(40) ? cs * rng.in(0, 3) : rng.in(0, 3 * cs);
                Rect<T, N> box(at(lo), at(hi));
                it = b->query(box);
            } else {
                r = rng.chance(40) ? cs * rng.in(0, 2) : rng.in(0, 2 * cs);
                point_t c = at(lo);
                it = b->query(c, (T)(r / (double)Q));
                for (index_t i = 0; i < N; ++i) { hi[i] = lo[i] + r; lo[i] -= r; }
            }
            std::string s = "[", bs = "[", t = "[";
            bool ends = true, same = true;
            auto e = it.end();
            again = it;
            auto blk = it.query_block();
            auto start = it.begin();
            if (start != it) same = false;
            std::vector<typename B::region_iterator> seen;
            // a search can repeat itself forever: stop at more than there are
            for (size_t j = 0; it != e && j <= n; ++it, ++j) {
                if (!(it != typename B::region_iterator())) ends = false;
                s += (s.size() > 1 ? "," : "") + item(*it);
                bs += (bs.size() > 1 ? "," : "") + bin(it.current_bin());
                // an iterator equals only itself
                for (auto& o : seen) if (o == it) same = false;
                seen.push_back(it);
            }
            if (!seen.empty() && seen.back().begin() != start) same = false;
            // from its end a search starts anew
            if (it.begin() != start) same = false;
            if (it == e) for (auto& o : seen) if (o == it || it == o) ends = false;
            for (size_t j = 0; again != e && j <= n; j++) t += (t.size() > 1 ? "," : "") + item(*again++);
            vk::Ev("Query").kv("lo", lo).kv("hi", hi).kv("form", form).raw("ret", s + "]").raw("bins", bs + "]").raw("blk", "[" + bin(blk.lo) + "," + bin(blk.hi) + "]")
                .kv("ends", ends).kv("again", same && s == t).done();
            // remove something that was found
            if (!seen.empty() && rng.chance(25)) {
                auto f = seen[rng.in(0, (int)seen.size() - 1)];
                std::string s = item(*f);
                typename B::iterator g = f;
                vk::about("erase what was found");
                b->erase(g);
                --n;
                vk::Ev("Erase").raw("it", s).done();
            }
        }
    }
    void go(int steps) {
        vk::Ev("Reset").done();
        static const int sizes[] = {8, 8, 4, 16, 24, 6, 2};
        cs = sizes[rng.in(0, 6)];
        if (cs == 8 && rng.chance(50)) b.reset(new B()); else b.reset(new B((T)(cs / (double)Q)));
        vk::Ev("New").kv("cs", cs).done();
        for (int i = 0; i < steps; ++i) step();
    }
};

int main(int argc, char** argv) {
    rng = vk::Rng(atoi(argv[1]));
    int reps = atoi(argv[2]);
    vk::open();
    for (int i = 0; i < reps; ++i) {
        ++vk::episode;
        switch (i % 4) {
            case 0: { Run<double, 2> x; x.go(60); break; }
            case 1: { Run<double, 1> x; x.go(60); break; }
            case 2: { Run<float, 2> x; x.go(60); break; }
            case 3: { Run<double, 3> x; x.go(80); break; }
        }
    }
    vk::close();
}
