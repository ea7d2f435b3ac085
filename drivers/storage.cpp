// Histories of the array holders of Storage.h.
#include "vk.h"
#include <algorithm>
#include <memory>
#include <new>
#include <optional>
#include <geomc/Storage.h>
using namespace geom;
typedef std::vector<int> VI;
static vk::Rng rng(1);

/// An element which is counted, and whose allocation and copies can be made to fail.
struct Cell {
    int v = 0;
    Cell* self;
    static inline long live = 0, copies = 0, arrays = 0, fail_copy = -1;
    static inline bool fail_alloc = false;
    static void copying() {
        ++copies;
        if (fail_copy == 0) { fail_copy = -1; throw 17; }
        if (fail_copy > 0) --fail_copy;
    }
    Cell(): self(this) { ++live; }
    Cell(int x): v(x), self(this) { ++live; }
    Cell(const Cell& o): v(o.v), self(this) { o.check(); copying(); ++live; }
    Cell& operator=(const Cell& o) { check(); o.check(); copying(); v = o.v; return *this; }
    ~Cell() { check(); self = nullptr; --live; }
    void check() const { if (self != this) abort(); }
    static void* operator new[](size_t n) {
        if (fail_alloc) { fail_alloc = false; throw std::bad_alloc(); }
        ++arrays;
        return malloc(n);
    }
    static void operator delete[](void* p) { drop(p); }
    static void operator delete[](void* p, size_t) { drop(p); }
    static void drop(void* p) { if (p) --arrays; free(p); }
};

enum Kind { SHARED, OWN, LOCAL, WRAP };
static const char* names[] = {"shared", "own", "local", "wrap"};

/// S: the type of holder; N: its static size, or 0
template <typename S, index_t N, Kind K>
struct Run {
    static const int NH = 4;
    std::optional<S> s[NH];
    bool gone[NH] = {};
    index_t len[NH] = {};
    std::vector<std::unique_ptr<Cell[]>> theirs; // the caller's arrays
    long mine = 0;                               // and how many elements they have

    bool ok(int h) const { return s[h] && !gone[h]; }
    VI look(int h) { VI v; for (index_t i = 0; i < len[h]; ++i) { (*s[h])[i].check(); v.push_back((*s[h])[i].v); } return v; }
    VI clook(int h) const {
        VI v;
        const S& c = *s[h];
        for (index_t i = 0; i < len[h]; ++i) v.push_back(i % 2 ? c.get()[i].v : c[i].v);
        return v;
    }
    index_t sizeOf(int h) const {
        if constexpr (requires (const S& x) { x.size(); }) return s[h]->size();
        else return len[h];
    }
    int any() { VI v; for (int h = 0; h < NH; ++h) if (ok(h)) v.push_back(h); return v.empty() ? -1 : v[rng.in(0, v.size() - 1)]; }

    void make(int h) {
        index_t n = N ? N : rng.in(0, 4);
        int form = rng.in(0, 4);
        VI vals;
        for (index_t i = 0; i < n; ++i) vals.push_back(rng.in(1, 9));
        Cell src[5];
        for (index_t i = 0; i < n; ++i) src[i].v = vals[i];
        bool failing = K != WRAP && rng.chance(12);
        bool byCopy = false;
        if (failing) { if (rng.chance(50)) Cell::fail_alloc = true; else { Cell::fail_copy = rng.in(0, 3); byCopy = true; } }
        bool from = false;
        vk::about("construct");
        try {
            if constexpr (K == WRAP) {
                Cell* a = new Cell[n];
                theirs.emplace_back(a);
                for (index_t i = 0; i < n; ++i) a[i].v = vals[i];
                mine += n;
                s[h].emplace(n, a);
                from = true;
            } else {
                if (form == 0) {
                    s[h].emplace(n);
                } else if (form == 1) {
                    if constexpr (N > 0 && requires { S(); }) s[h].emplace(); else s[h].emplace(n);
                } else if (form == 2) {
                    if constexpr (requires (const Cell* c) { S(n, c); }) { s[h].emplace(n, (const Cell*)src); from = true; }
                    else s[h].emplace(n);
                } else if (form == 3) {
                    if constexpr (N > 0 && std::is_same_v<S, Storage<Cell, N>>) { s[h].emplace((const Cell*)src); from = true; }
                    else s[h].emplace(n);
                } else {
                    if constexpr (requires (std::initializer_list<Cell> x) { S(x); }) {
                        from = true;
                        if (N == 3 || n == 3) s[h].emplace(std::initializer_list<Cell>{vals[0], vals[1], vals[2]});
                        else if (N == 0 && n == 1) s[h].emplace(std::initializer_list<Cell>{vals[0]});
                        else if (N == 0 && n == 0) s[h].emplace(std::initializer_list<Cell>{});
                        else if (N == 0 && n == 2) s[h].emplace(std::initializer_list<Cell>{vals[0], vals[1]});
                        else if (N == 0 && n == 4) s[h].emplace(std::initializer_list<Cell>{vals[0], vals[1], vals[2], vals[3]});
                        else { from = false; s[h].emplace(n); }
                    } else s[h].emplace(n);
                }
            }
            Cell::fail_alloc = false; Cell::fail_copy = -1;
        } catch (...) {
            Cell::fail_alloc = false; Cell::fail_copy = -1;
            s[h].reset();
            vk::Ev("MakeFail").kv("h", h + 1).kv("form", form).kv("bycopy", byCopy).done();
            return;
        }
        gone[h] = false;
        len[h] = n;
        if (from) vk::Ev("From").kv("h", h + 1).kv("form", form).kv("src", vals).done();
        else vk::Ev("Make").kv("h", h + 1).kv("form", form).kv("n", n).done();
    }

    void copy(int h, int g) {
        bool failing = K != WRAP && rng.chance(25), alloc = rng.chance(50);
        if (failing) { if (alloc) Cell::fail_alloc = true; else Cell::fail_copy = rng.in(0, 3); }
        bool was = (bool)s[h], wasGone = gone[h];
        long c0 = Cell::copies;
        vk::about(was ? "assign" : "copy");
        try {
            if (was) *s[h] = (const S&)*s[g]; else s[h].emplace((const S&)*s[g]);
            Cell::fail_alloc = false; Cell::fail_copy = -1;
        } catch (...) {
            Cell::fail_alloc = false; Cell::fail_copy = -1;
            if (!was) { s[h].reset(); vk::Ev("MakeFail").kv("h", h + 1).kv("form", 9).kv("bycopy", !alloc).done(); return; }
            if (wasGone) { // could not be told before, still cannot
                vk::Ev("MakeFail").kv("h", h + 1).kv("form", 10).kv("bycopy", !alloc).done();
                return;
            }
            if (K == OWN || K == LOCAL) len[h] = sizeOf(h);
            vk::Ev("AssignFail").kv("h", h + 1).kv("g", g + 1).kv("why", alloc ? "alloc" : "elem").kv("now", look(h)).done();
            return;
        }
        gone[h] = false;
        len[h] = len[g];
        vk::Ev("Copy").kv("h", h + 1).kv("g", g + 1).kv("copies", Cell::copies - c0).kv("into", was).done();
    }
    void move(int h, int g) {
        if (h == g) return;
        bool was = (bool)s[h];
        long c0 = Cell::copies;
        vk::about(was ? "move assign" : "move");
        if (was) *s[h] = std::move(*s[g]); else s[h].emplace(std::move(*s[g]));
        gone[h] = false;
        len[h] = len[g];
        if (K == SHARED || K == OWN) gone[g] = true;
        vk::Ev("Move").kv("h", h + 1).kv("g", g + 1).kv("copies", Cell::copies - c0).kv("into", was).done();
    }
    void view() {
        std::string a = "[", o = "[";
        for (int h = 0; h < NH; ++h) {
            if (!ok(h)) continue;
            std::string v, w;
            vk::Ev::emit(v, look(h));
            vk::Ev::emit(w, clook(h));
            if (a.size() > 1) a += ",";
            a += "{\"h\":" + std::to_string(h + 1) + ",\"vals\":" + v + ",\"cvals\":" + w + ",\"size\":" + std::to_string(sizeOf(h)) + "}";
            for (int g = h + 1; g < NH; ++g)
                if (ok(g) && len[h] > 0 && len[g] > 0 && s[h]->get() == s[g]->get()) {
                    if (o.size() > 1) o += ",";
                    o += "[" + std::to_string(h + 1) + "," + std::to_string(g + 1) + "]";
                }
        }
        vk::Ev("View").raw("all", a + "]").raw("one", o + "]").kv("live", Cell::live).kv("arrays", Cell::arrays).done();
    }
    void step() {
        int k = rng.in(0, 99), h = rng.in(0, NH - 1), g = any();
        if (k < 22 || g < 0) {
            if (s[h]) return;
            make(h);
        } else if (k < 44) copy(h, g);
        else if (k < 58) move(h, g);
        else if (k < 70) {
            if (len[g] == 0) return;
            int i = rng.in(0, (int)len[g] - 1), v = rng.in(1, 99);
            if (rng.chance(50)) (*s[g])[i].v = v; else s[g]->get()[i].v = v;
            vk::Ev("Write").kv("h", g + 1).kv("i", i + 1).kv("v", v).done();
        } else if (k < 80) {
            if (!s[h]) return;
            vk::about("destroy");
            s[h].reset();
            gone[h] = false;
            vk::Ev("Drop").kv("h", h + 1).done();
        } else view();
    }
    void go(int steps, const char* what) {
        vk::Ev("Reset").kv("what", what).done();
        Cell::live = 0;
        Cell::arrays = 0;
        vk::Ev("New").kv("kind", names[K]).kv("nh", NH).done();
        for (int i = 0; i < steps; ++i) step();
        view();
        for (int h = 0; h < NH; ++h) {
            if (!s[h]) continue;
            vk::about("destroy");
            s[h].reset();
            gone[h] = false;
            vk::Ev("Drop").kv("h", h + 1).done();
        }
        view();
    }
};

template <index_t N> void dim() {
    int v = rng.in(0, 50);
    // one more than the storage has, to see what is written
    struct { typename Dimension<N>::storage_t d; index_t guard; } x;
    x.guard = 77;
    Dimension<N>::set(x.d, v);
    bool kept = x.guard == 77;
    vk::Ev("Dim").kv("n", N).kv("v", v).kv("ret", kept ? Dimension<N>::get(x.d) : -1).kv("bytes", sizeof(typename Dimension<N>::storage_t) / sizeof(index_t)).done();
}

int main(int argc, char** argv) {
    rng = vk::Rng(atoi(argv[1]));
    int reps = atoi(argv[2]);
    vk::open();
    for (int i = 0; i < reps; ++i) {
        ++vk::episode;
#define R(n, K, N, ...) case n: { Run<__VA_ARGS__, N, K> x; x.go(50, #__VA_ARGS__); break; }
        switch (i % 13) {
            R(0, SHARED, 0, Storage<Cell, 0>)
            R(1, LOCAL, 3, Storage<Cell, 3>)
            R(2, SHARED, 0, SizedStorage<Cell, 0>)
            R(3, LOCAL, 2, SizedStorage<Cell, 2>)
            R(4, OWN, 0, UniqueStorage<Cell, 0>)
            R(5, LOCAL, 3, UniqueStorage<Cell, 3>)
            R(6, WRAP, 0, WrappedStorage<Cell, 0>)
            R(7, WRAP, 3, WrappedStorage<Cell, 3>)
            R(8, SHARED, 0, GenericStorage<Cell, 0, STORAGE_SHARED>)
            R(9, LOCAL, 3, GenericStorage<Cell, 3, STORAGE_SHARED>)
            R(10, OWN, 0, GenericStorage<Cell, 0, STORAGE_UNIQUE>)
            R(11, LOCAL, 3, GenericStorage<Cell, 3, STORAGE_UNIQUE>)
            R(12, WRAP, 0, GenericStorage<Cell, 0, STORAGE_WRAPPED>)
        }
        if (i % 13 == 0) { dim<0>(); dim<1>(); dim<5>(); }
    }
    vk::close();
}
