// Drives Deque<Item,N> and SmallStorage<Item,N> through walks of the specification and random
// histories; logs every call with its result and the whole observable state.
//   containers SEED RANDOM_EPISODES RANDOM_LEN   built with -DDEQUE or not, -DCAP=N   (walks on stdin: one call per line, "--" between walks)
#include "vk.h"
#include <geomc/geomc_defs.h>
#include <geomc/Deque.h>
#include <geomc/SmallStorage.h>
#include <unordered_map>
#include <iostream>
#include <memory>

static bool     g_quiet  = false;
static long     g_allocs = 0;
struct Quiet { bool was; Quiet(): was(g_quiet) { g_quiet = true; } ~Quiet() { g_quiet = was; } };

// blocks obtained inside calls of the code under test and not yet returned
static constexpr int NBLK = 1 << 14;
static void* g_blk[NBLK];
static long  g_blocks = 0;
static void note(void* p) {
    if (g_quiet) return;
    ++g_allocs; ++g_blocks;
    for (size_t i = ((size_t)p >> 4) % NBLK;; i = (i + 1) % NBLK) if (!g_blk[i] || g_blk[i] == (void*)1) { g_blk[i] = p; return; }
}
static void unnote(void* p) {
    if (!p) return;
    size_t i = ((size_t)p >> 4) % NBLK;
    for (int k = 0; k < NBLK && g_blk[i]; ++k, i = (i + 1) % NBLK) if (g_blk[i] == p) { g_blk[i] = (void*)1; --g_blocks; return; }
}
void* operator new(size_t n)   { void* p = malloc(n ? n : 1); if (!p) abort(); note(p); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); note(p); return p; }
void operator delete(void* p) noexcept { unnote(p); free(p); }
void operator delete[](void* p) noexcept { unnote(p); free(p); }
void operator delete(void* p, size_t) noexcept { unnote(p); free(p); }
void operator delete[](void* p, size_t) noexcept { unnote(p); free(p); }

// ---- an element that knows whether it is alive
struct Item;
static std::unordered_map<const void*, int>* g_live;
static long g_faults = 0;
static std::string g_what;
static void fault(const char* w) { Quiet q; ++g_faults; g_what = w; }
struct Item {
    int id;
    static bool alive(const void* p) { return g_live->count(p); }
    void born() { Quiet q; if (alive(this)) fault("built over a live element"); (*g_live)[this] = 1; }
    static int read(const Item& o) { if (!alive(&o)) { fault("read of a dead element"); return -3; } return o.id; }
    Item() : id(0) { born(); }
    Item(int i) : id(i) { born(); }
    Item(const Item& o) : id(read(o)) { born(); }
    Item(Item&& o) : id(read(o)) { if (alive(&o)) o.id = -1; born(); }
    Item& operator=(const Item& o) {
        if (!alive(this)) fault("assignment to a dead element");
        id = read(o);
        return *this;
    }
    Item& operator=(Item&& o) {
        if (!alive(this)) fault("assignment to a dead element");
        if (this == &o) return *this;
        id = read(o);
        if (alive(&o)) o.id = -1;
        return *this;
    }
    ~Item() {
        Quiet q;
        if (!alive(this)) fault("destruction of a dead element");
        g_live->erase(this);
        id = -2;
    }
    bool operator==(const Item& o) const { return id == o.id; }
    bool operator!=(const Item& o) const { return id != o.id; }
};

static constexpr int NSLOT = 3;
static int g_next = 1;
static int fresh() { return g_next++; }

struct Cmd { std::string op; int s = 0, t = 0, k = 0; };

template <typename C, bool DEQ, long N>
struct World {
    alignas(C) unsigned char mem[NSLOT][sizeof(C)];
    bool on[NSLOT] = {false, false, false};
    C& at(int i) { return *reinterpret_cast<C*>(mem[i]); }

    std::vector<int> items(int s) {
        std::vector<int> r;
        const C& c = at(s);
        if (c.size() > 4000) { r.push_back(999999999); return r; }
        for (long i = 0; i < (long)c.size(); ++i) r.push_back(c[i].id);
        return r;
    }
    std::string state(int s) {
        if (!on[s]) return "{\"on\":false}";
        C& c = at(s);
        const C& cc = c;
        std::string r = "{\"on\":true,\"size\":" + std::to_string((long)c.size()) + ",\"cap\":" + std::to_string((long)c.capacity());
        std::vector<int> it = items(s);
        r += ",\"items\":"; vk::Ev::emit(r, it);
        std::vector<int> wrap, seq;
        long n = (long)c.size();
        int front = -1, back = -1, cfront = -1, cback = -1;
        bool empty = n == 0;
        if (n > 0 && n < 4000) {
            front = c.front().id; back = c.back().id;
            cfront = cc.front().id; cback = cc.back().id;
            if constexpr (DEQ) {
                for (long i = -n - 1; i < 2 * n + 1; ++i) wrap.push_back((i & 1) ? c[i].id : cc[i].id);
            }
        }
        if constexpr (!DEQ) {
            empty = cc.empty();
            if (n < 4000) {
                const Item* d = cc.data();
                for (const Item& x : cc) seq.push_back(x.id);
                for (long i = 0; i < n; ++i) seq.push_back(d[i].id);
                for (Item* p = c.begin(); p != c.end(); ++p) seq.push_back(p->id);
                for (long i = 0; i < n; ++i) seq.push_back(c.data()[i].id);
            }
        }
        r += ",\"front\":" + std::to_string(front) + ",\"back\":" + std::to_string(back);
        r += ",\"cfront\":" + std::to_string(cfront) + ",\"cback\":" + std::to_string(cback);
        r += std::string(",\"empty\":") + (empty ? "true" : "false");
        r += ",\"wrap\":"; vk::Ev::emit(r, wrap);
        r += ",\"seq\":"; vk::Ev::emit(r, seq);
        return r + "}";
    }

    void log(vk::Ev& e, long allocs) {
        e.kv("alloc", allocs);
        e.kv("blocks", g_blocks);
        e.key("st");
        e.s += "[";
        for (int i = 0; i < NSLOT; ++i) { if (i) e.s += ","; e.s += state(i); }
        e.s += "]";
        e.kv("live", (long)g_live->size());
        e.kv("faults", g_faults);
        e.kv("what", g_what);
        e.done();
    }

    template <typename F> long call(const Cmd& c, F f) {
        vk::about(c.op + " " + std::to_string(c.s) + " " + std::to_string(c.t) + " " + std::to_string(c.k));
        long a = g_allocs;
        g_quiet = false;
        f();
        g_quiet = true;
        return g_allocs - a;
    }

    bool enabled(const Cmd& c) {
        const std::string& o = c.op;
        if (o == "New" || o == "NewCap" || o == "NewFrom" || o == "NewCount" || o == "NewFill" || o == "NewList") return !on[c.s];
        if (o == "CopyCtor" || o == "MoveCtor") return !on[c.s] && on[c.t];
        if (o == "CopyAssign" || o == "MoveAssign" || o == "Eq") return on[c.s] && on[c.t];
        if (o == "Set") return on[c.s] && c.k < (int)at(c.s).size();
        return on[c.s];
    }

    void exec(const Cmd& c) {
        Quiet quiet;
        if (!enabled(c)) return;
        vk::Ev e(c.op.c_str());
        e.kv("s", c.s + 1);
        const std::string& o = c.op;
        long al = 0;
        void* m = mem[c.s];
        if (o == "New") { al = call(c, [&] { new (m) C(); }); on[c.s] = true; }
        else if (o == "NewFrom") {
            std::vector<int> q;
            std::vector<Item> src;
            src.reserve(c.k + 1);
            for (int i = 0; i < c.k; ++i) { q.push_back(fresh()); src.emplace_back(q.back()); }
            if constexpr (DEQ) al = call(c, [&] { new (m) C(src.begin(), (index_t) c.k); });
            else               al = call(c, [&] { new (m) C(src.data(), (size_t) c.k); });
            on[c.s] = true;
            e.kv("q", q);
        }
        else if (o == "CopyCtor") { e.kv("t", c.t + 1); al = call(c, [&] { new (m) C(static_cast<const C&>(at(c.t))); }); on[c.s] = true; }
        else if (o == "MoveCtor") { e.kv("t", c.t + 1); al = call(c, [&] { new (m) C(std::move(at(c.t))); }); on[c.s] = true; }
        else if (o == "Destroy")  { al = call(c, [&] { at(c.s).~C(); }); on[c.s] = false; memset(mem[c.s], 0xcd, sizeof(C)); }
        else if (o == "CopyAssign") { e.kv("t", c.t + 1); al = call(c, [&] { at(c.s) = static_cast<const C&>(at(c.t)); }); }
        else if (o == "MoveAssign") { e.kv("t", c.t + 1); al = call(c, [&] { at(c.s) = std::move(at(c.t)); }); }
        else if (o == "Eq") {
            e.kv("t", c.t + 1);
            bool r = false, nr = false;
            al = call(c, [&] {
                r = at(c.s) == at(c.t);
                if constexpr (DEQ) nr = at(c.s) != at(c.t); else nr = !r;
            });
            e.kv("ret", r).kv("neq", nr);
        }
        else if (o == "PushBack" || o == "PushFront" || o == "Emplace") {
            int v = fresh();
            int ret = -9;
            Item x(v);
            int form = c.k & 1;  // copied or moved in
            if constexpr (DEQ) {
                al = call(c, [&] {
                    Item& y = o == "PushFront" ? (form ? at(c.s).push_front(std::move(x)) : at(c.s).push_front(x))
                                               : (form ? at(c.s).push_back(std::move(x))  : at(c.s).push_back(x));
                    ret = y.id;
                });
            } else {
                al = call(c, [&] { Item& y = form ? at(c.s).emplace_back(v) : at(c.s).push_back(x); ret = y.id; });
            }
            e.kv("v", v).kv("ret", ret);
        }
        else if (o == "PopBack" || o == "PopFront") {
            int ret = -1;
            al = call(c, [&] {
                std::optional<Item> y;
                if constexpr (DEQ) { if (o == "PopBack") y = at(c.s).pop_back(); else y = at(c.s).pop_front(); }
                else y = at(c.s).pop_back();
                if (y) ret = y->id;
            });
            e.kv("ret", ret);
        }
        else if (o == "Reserve") { e.kv("k", c.k); al = call(c, [&] { at(c.s).reserve(c.k); }); }
        else if (o == "Clear")   { al = call(c, [&] { at(c.s).clear(); }); }
        else if (o == "Set")     { int v = fresh(); e.kv("i", c.k).kv("v", v); Item x(v); al = call(c, [&] { at(c.s)[c.k] = x; }); }
        else if constexpr (DEQ) {
            if (o == "NewCap") { e.kv("k", c.k); al = call(c, [&] { new (m) C((index_t) c.k); }); on[c.s] = true; }
            else { fprintf(stderr, "unknown command %s\n", o.c_str()); exit(2); }
        } else {
            if (o == "NewCount") {
                std::vector<int> q(c.k, 0);
                al = call(c, [&] { new (m) C((size_t) c.k); });
                on[c.s] = true;
                e.kv("q", q);
            } else if (o == "NewFill") {
                int v = fresh();
                std::vector<int> q(c.k, v);
                Item x(v);
                al = call(c, [&] { new (m) C(x, (size_t) c.k); });
                on[c.s] = true;
                e.kv("q", q);
            } else if (o == "NewList") {
                int a = fresh(), b = fresh(), d = fresh();
                std::vector<int> q;
                if (c.k == 0) { al = call(c, [&] { new (m) C(std::initializer_list<Item>{}); }); }
                else if (c.k == 1) { q = {a}; al = call(c, [&] { new (m) C({Item(a)}); }); }
                else if (c.k == 2) { q = {a, b}; al = call(c, [&] { new (m) C({Item(a), Item(b)}); }); }
                else { q = {a, b, d}; al = call(c, [&] { new (m) C({Item(a), Item(b), Item(d)}); }); }
                on[c.s] = true;
                e.kv("q", q);
            } else if (o == "Resize") {
                int v = fresh();
                e.kv("k", c.k).kv("v", v);
                Item x(v);
                al = call(c, [&] { at(c.s).resize((size_t) c.k, x); });
            } else if (o == "ResizeDefault") {
                e.kv("k", c.k).kv("v", 0);
                al = call(c, [&] { at(c.s).resize((size_t) c.k); });
            } else { fprintf(stderr, "unknown command %s\n", o.c_str()); exit(2); }
        }
        log(e, al);
        if (g_faults > 20) { vk::close(); _exit(0); }
    }

    void begin() {
        ++vk::episode;
        g_next = 1;
        vk::Ev e("Reset");
        e.done();
    }
    void end() {
        for (int i = 0; i < NSLOT; ++i) if (on[i]) exec(Cmd{"Destroy", i, 0, 0});
        g_live->clear();
        g_blocks = 0;
        memset(g_blk, 0, sizeof g_blk);
    }

    void random_episode(vk::Rng& rng, int len) {
        begin();
        // each episode has its own temperament, so that long fills, rotations and drains all occur
        int wPB = rng.in(1, 12), wPF = DEQ ? rng.in(1, 12) : 0, wPopB = rng.in(1, 12), wPopF = DEQ ? rng.in(1, 12) : 0;
        int wRes = rng.in(0, 3), wBig = rng.in(0, 6), wSet = rng.in(0, 3);
        int maxk = rng.in(1, 3) * (int)(N + 3);
        for (int i = 0; i < len; ++i) {
            Cmd c;
            c.s = rng.in(0, NSLOT - 1);
            c.t = rng.in(0, NSLOT - 1);
            if (!on[c.s]) {
                int r = rng.in(0, DEQ ? 4 : 6);
                c.k = rng.in(0, (int) N + 3);
                const char* f[] = {"New", "NewFrom", "CopyCtor", "MoveCtor", DEQ ? "NewCap" : "NewCount", "NewFill", "NewList"};
                c.op = f[r];
                if (c.op == "NewList") c.k = rng.in(0, 3);
            } else {
                int tot = wPB + wPF + wPopB + wPopF + wRes + wBig + wSet;
                int r = rng.in(0, tot - 1);
                if ((r -= wPB) < 0) { c.op = "PushBack"; c.k = rng.in(0, 1); }
                else if ((r -= wPF) < 0) { c.op = "PushFront"; c.k = rng.in(0, 1); }
                else if ((r -= wPopB) < 0) c.op = "PopBack";
                else if ((r -= wPopF) < 0) c.op = "PopFront";
                else if ((r -= wRes) < 0) {
                    c.op = DEQ ? "Reserve" : (const char*[]){"Reserve", "Resize", "ResizeDefault"}[rng.in(0, 2)];
                    c.k = rng.in(0, maxk);
                    if (c.op != "Reserve" && at(c.s).size() > 60) c.k = 2;
                }
                else if ((r -= wSet) < 0) { c.op = "Set"; if (at(c.s).size()) c.k = rng.in(0, (int) at(c.s).size() - 1); }
                else {
                    int b = rng.in(0, 9);
                    c.op = b < 3 ? "CopyAssign" : b < 6 ? "MoveAssign" : b < 7 ? "Clear" : b < 8 ? "Destroy" : "Eq";
                }
                if ((long)at(c.s).size() > 40 && c.op.substr(0, 4) == "Push") c.op = "PopBack";
            }
            exec(c);
        }
        end();
    }

    void run(uint64_t seed, int eps, int len) {
        std::string line;
        bool open = false;
        while (std::getline(std::cin, line)) {
            if (line == "--") { if (open) end(); open = false; continue; }
            if (!open) { begin(); open = true; }
            std::istringstream is(line);
            Cmd c;
            is >> c.op >> c.s >> c.t >> c.k;
            exec(c);
        }
        if (open) end();
        vk::Rng rng(seed);
        for (int i = 0; i < eps; ++i) random_episode(rng, len);
    }
};

#ifndef CAP
#define CAP 2
#endif
int main(int argc, char** argv) {
    g_quiet = true;
    g_live = new std::unordered_map<const void*, int>();
    vk::open();
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    int eps = atoi(argv[2]), len = atoi(argv[3]);
#ifdef DEQUE
    static World<geom::Deque<Item, CAP>, true, CAP> w;
#else
    static World<geom::SmallStorage<Item, CAP>, false, CAP> w;
#endif
    w.run(seed, eps, len);
    vk::close();
    _exit(0);
}
