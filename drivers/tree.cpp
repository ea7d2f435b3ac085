// Drives Tree through walks of the specification (stdin) and random histories.
//   tree SEED EPISODES LEN MODE      MODE: edit | query
#include "vk.h"
#include <memory>
#include <geomc/Tree.h>
using namespace geom;
using vk::Ev;
typedef Tree<int,int> TT;
typedef Subtree<int,int> Sub;
typedef ConstSubtree<int,int> CSub;
typedef std::vector<int> Path;

static std::unique_ptr<TT> slot[2];
static int fresh = 1;

template <typename S> static S at(S root, const Path& p) {
    for (int c : p) {
        S k = root.begin();
        for (int i = 1; i < c; ++i) ++k;
        root = k;
    }
    return root;
}
static Sub at(int s, const Path& p) { return at(slot[s]->root(), p); }
static CSub cat(int s, const Path& p) { const TT& t = *slot[s]; return at(t.root(), p); }

template <typename S> static Path path_of(const TT& t, S n) {
    Path p;
    int guard = 0;
    while (!n.is_root() && guard++ < 1000) {
        S par = n.parent();
        int c = 1;
        S k = par.begin();
        while (k != n && c <= par.node_count()) { ++k; ++c; }
        p.insert(p.begin(), c);
        n = par;
    }
    return p;
}

template <typename S> static void dump(std::string& o, const S& n, bool& links, int depth = 0) {
    o += "{\"d\":" + std::to_string(*n) + ",\"nc\":" + std::to_string((long)n.node_count()) + ",\"ni\":" + std::to_string((long)n.item_count()) + ",\"i\":[";
    int k = 0;
    for (auto i = n.items_begin(); i != n.items_end() && k < 500; ++i, ++k) { if (k) o += ","; o += std::to_string(*i); }
    o += "],\"k\":[";
    k = 0;
    if (depth < 50) for (S c = n.begin(); c != n.end() && k < 200; ++c, ++k) {
        if (k) o += ",";
        if (c.parent() != n) links = false;
        dump(o, c, links, depth + 1);
    }
    o += "]}";
}
static void state(Ev& e) {
    e.key("st");
    e.s += "[";
    for (int s = 0; s < 2; ++s) {
        if (s) e.s += ",";
        bool links = true;
        TT& t = *slot[s];
        const TT& ct = t;
        e.s += "{\"t\":";
        if (s == 0) dump(e.s, t.root(), links); else dump(e.s, ct.root(), links);
        std::vector<int> ord;
        int k = 0;
        for (Sub i = t.begin(); i != t.end() && k < 500; ++i, ++k) ord.push_back(*i);
        std::vector<int> back;
        k = 0;
        for (CSub i = ct.end(); i != ct.begin() && k < 500; ++k) { --i; back.insert(back.begin(), *i); }
        e.s += ",\"ord\":"; Ev::emit(e.s, ord);
        e.s += ",\"back\":"; Ev::emit(e.s, back);
        bool top = t.root().parent() == t.end() && t.root().is_root() && t.root().global_end() == t.end() && t.root().global_begin() == t.begin();
        e.s += ",\"size\":" + std::to_string(t.size()) + ",\"ic\":" + std::to_string(t.item_count()) + ",\"links\":" + (links && top ? "true" : "false") + "}";
    }
    e.s += "]";
    e.done();
}

static std::vector<Path> all_paths(Sub n, Path p = {}) {
    std::vector<Path> r{p};
    int c = 1;
    for (Sub k = n.begin(); k != n.end(); ++k, ++c) {
        Path q = p; q.push_back(c);
        for (auto& x : all_paths(k, q)) r.push_back(x);
    }
    return r;
}
static int item_no(int s, Sub::item_iterator i) {
    int k = 1;
    Sub r = slot[s]->root();
    for (auto j = r.items_begin(); j != r.items_end(); ++j, ++k) if (j == i) return k;
    return 0;
}
static Sub child(Sub n, int c) { Sub k = n.begin(); while (c-- > 0) ++k; return k; }
static Sub::item_iterator item(Sub n, int k) { auto i = n.items_begin(); while (k-- > 0) ++i; return i; }

static void reset() {
    ++vk::episode;
    fresh = 1;
    for (auto& s : slot) { s = std::make_unique<TT>(); *s->root() = fresh++; }
    Ev e("Reset");
    state(e);
}

struct Cmd { std::string op; int s = 0, u = 0; Path p, q; int pos = 0, k = 0; };

static int M1, R1, M2, R2;
static bool pass_item(const int& n, const int& it) { return (n + it * 0) % M1 != R1; }

template <typename S> static void ask(const Cmd& c, const TT& t, S n, vk::Rng& g, bool isconst) {
    if (c.op == "FindParent") {
        int total = t.item_count();
        if (!total) return;
        int x = g.in(1, total);
        auto it = t.root().items_begin();
        for (int i = 1; i < x; ++i) ++it;
        bool bounded = g.chance(50);
        M1 = g.in(2, 5); R1 = g.in(0, M1);
        vk::about("find_parent");
        S r = bounded ? n.template find_parent<pass_item>(it) : n.find_parent(it);
        Ev e("FindParent");
        e.kv("s", c.s + 1).kv("p", c.p).kv("x", x).kv("bounded", bounded).kv("m", M1).kv("r", R1).kv("isend", r == n.end()).kv("const", isconst);
        e.kv("ret", r == n.global_end() ? Path{-1} : path_of(t, r));
        state(e);
    } else if (c.op == "Query") {
        M1 = g.in(2, 6); R1 = g.in(0, M1); M2 = g.in(1, 3); R2 = g.in(1, M2);
        auto bound = [](const S& n, const int& key) { return (*n + key) % M1 != R1; };
        auto test = [](const S& n, const int& key) { return (*n + key) % M2 != R2; };
        int key = g.in(0, 5), how = g.in(0, 4);
        std::vector<Path> seen;
        Path from;
        bool same = true;
        vk::about("query");
        if (how == 0) {
            auto q = n.query(key, bound, [](const S& n, const int& key) { return S::template visit_all_nodes<int>(n, key); });
            for (; q != n.end() && seen.size() < 300; ++q) seen.push_back(path_of(t, *q));
            M2 = 1; R2 = 1;
        } else if (how == 1) {
            auto q = n.query(key, bound, [](const S& n, const int& key) { return S::template visit_all_leaf_nodes<int>(n, key); });
            for (; q != n.end() && seen.size() < 300; q++) seen.push_back(path_of(t, *q));
            M2 = 0; R2 = 0;
        } else if (how == 4) {
            // onward from a node below
            std::vector<S> below{n};
            for (size_t i = 0; i < below.size() && below.size() < 40; ++i) if (below[i].node_count() > 0) for (S k = below[i].begin(); k != below[i].end(); ++k) below.push_back(k);
            S x = below[g.in(0, (int)below.size() - 1)];
            auto q = n.query(key, bound, test);
            auto& w = (q = x);
            if (&w != &q || &x.tree() != &t) same = false;
            from = path_of(t, x);
            for (; q != n.end() && seen.size() < 300; ++q) seen.push_back(path_of(t, *q));
        } else {
            auto q = n.query(key, bound, test);
            auto q2 = q;
            for (; not (q == n.end()) && seen.size() < 300; ++q) {
                if (q != q2) same = false;
                if (**q != *(*q2)) same = false;
                seen.push_back(path_of(t, *q));
                auto q3 = q2++;
                if (q3 != q) same = false;
            }
            if (q != q2) same = false;
        }
        Ev e("Query");
        e.kv("s", c.s + 1).kv("p", c.p).kv("key", key).kv("m1", M1).kv("r1", R1).kv("m2", M2).kv("r2", R2).kv("seek", how == 4).kv("from", from).kv("seen", seen).kv("same", same).kv("const", isconst);
        state(e);
    } else if (c.op == "Range") {
        std::vector<int> below;
        vk::about("subtree_begin");
        if (n.node_count() > 0) for (S k = n.subtree_begin(); k != n.subtree_end() && below.size() < 300; ++k) below.push_back(*k);
        else if (n.subtree_begin() != n.subtree_end()) below.push_back(-1);
        Ev e("Range");
        e.kv("s", c.s + 1).kv("p", c.p).kv("below", below);
        // climbing and descending by operators
        bool moves = true;
        if (n.node_count() > 0) {
            S k = n; +k; if (k != n.begin()) moves = false;
            -k; if (k != n) moves = false;
            S l = n.begin();
            for (int i = 0; i + 1 < n.node_count(); ++i) { S was = l++; S b = l; if (--b != was) moves = false; b = l; if (b-- != l || b != was) moves = false; }
            S off = n.end(); --off; if (off != l) moves = false;
        }
        e.kv("moves", moves);
        state(e);
    }
}

static void exec(Cmd c, vk::Rng& g) {
    TT& t = *slot[c.s];
    vk::about(c.op);
    if (c.op == "FindParent" || c.op == "Query" || c.op == "Range") {
        if (g.chance(50)) ask(c, t, cat(c.s, c.p), g, true); else ask(c, t, at(c.s, c.p), g, false);
        return;
    }
    Sub n = at(c.s, c.p);
    std::string op = c.op;
    Ev e(op.c_str());
    e.kv("s", c.s + 1).kv("p", c.p).kv("pos", c.pos);
    if (op == "InsertChild") {
        int d = fresh++;
        Sub r = c.pos == n.node_count() && g.chance(50) ? n.insert_child_node(d) : n.insert_child_node(child(n, c.pos), d);
        e.kv("d", d).kv("ret", path_of(t, r));
    } else if (op == "InsertChildBad") {
        // before a node that is no child of n, nor its end
        auto ps = all_paths(t.root());
        Sub b = at(c.s, ps[g.in(0, (int)ps.size() - 1)]);
        if (b != t.root() && (b == n.end() || b.parent() == n)) return;
        std::vector<int> ds{fresh, fresh + 1};
        Sub r = g.chance(50) ? n.insert_child_node(b, fresh) : n.insert_child_nodes(b, ds.begin(), ds.end());
        e.kv("isend", r == n.end());
    } else if (op == "InsertChildren") {
        std::vector<int> ds;
        for (int i = 0; i < c.k; ++i) ds.push_back(fresh++);
        Sub r = c.pos == n.node_count() && g.chance(50) ? n.insert_child_nodes(ds.begin(), ds.end()) : n.insert_child_nodes(child(n, c.pos), ds.begin(), ds.end());
        e.kv("ds", ds).kv("ret", ds.empty() ? Path{} : path_of(t, r)).kv("isend", r == n.end());
    } else if (op == "InsertItem") {
        int x = fresh++;
        auto r = c.pos == n.item_count() && g.chance(50) ? n.insert_item(x) : n.insert_item(item(n, c.pos), x);
        e.kv("xs", Path{x}).kv("ret", item_no(c.s, r)).kv("isend", r == n.items_end());
    } else if (op == "InsertItems") {
        std::vector<int> xs;
        for (int i = 0; i < c.k; ++i) xs.push_back(fresh++);
        index_t count = c.k;
        auto r = c.pos == n.item_count() && g.chance(50) ? n.insert_items(xs.begin(), xs.end())
            : n.insert_items(item(n, c.pos), xs.begin(), xs.end(), xs.empty() || n.node_count() > 0 ? nullptr : &(count = -1));
        e.kv("xs", xs).kv("ret", item_no(c.s, r)).kv("isend", r == n.items_end());
        if (count != c.k) e.kv("badcount", true);
    } else if (op == "SetData") {
        int d = fresh++;
        *n = d;
        e.kv("d", d);
    } else if (op == "SetItem") {
        int x = fresh++;
        *item(n, c.pos - 1) = x;
        e.kv("x", x);
    } else if (op == "EraseItem") {
        bool ok = false;
        auto r = n.erase(item(n, c.pos - 1), &ok);
        e.kv("ok", ok).kv("ret", item_no(c.s, r)).kv("isend", r == n.items_end());
    } else if (op == "EraseItemForeign") {
        // an item of another node, or of an internal one
        int total = t.item_count();
        if (!total) return;
        int x = g.in(1, total);
        auto it = item(t.root(), x - 1);
        if (n.node_count() == 0) for (auto i = n.items_begin(); i != n.items_end(); ++i) if (i == it) return;
        bool ok = true;
        n.erase(it, &ok);
        e.kv("ok", ok);
    } else if (op == "EraseChild") {
        bool ok = false;
        Sub r = n.erase(child(n, c.pos - 1), &ok);
        bool where = c.pos <= n.node_count() ? r == child(n, c.pos - 1) : r == n.end();
        e.kv("ok", ok).kv("where", where);
    } else if (op == "EraseChildBad") {
        auto ps = all_paths(t.root());
        Sub b = at(c.s, ps[g.in(0, (int)ps.size() - 1)]);
        if (b != t.root() && b.parent() == n) return;
        bool ok = true;
        Sub r = n.erase(b, &ok);
        e.kv("ok", ok).kv("isend", r == n.end());
    } else if (op == "Flatten") {
        n.flatten();
    } else if (op == "Clear") {
        n.clear();
    } else if (op == "Split") {
        int d = fresh++, pivot = g.in(1, d);
        if (n.item_count() > 0 && g.chance(70)) pivot = *item(n, g.in(0, n.item_count() - 1));
        Sub r = n.split([](int a, int b) { return a - b; }, pivot, d);
        bool isend = r == n.end();
        e.kv("d", d).kv("pivot", pivot).kv("isend", isend).kv("ret", isend ? Path{} : path_of(t, r));
    } else if (op == "Adopt") {
        Sub r = c.k % 2 ? n.adopt(at(c.u, c.q), child(n, c.pos)) : n.adopt(cat(c.u, c.q), child(n, c.pos));
        e.kv("u", c.u + 1).kv("q", c.q).kv("ret", path_of(t, r));
    } else if (op == "Copy") {
        slot[c.s].reset(new TT(*slot[c.u]));
        e.kv("u", c.u + 1);
    } else if (op == "CopySub") {
        CSub from = cat(c.u, c.q);
        std::unique_ptr<TT> o(new TT(from));
        slot[c.s] = std::move(o);
        e.kv("u", c.u + 1).kv("q", c.q);
    } else if (op == "Move") {
        std::unique_ptr<TT> o(new TT(std::move(*slot[c.u])));
        slot[c.s] = std::move(o);
        *slot[c.u]->root() = fresh;
        e.kv("u", c.u + 1).kv("d", fresh++);
    } else if (op == "FromItems") {
        std::vector<int> xs;
        for (int i = 0; i < c.k; ++i) xs.push_back(fresh++);
        slot[c.s].reset(new TT(xs.begin(), xs.end()));
        *slot[c.s]->root() = fresh;
        e.kv("xs", xs).kv("d", fresh++);
    } else if (op == "Equal") {
        const TT& a = *slot[0]; const TT& b = *slot[1];
        e.kv("eq", a == b).kv("ne", b != a).kv("self", a == a);
        CSub ca = cat(0, {});
        e.kv("own", slot[0]->subtree(ca) == slot[0]->root()).kv("foreign", slot[1]->subtree(ca) == slot[1]->end());
    } else {
        return;
    }
    state(e);
}

int main(int argc, char** argv) {
    vk::open();
    vk::Rng g(atoi(argv[1]));
    int eps = atoi(argv[2]), len = atoi(argv[3]);
    bool query = std::string(argv[4]) == "query";
    // walks: "op pos n p1..pn", one per line; "--" ends a history
    std::string line;
    bool open = false;
    char buf[4096];
    while (fgets(buf, sizeof buf, stdin)) {
        if (buf[0] == '-') { open = false; continue; }
        if (!open) { reset(); open = true; }
        std::istringstream in(buf);
        Cmd c;
        int k;
        in >> c.op >> c.pos >> k;
        while (k-- > 0) { int x; in >> x; c.p.push_back(x); }
        exec(c, g);
    }
    for (int ep = 0; ep < eps; ++ep) {
        reset();
        int cap = g.in(3, 14);
        for (int i = 0; i < len; ++i) {
            Cmd c;
            c.s = g.chance(75) ? 0 : 1;
            auto ps = all_paths(slot[c.s]->root());
            c.p = ps[g.in(0, (int)ps.size() - 1)];
            if (g.chance(20)) for (auto& p : ps) if (p.size() > c.p.size()) c.p = p;
            Sub n = at(c.s, c.p);
            bool leaf = n.node_count() == 0;
            int total = slot[c.s]->size(), items = slot[c.s]->item_count();
            int r = g.in(0, query ? 160 : 100);
            c.u = g.in(0, 1);
            auto qs = all_paths(slot[c.u]->root());
            c.q = qs[g.in(0, (int)qs.size() - 1)];
            c.k = g.in(0, 3);
            if (r < 16) { if (total > cap) continue; c.op = "InsertChild"; c.pos = g.in(0, n.node_count()); }
            else if (r < 20) { if (total > cap) continue; c.op = "InsertChildren"; c.pos = g.in(0, n.node_count()); }
            else if (r < 22) c.op = "InsertChildBad";
            else if (r < 42) { if (items > cap + 4) continue; c.op = "InsertItem"; c.pos = leaf ? g.in(0, n.item_count()) : 0; }
            else if (r < 46) { if (items > cap + 4) continue; c.op = "InsertItems"; c.pos = leaf ? g.in(0, n.item_count()) : 0; }
            else if (r < 48) c.op = "SetData";
            else if (r < 50) { if (!leaf || !n.item_count()) continue; c.op = "SetItem"; c.pos = g.in(1, n.item_count()); }
            else if (r < 58) { if (!leaf || !n.item_count()) continue; c.op = "EraseItem"; c.pos = g.in(1, n.item_count()); }
            else if (r < 60) c.op = "EraseItemForeign";
            else if (r < 66) { if (leaf) continue; c.op = "EraseChild"; c.pos = g.in(1, n.node_count()); }
            else if (r < 68) c.op = "EraseChildBad";
            else if (r < 71) c.op = "Flatten";
            else if (r < 74) c.op = "Clear";
            else if (r < 83) c.op = "Split";
            else if (r < 89) {
                if (total + (int)slot[c.u]->size() > cap + 6 || items + (int)slot[c.u]->item_count() > cap + 8) continue;
                c.op = "Adopt"; c.pos = g.in(0, n.node_count());
            }
            else if (r < 91) { if (c.s == c.u) continue; c.op = "Copy"; }
            else if (r < 93) { c.op = "CopySub"; }
            else if (r < 95) { if (c.s == c.u) continue; c.op = "Move"; }
            else if (r < 96) c.op = "FromItems";
            else if (r < 99) c.op = "Equal";
            else if (r < 120) c.op = "Query";
            else if (r < 145) c.op = "FindParent";
            else c.op = "Range";
            exec(c, g);
        }
    }
    vk::close();
}
