// M03: a graph container against a plain multimap model, over generated histories.
#include <chdr.hpp>
#include "pbt.hpp"
#include "env.hpp"
#include <algorithm>
#include <map>
#include <optional>
#include <vector>
using pbt::Ctx;

template <class I, class S>
static void one(Ctx& c) {
    using G = chdr::mazes::graph<I, S>; using E = typename G::edge_t; using M = std::map<I, std::vector<E>>;
    sv::audit_resource res[2];
    auto resource = [&]() -> std::pmr::memory_resource* { const auto k = c.draw(3); return k == 0 ? std::pmr::get_default_resource() : &res[k - 1]; };
    const uint64_t ids = c.one<uint64_t>({2, 4, 8, 30}), costs = c.one<uint64_t>({1, 2, 5});
    auto id   = [&]() -> I { return c.chance(1, 12) ? (c.chance(1, 2) ? std::numeric_limits<I>::max() : static_cast<I>(std::numeric_limits<I>::min() + 1)) : static_cast<I>(c.draw(ids)); };
    auto cost = [&]() -> S { return c.chance(1, 20) ? std::numeric_limits<S>::max() : static_cast<S>(c.draw(costs)); };
    auto edge = [&]() -> E { const I to = id(); return {to, cost()}; };
    auto str  = [](const E& e) { return "->" + std::to_string(e.first) + " cost " + std::to_string(e.second); };
    {
    std::optional<G> g[2]; M m[2];
    auto drop = [](M& mm, I from, const E& e) { auto it = mm.find(from); if (it == mm.end()) { return; } auto& v = it->second; v.erase(std::remove(v.begin(), v.end(), e), v.end()); if (v.empty()) { mm.erase(it); } };
    auto verify = [&](size_t k) {
        const G& x = *g[k]; const M& y = m[k];
        CHECK(x.count() == y.size(), "count", "graph %zu counts %zu nodes instead of %zu", k, x.count(), y.size());
        auto same = [&](I i, auto a, const std::vector<E>& want) {
            std::vector<E> v(a.begin(), a.end()), w = want; std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end());
            if (v != w) { std::string s, t; for (auto& e : v) { s += str(e) + ", "; } for (auto& e : w) { t += str(e) + ", "; } c.fail("edges", "node %s of graph %zu has the edges [%s] instead of [%s]", std::to_string(i).c_str(), k, s.c_str(), t.c_str()); }
        };
        for (auto& [i, v] : y) {
            CHECK(x.contains(i), "contains", "node %s is missing from graph %zu", std::to_string(i).c_str(), k);
            same(i, x.get_neighbours(i), v); same(i, x.template get_neighbours<true>(i), v);
            const I j = i; CHECK(x[j].is_active() && x[j].id() == j, "node", "node %s of graph %zu is handed out as %s", std::to_string(i).c_str(), k, std::to_string(x[j].id()).c_str());
        }
        for (uint64_t i = 0; i <= ids; ++i) { const I j = static_cast<I>(i); CHECK(x.contains(j) == (y.count(j) != 0), "contains", "node %s is reported %s graph %zu", std::to_string(j).c_str(), y.count(j) ? "missing from" : "present in", k); }
        auto walk = [&](auto b, auto e, const char* what) {
            std::map<I, int> seen; size_t n = 0;
            for (auto it = b; it != e; ++it) { CHECK(++n <= y.size() && ++seen[it->first] == 1, "iteration", "%s of graph %zu visits node %s more than once", what, k, std::to_string(it->first).c_str()); auto f = y.find(it->first); CHECK(f != y.end(), "iteration", "%s of graph %zu visits node %s, which is not there", what, k, std::to_string(it->first).c_str()); same(it->first, it->second, f->second); }
            CHECK(n == y.size(), "iteration", "%s of graph %zu visits %zu nodes instead of %zu", what, k, n, y.size());
        };
        walk(x.begin(), x.end(), "iteration"); walk(x.cbegin(), x.cend(), "constant iteration"); walk(g[k]->begin(), g[k]->end(), "mutable iteration");
    };
    for (size_t k = 0; k < 2; ++k) {
        if (c.chance(1, 3)) {                                 // from a list
            E e[9]; for (auto& x : e) { x = edge(); }
            const auto shape = c.draw(4); c.note("graph %zu from list of shape %llu: %s %s %s %s ...", k, static_cast<unsigned long long>(shape), str(e[0]).c_str(), str(e[1]).c_str(), str(e[2]).c_str(), str(e[3]).c_str());
            std::vector<std::vector<E>> l; auto* r = resource();
            switch (shape) {
                case 0:  g[k].emplace(std::initializer_list<std::initializer_list<E>>{{e[0]}, {e[1], e[2]}}, r); l = {{e[0]}, {e[1], e[2]}}; break;
                case 1:  g[k].emplace(std::initializer_list<std::initializer_list<E>>{{e[0], e[1], e[2]}, {}, {e[3]}, {e[4], e[5]}, {e[6], e[7], e[8]}}, r); l = {{e[0], e[1], e[2]}, {}, {e[3]}, {e[4], e[5]}, {e[6], e[7], e[8]}}; break;
                case 2:  g[k].emplace(std::initializer_list<std::initializer_list<E>>{{}, {e[0], e[0]}, {}}, r); l = {{}, {e[0], e[0]}, {}}; break;
                default: g[k].emplace(std::initializer_list<std::initializer_list<E>>{{e[0]}, {e[1]}, {e[2]}, {e[3]}, {e[4]}, {e[5]}, {e[6], e[7]}, {}}, r); l = {{e[0]}, {e[1]}, {e[2]}, {e[3]}, {e[4]}, {e[5]}, {e[6], e[7]}, {}}; break;
            }
            for (size_t i = 0; i < l.size(); ++i) { m[k][static_cast<I>(i)] = l[i]; }
        }
        else { g[k].emplace(resource()); }
        verify(k);
    }
    const size_t steps = 1 + c.draw(40); size_t removed = 0, added = 0; bool moved = false;
    for (size_t t = 0; t < steps; ++t) {
        const size_t k = c.draw(2), o = 1 - k;
        switch (c.pick({6, 24, 10, 4, 1, 2, 2, 1})) {
            case 0: { const I i = id(); c.note("%zu: add %s", k, std::to_string(i).c_str()); g[k]->add(i); m[k].try_emplace(i); ++added; break; }
            case 1: { const I i = id(); const E e = edge(); c.note("%zu: add %s %s", k, std::to_string(i).c_str(), str(e).c_str()); g[k]->add(i, e); m[k][i].push_back(e); ++added; break; }
            case 2: {                                          // an edge that is there
                if (m[k].empty()) { break; } auto it = m[k].begin(); std::advance(it, c.draw(m[k].size())); if (it->second.empty()) { break; }
                const I i = it->first; const E e = c.of(it->second); c.note("%zu: remove %s %s", k, std::to_string(i).c_str(), str(e).c_str()); g[k]->remove(i, e); drop(m[k], i, e); ++removed; break; }
            case 3: { const I i = id(); const E e = edge(); if (auto f = m[k].find(i); f != m[k].end() && f->second.empty()) { break; } c.note("%zu: remove %s %s", k, std::to_string(i).c_str(), str(e).c_str()); g[k]->remove(i, e); drop(m[k], i, e); break; }
            case 4: { c.note("%zu: clear", k); g[k]->clear(); m[k].clear(); break; }
            case 5: { c.note("%zu: assigned by move from %zu", k, o); *g[k] = std::move(*g[o]); m[k] = m[o]; g[o]->clear(); m[o].clear(); moved = true; break; }
            case 6: { c.note("%zu: constructed by move from %zu", k, o); { G x(std::move(*g[o])); g[k].reset(); g[k].emplace(std::move(x)); } m[k] = m[o]; g[o].reset(); g[o].emplace(resource()); m[o].clear(); moved = true; break; }
            default: { c.note("%zu: destroyed", k); g[k].reset(); g[k].emplace(resource()); m[k].clear(); break; }
        }
        verify(0); verify(1);
    }
    if (added > 3 && removed > 0) { c.nontrivial(); }
    c.label("%s%s", removed ? "edges removed" : "no edge removed", moved ? ", moved" : "");
    }
    for (auto& r : res) { CHECK(r.error.empty(), "resource", "%s", r.error.c_str()); CHECK(r.live.empty(), "leak", "%zu blocks are left in the memory resource", r.live.size()); }
}
// Large graphs: many nodes, or many edges of one node. The contents are expanded from one drawn number.
template <class I, class S>
static void large(Ctx& c) {
    using G = chdr::mazes::graph<I, S>; using E = typename G::edge_t;
    uint64_t s = c.draw(1U << 30); auto rnd = [&](uint64_t k) { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (z ^ (z >> 31)) % k; };
    const auto kind = c.draw(3); const size_t nodes = kind == 0 ? 1 + c.draw(4) : kind == 1 ? 200 + c.draw(2000) : 65530 + c.draw(8000), most = kind == 0 ? c.one<size_t>({300, 3000, 66000}) : kind == 1 ? 4 * nodes : nodes, spread = c.one<size_t>({1, 1000, 100000});
    std::map<I, std::vector<E>> m; sv::audit_resource res; size_t edges = 0, removed = 0;
    {
        G g(&res);
        auto id = [&] { return static_cast<I>(rnd(nodes) * (kind == 2 ? 1 : 1 + spread % 7)); };
        auto verify = [&](G& x, const char* what) {
            CHECK(x.count() == m.size(), "count", "%s: %zu nodes are counted instead of %zu", what, x.count(), m.size());
            size_t n = 0; for (auto& [i, v] : x) { auto f = m.find(i); CHECK(f != m.end(), "iteration", "%s: iteration visits a node that is not there", what); ++n; std::vector<E> a(v.begin(), v.end()), b = f->second; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "edges", "%s: node %s has %zu edges instead of %zu, or others", what, std::to_string(i).c_str(), a.size(), b.size()); }
            CHECK(n == m.size(), "iteration", "%s: iteration visits %zu nodes of %zu", what, n, m.size());
            for (auto& [i, v] : m) { const G& y = x; CHECK(y.contains(i) && y[i].id() == i, "contains", "%s: node %s is missing", what, std::to_string(i).c_str()); auto a = y.get_neighbours(i); CHECK(static_cast<size_t>(std::distance(a.begin(), a.end())) == v.size(), "edges", "%s: node %s has another number of neighbours", what, std::to_string(i).c_str()); }
        };
        const size_t steps = 1 + c.draw(5);
        for (size_t t = 0; t < steps; ++t) {
            const size_t k = 1 + c.draw(most); c.note("add %zu edges over %zu nodes, costs below %zu", k, nodes, spread);
            for (size_t q = 0; q < k; ++q) { const I i = id(); const E e{id(), static_cast<S>(rnd(spread))}; if (rnd(6) == 0) { g.add(e.first); m.try_emplace(e.first); } g.add(i, e); m[i].push_back(e); ++edges; }
            if (c.chance(1, 2)) { const size_t r = 1 + c.draw(40); for (size_t q = 0; q < r && !m.empty(); ++q) { auto f = m.lower_bound(id()); if (f == m.end() || f->second.empty()) { continue; } const I i = f->first; const E e = f->second[rnd(f->second.size())]; g.remove(i, e); auto& v = f->second; v.erase(std::remove(v.begin(), v.end(), e), v.end()); if (v.empty()) { m.erase(f); } ++removed; } }
            if (c.chance(1, 4)) { c.note("moved"); G x(std::move(g)); verify(x, "moved"); g = std::move(x); }
            verify(g, "after additions");
        }
        if (c.chance(1, 2)) { g.clear(); m.clear(); verify(g, "cleared"); }
    }
    if (edges > 300) { c.nontrivial(); } c.label("large: %s%s", kind == 0 ? "few nodes" : kind == 1 ? "up to 2200 nodes" : "more than 65530 nodes", removed ? ", edges removed" : "");
    CHECK(res.error.empty(), "resource", "%s", res.error.c_str()); CHECK(res.live.empty(), "leak", "%zu blocks are left in the memory resource", res.live.size());
}
namespace pbt {
const char* harness_rule() { return "A case is a history of up to 40 operations (add node, add edge, remove edge, clear, move, build from list, destroy) over two graphs and up to three memory resources; after every one, all observers of both graphs are compared with a multimap model. Non-trivial: more than three additions and at least one removal of an existing edge. The large- targets: up to five bursts over one graph of up to 66000 edges of a node or 73000 nodes; non-trivial: more than 300 edges."; }
#define E(I, S) {#I "-" #S, one<I, S>, 8000, 400000},
using u8 = uint8_t; using u32 = uint32_t; using u64 = size_t; using i32 = int32_t;
#define L(I, S) {"large-" #I "-" #S, large<I, S>, 16, 800},
std::vector<Target> harness_targets() { return { E(u32, int) E(u64, double) E(u32, float) E(u8, u32) E(i32, u64) L(u32, int) L(u64, double) }; }
std::vector<std::string> harness_assumptions() { return {"no edge is removed from a node without edges"}; }
}
