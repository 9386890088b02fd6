// M04: graphs made from grids, and pruned graphs.
#include <chdr.hpp>
#include "pbt.hpp"
#include "env.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <queue>
#include <set>
#include <vector>
using pbt::Ctx;
#ifndef PREFIX
#define PREFIX ""
#endif
static int g_procs = 4;
extern "C" int get_nprocs() { return g_procs; }           // what std::thread::hardware_concurrency() reports

template <class V, size_t D> static std::string show(const chdr::coord<V, D>& u) { std::string s = "("; for (size_t i = 0; i < D; ++i) { s += (i ? "," : "") + std::to_string(u[i]); } return s + ")"; }
using Adj = std::map<int64_t, std::vector<std::pair<int64_t, double>>>;
template <class G> static Adj adjacency(Ctx& c, const G& g) {
    Adj a; for (auto& [i, v] : g) { auto& w = a[static_cast<int64_t>(i)]; for (auto& [t, x] : v) { w.emplace_back(static_cast<int64_t>(t), static_cast<double>(x)); } }
    CHECK(a.size() == g.count(), "iteration", "iteration visits %zu nodes, %zu are counted", a.size(), g.count());
    for (auto& [i, v] : a) { for (auto& [t, x] : v) { CHECK(a.count(t), "dangling", "node %lld has an edge of cost %g to %lld, which is not in the graph", static_cast<long long>(i), x, static_cast<long long>(t)); } }
    std::map<std::tuple<int64_t, int64_t, double>, int> n; for (auto& [i, v] : a) { for (auto& [t, x] : v) { ++n[{i, t, x}]; } }
    for (auto& [k, x] : n) { auto& [i, t, w] = k; auto f = n.find({t, i, w}); CHECK(f != n.end() && f->second == x, "symmetry", "%lld has %d edges of cost %g to %lld, which has %d back", static_cast<long long>(i), x, w, static_cast<long long>(t), f == n.end() ? 0 : f->second); }
    return a;
}
static std::map<int64_t, double> distances(const Adj& a, int64_t from) {
    std::map<int64_t, double> d; using P = std::pair<double, int64_t>; std::priority_queue<P, std::vector<P>, std::greater<P>> q; q.push({0, from});
    while (!q.empty()) { auto [x, i] = q.top(); q.pop(); if (!d.emplace(i, x).second) { continue; } auto f = a.find(i); if (f == a.end()) { continue; } for (auto& [t, w] : f->second) { if (!d.count(t)) { q.push({x + w, t}); } } }
    return d;
}
static void same_distances(Ctx& c, const Adj& before, const Adj& after, size_t sources = SIZE_MAX) {   // from every node, or from some
    const size_t step = after.size() > sources ? after.size() / sources : 1; size_t skip = 1;
    for (auto& [i, v] : after) { if (--skip > 0) { continue; } skip = step; CHECK(before.count(i), "invented", "node %lld was not there before", static_cast<long long>(i)); (void)v;
        const auto p = distances(before, i), q = distances(after, i);
        for (auto& [j, w] : after) { (void)w; auto a = p.find(j), b = q.find(j);
            if (a == p.end()) { CHECK(b == q.end(), "distance", "%lld reaches %lld at cost %g, but is not connected to it", static_cast<long long>(i), static_cast<long long>(j), b->second); continue; }
            CHECK(b != q.end(), "distance", "%lld no longer reaches %lld, at distance %g", static_cast<long long>(i), static_cast<long long>(j), a->second);
            CHECK(a->second == b->second, "distance", "%lld reaches %lld at cost %g instead of %g", static_cast<long long>(i), static_cast<long long>(j), b->second, a->second); } }
}
static void loose_ends(Ctx& c, const Adj& before, const Adj& after) {
    for (auto& [i, v] : before) { if (v.size() < 2) { CHECK(after.count(i), "lost", "node %lld, with %zu edges, is lost", static_cast<long long>(i), v.size()); } }
    if (after.size() > 2) { for (auto& [i, v] : after) { if (v.size() == 2 && v[0].first != i && v[1].first != i) { c.fail("transitory", "node %lld has just two connections and is still there", static_cast<long long>(i)); } } }
}

template <class W, class V, size_t D, class I, class S, bool Large = false>
static void convert(Ctx& c) {
    using C = chdr::coord<V, D>; using G = chdr::mazes::grid<C, W>; constexpr auto wall = std::numeric_limits<W>::max();
    C size{}; size_t n = 1;
    if constexpr (Large) { size_t room = c.one<size_t>({2000, 20000, 67000}) + c.draw(3000); for (size_t k = 0; k < D; ++k) { const size_t s = k + 1 == D ? room : std::min<size_t>(room, c.chance(1, 4) ? 1 + c.draw(9) : 1 + static_cast<size_t>(std::pow(double(room), 1.0 / (D - k))) + c.draw(20)); size[k] = static_cast<V>(s); n *= s; room = (room + s - 1) / s; } }
    else { size_t room = c.chance(1, 8) ? 400 : D <= 2 ? 120 : 80; const size_t first = c.draw(D);
        for (size_t k = 0; k < D; ++k) { const size_t a = (first + k) % D, s = 1 + c.draw(std::max<size_t>(1, std::min<size_t>(room, D == 1 ? room : D == 2 ? 20 : 8))); size[a] = static_cast<V>(s); n *= s; room = std::max<size_t>(1, room / s); } }
    std::vector<W> w(n); const auto kind = c.draw(4);
    auto idx = [&](const C& u) { size_t r = 0; for (size_t k = D; k-- > 0;) { r = r * size[k] + u[k]; } return r; };
    auto cell = [&](size_t i) { C u{}; for (size_t k = 0; k < D; ++k) { u[k] = static_cast<V>(i % size[k]); i /= size[k]; } return u; };
    auto near = [&](size_t i) { std::vector<size_t> r; const C u = cell(i); for (size_t k = 0; k < D; ++k) { if (u[k] > 0) { C d = u; --d[k]; r.push_back(idx(d)); } if (u[k] + 1 < size[k]) { C d = u; ++d[k]; r.push_back(idx(d)); } } return r; };
    uint64_t seed = Large ? 1 + c.draw(1U << 30) : 0; auto odds = [&](uint64_t k, uint64_t of) { if constexpr (!Large) { return c.chance(static_cast<unsigned>(k), static_cast<unsigned>(of)); } seed += 0x9E3779B97F4A7C15ULL; uint64_t z = seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (z ^ (z >> 31)) % of >= of - k; };
    if (kind < 2) { for (size_t i = 0; i < n; ++i) { w[i] = odds(kind == 0 ? 1 : 2, 5) ? wall : static_cast<W>(0); } }
    else {                                                     // corridors: walls between cells at even coordinates, some opened
        for (size_t i = 0; i < n; ++i) { const C u = cell(i); size_t odd = 0; for (auto x : u) { odd += x & 1; } w[i] = odd == 0 ? W(0) : odd == 1 ? (odds(kind == 2 ? 1 : 2, 3) ? wall : W(0)) : (odds(19, 20) ? wall : W(0)); }
    }
    g_procs = static_cast<int>(1 + c.draw(8));
    c.note("%zu cells, size %s, %d processors", n, show<V, D>(size).c_str(), g_procs);
    if (c.describing && n < 3000) { std::string s; for (size_t i = 0; i < n; ++i) { s += w[i] == wall ? '#' : '.'; if ((i + 1) % size[0] == 0) { s += '\n'; } } c.note("%s", s.c_str()); }
    const G grid(size, w);
    Adj whole; size_t junctions = 0, corridors = 0;
    for (size_t i = 0; i < n; ++i) { if (w[i] != wall) { auto& v = whole[static_cast<int64_t>(i)]; for (auto t : near(i)) { if (w[t] != wall) { v.emplace_back(static_cast<int64_t>(t), 1.0); } } junctions += v.size() > 2; corridors += v.size() == 2; } }
    sv::audit_resource r;
    {
        chdr::mazes::graph<I, S> g = c.chance(1, 2) ? chdr::mazes::graph<I, S>(grid, &r) : chdr::mazes::graph<I, S>(grid);
        const Adj a = adjacency(c, g); same_distances(c, whole, a, Large ? 3 : SIZE_MAX); loose_ends(c, whole, a);
    }
    CHECK(r.error.empty(), "resource", "%s", r.error.c_str()); CHECK(r.live.empty(), "leak", "%zu blocks are left in the memory resource", r.live.size());
    if (junctions > 1 && corridors > 2) { c.nontrivial(); }
    c.label("%s%s%s", Large ? n > 65536 ? "more than 65536 cells: " : "large: " : "", junctions ? "junctions" : "no junctions", corridors ? ", corridors" : "");
}

template <class I, class S>
static void prune(Ctx& c) {
    using G = chdr::mazes::graph<I, S>; G g; Adj a;
    const size_t n = 1 + c.draw(c.chance(1, 4) ? 40 : 10); const uint64_t spread = c.one<uint64_t>({1, 3, 50}); const auto base = static_cast<int64_t>(c.chance(1, 3) ? c.draw(100) : 0), stride = static_cast<int64_t>(1 + c.draw(3));
    auto id = [&](size_t i) { return base + static_cast<int64_t>(i) * stride; };
    auto cost = [&] { return static_cast<S>(c.draw(4 * spread)) / static_cast<S>(std::is_floating_point_v<S> ? 4 : 1); };
    std::vector<std::tuple<size_t, size_t, S>> edges; auto link = [&](size_t i, size_t j) { edges.emplace_back(i, j, cost()); };
    switch (c.draw(5)) {
        case 0:  { const size_t m = c.draw(2 * n + 1); for (size_t t = 0; t < m; ++t) { const auto i = c.draw(n), j = c.draw(n); if (i != j) { link(i, j); } } break; }           // anything, parallel edges included
        case 1:  { for (size_t i = 1; i < n; ++i) { if (c.chance(9, 10)) { link(i - 1, i); } } const auto m = c.draw(4); for (size_t t = 0; t < m; ++t) { const auto i = c.draw(n), j = c.draw(n); if (i != j) { link(i, j); } } break; }   // chains
        case 2:  { for (size_t i = 0; n > 1 && i < n; ++i) { link(i, (i + 1) % n); } const auto m = c.draw(3); for (size_t t = 0; t < m; ++t) { const auto i = c.draw(n), j = c.draw(n); if (i != j) { link(i, j); } } break; }          // rings
        case 3:  { for (size_t i = 1; i < n; ++i) { link(c.draw(i), i); } break; }                                                                                                                // trees
        default: { for (size_t i = 1; i < n; ++i) { link(c.chance(1, 3) ? 0 : i - 1, i); } const auto m = c.draw(4); for (size_t t = 0; t < m; ++t) { const auto i = c.draw(n); edges.emplace_back(i, i, cost()); } break; }    // loops of one node
    }
    if (c.chance(1, 2)) { for (size_t i = n; i-- > 1;) { (void)i; } for (size_t i = edges.size(); i > 1; --i) { std::swap(edges[i - 1], edges[c.draw(i)]); } }
    for (size_t i = 0; i < n; ++i) { if (c.chance(3, 4)) { g.add(static_cast<I>(id(i))); a[id(i)]; } }
    for (auto& [i, j, x] : edges) {
        c.note("%lld - %lld cost %s", static_cast<long long>(id(i)), static_cast<long long>(id(j)), std::to_string(x).c_str());
        g.add(static_cast<I>(id(i)), {static_cast<I>(id(j)), x}); a[id(i)].emplace_back(id(j), static_cast<double>(x));
        if (i != j) { g.add(static_cast<I>(id(j)), {static_cast<I>(id(i)), x}); a[id(j)].emplace_back(id(i), static_cast<double>(x)); }
    }
    const size_t had = g.count();
    if (c.chance(1, 2)) { g.prune(); } else { g.template prune<false>(); }
    const Adj b = adjacency(c, g); same_distances(c, a, b); loose_ends(c, a, b);
    CHECK(b.empty() == a.empty(), "lost", "nothing is left of %zu nodes", a.size());
    if (b.size() < had && b.size() > 2) { c.nontrivial(); }
    c.label("%s", b.size() == had ? "nothing pruned" : "pruned");
    const size_t now = g.count(); g.prune();
    CHECK(g.count() == now || now <= 2, "again", "pruning once more removes %zu nodes", now - g.count());
}
namespace pbt {
const char* harness_rule() { return "A case is one grid turned into a graph (with 1 to 8 processors reported), or one undirected weighted multigraph that is pruned; edges must be symmetric and lead to nodes of the graph, all distances between remaining nodes are compared with those before (Dijkstra; from three nodes in the large- targets, of up to about 70000 cells), ends and isolated nodes must remain, transitory ones not. Non-trivial: the grid has more than one junction and more than two corridor cells; pruning removed nodes and left more than two."; }
using u8 = uint8_t; using u32 = uint32_t; using u64 = size_t; using i32 = int32_t; using flt = float; using dbl = double;
#define E(W, V, D, I, S, n) {PREFIX "grid-" #W "-" #V "-" #D "-" #I "-" #S, convert<W, V, D, I, S>, n, n * 40},
#define P(I, S) {"prune-" #I "-" #S, prune<I, S>, 8000, 400000},
#define L(W, V, D, I, S, n) {PREFIX "large-grid-" #W "-" #V "-" #D "-" #I "-" #S, convert<W, V, D, I, S, true>, n, n * 60},
#ifdef THREADS_ONLY
std::vector<Target> harness_targets() { return { E(u8, u32, 2, u32, u32, 1200) E(bool, u64, 3, u64, dbl, 800) L(bool, u64, 2, u32, i32, 8) }; }
#else
std::vector<Target> harness_targets() { return { E(u8, u64, 1, u32, i32, 300) E(u8, u32, 2, u32, u32, 2500) E(bool, u64, 2, u64, dbl, 2500) E(bool, u64, 3, u64, i32, 1500) E(i32, u32, 3, u32, flt, 1500) E(u8, u64, 4, i32, flt, 1000) P(u32, i32) P(u64, dbl) P(i32, flt) P(u8, u64) L(u8, u32, 2, u32, u32, 8) L(bool, u64, 2, u64, i32, 8) L(bool, u64, 3, u64, dbl, 8) }; }
#endif
std::vector<std::string> harness_assumptions() { return {"costs are small enough for sums of them to be exact"}; }
}
