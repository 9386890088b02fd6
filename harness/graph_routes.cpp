// R05: searches on weighted directed graphs, against a Bellman-Ford reference.
#include "env.hpp"
#include "gsolve.hpp"
using namespace sv;
using pbt::Ctx;
static bool is(const char* s, std::initializer_list<const char*> l) { for (auto x : l) { if (!strcmp(s, x)) { return true; } } return false; }

// The cheapest cost of walking w along directed edges, INF when it does not follow edges.
static uint64_t walk_cost(const GQuery& q, const std::vector<size_t>& w) {
    uint64_t t = 0;
    if (w.size() > 64) {
        std::map<std::pair<size_t, size_t>, uint64_t> all; for (auto& e : q.edges) { const auto [it, fresh] = all.try_emplace({e.from, e.to}, e.cost); if (!fresh) { it->second = std::min<uint64_t>(it->second, e.cost); } }
        for (size_t i = 1; i < w.size(); ++i) { const auto it = all.find({w[i - 1], w[i]}); if (it == all.end()) { return GQuery::INF; } t += it->second; }
        return t;
    }
    for (size_t i = 1; i < w.size(); ++i) {
        uint64_t m = GQuery::INF; for (auto& e : q.edges) { if (e.from == w[i - 1] && e.to == w[i]) { m = std::min<uint64_t>(m, e.cost); } }
        if (m == GQuery::INF) { return m; } t += m;
    }
    return t;
}
static uint64_t as_route(const GQuery& q, const Path& p, bool reversed) {
    std::vector<size_t> w; for (auto& c : p) { w.push_back(q.idx(c)); } if (reversed) { std::reverse(w.begin(), w.end()); }
    const auto s = q.idx(q.start), e = q.idx(q.end);
    if (w.empty() || w.front() != s) { w.insert(w.begin(), s); } if (w.back() != e) { w.push_back(e); }
    return walk_cost(q, w);
}
static void one(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const GVariant*>> by;
    if (by.empty()) { for (auto& v : gvariants()) { by[v.solver].push_back(&v); } }
    const auto& vs = by[solver]; const GVariant& v = *vs[c.draw(vs.size())];
    const bool expo = is(solver, {"idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs", "eidastar"}), optimal = is(solver, {"dijkstra", "astar", "gstar", "idastar", "eidastar", "fringe"});
    GGen g; g.unit_scale = v.integral; g.exact = v.exact; if (expo) { g.max_cells = 10; g.max_edges = 16; } else if (c.chance(1, 10)) { g.max_cells = 200; g.max_edges = 500; } else if (c.chance(1, 2)) { g.max_cells = 10; g.max_edges = 24; }
    g.hub_in = 100; g.hub_limit = v.maxcells; g.huge = expo || is(solver, {"smastar", "osmastar", "mgstar"}) || v.maxcells < 200000 ? 0 : is(solver, {"fringe"}) ? 1 : 2;
    const GQuery q = gen_graph(c, v.rank, g);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(2)); o.capacity = c.chance(1, 4) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    if (is(solver, {"smastar", "osmastar", "mgstar"})) { o.memory_limit = 4 * q.count() + 4 * q.edges.size() + 64; }
    c.note("%s rank %u types %s lazy=%d reverse=%d heuristic %s capacity %zu", v.solver, v.rank, v.types, v.lazy, v.reverse, o.heuristic ? "zero" : "manhattan", o.capacity);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    Pools pools;
    const Path p = v.run(q, o, pools);
    if (c.describing) { std::string s; for (auto& u : p) { s += q.inside(u) ? ' ' + std::to_string(q.idx(u)) : " outside"; } c.note("result%s", s.c_str()); }
    const bool both = q.on(q.start) && q.on(q.end);
    if (!both) { CHECK(p.empty(), "found-impossible", "%s: an end point is no node, but a route came back", solver); c.label("end point is no node"); return; }
    if (q.start == q.end) { CHECK(p.size() == 1 && p[0] == q.end, "trivial-route", "%s: start is end, but the result has %zu nodes", solver, p.size()); c.label("start=end"); return; }
    const auto best = q.costs(q.idx(q.start))[q.idx(q.end)];
    bool direct = false; for (auto& e : q.edges) { direct |= e.from == q.idx(q.start) && e.to == q.idx(q.end) && e.cost <= best; }
    if (!direct) { c.nontrivial(); }
    c.label("%s%s", q.edges.size() > 60000 ? "huge graph, " : q.edges.size() > 500 ? "hub, " : "", best == GQuery::INF ? "unreachable" : direct ? "one edge is best" : "several edges");
    if (best == GQuery::INF) { CHECK(p.empty(), "found-impossible", "%s: the end is not reachable, but a route came back", solver); return; }
    CHECK(!p.empty(), "not-found", "%s: the end is reachable at cost %llu, but no route came back", solver, static_cast<unsigned long long>(best));
    for (auto& u : p) { CHECK(q.on(u), "no-node", "%s: the route names a coordinate that is no node", solver); }
    const auto cost = std::min(as_route(q, p, false), as_route(q, p, true));
    CHECK(cost != GQuery::INF, "no-edge", "%s: the route does not follow edges from start to end", solver);
    if (optimal && !v.lazy) { CHECK(cost <= best, "not-cheapest", "%s: the route costs %llu, a cheapest one %llu", solver, static_cast<unsigned long long>(cost), static_cast<unsigned long long>(best)); }
}
#define ALL(F) F(astar, 12) F(best_first, 6) F(bfs, 6) F(dfs, 6) F(dijkstra, 12) F(eidastar, 8) F(eidbest_first, 5) F(eiddfs, 5) F(fringe, 10) F(gbest_first, 6) F(gbfs, 6) F(gdfs, 6) F(gstar, 12) F(idastar, 8) F(idbest_first, 5) F(iddfs, 5) F(mgstar, 6) F(osmastar, 6) F(smastar, 6)
#define T(s, n) static void t_##s(Ctx& c) { one(c, #s); }
ALL(T)
namespace pbt {
const char* harness_rule() { return "A case is one search on a generated directed weighted graph (up to 200 nodes, now and then a hub or a chain with up to 66600; loops, parallel and zero-cost edges, unreachable parts included): solver, instantiation, ends, heuristic, capacity hint. Non-trivial: start and end differ and no single edge is a cheapest route."; }
#define E(s, n) {#s, t_##s, n * 2000, n * 40000},
std::vector<Target> harness_targets() { return { ALL(E) }; }
std::vector<std::string> harness_assumptions() { return {"edge costs are at least the Manhattan distance of their ends, so that it is consistent", "every edge leads to a node of the graph", "SMA*, OSMA* and MG* run with an ample memory limit here"}; }
}
