// R06: memory-bounded searches under every memory limit, on grids and graphs.
#include "env.hpp"
#include "gsolve.hpp"
using namespace sv;
using pbt::Ctx;

// From nothing at all to more than the search can use.
static size_t gen_limit(Ctx& c, size_t cells) {
    switch (c.draw(5)) {
        case 0:  return c.draw(10);
        case 1:  return c.draw(cells + 2);
        case 2:  return c.draw(2 * cells + 2);
        case 3:  return 2 * cells + 8 + c.draw(4);
        default: return std::numeric_limits<size_t>::max() - c.draw(3);
    }
}
static void held(Ctx& c, Pools& pools, size_t limit, const char* who) {
    if (!pools.audit) { return; }
    const size_t peak = pools.audit->homo.sum->peak;      // nodes, and one or two tables
    if (limit < (size_t{1} << 40)) { c.label("held over limit: %s", peak <= limit ? "no" : peak <= limit + SLACK ? "within slack" : "more"); CHECK(peak <= limit + SLACK, "limit-exceeded", "%s: %zu nodes held at once under a limit of %zu", who, peak, limit); }
}
static void grid_one(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const Variant*>> by;
    if (by.empty()) { for (auto& v : variants()) { by[v.solver].push_back(&v); } }
    const auto& vs = by[solver]; const Variant& v = *vs[c.draw(vs.size())];
    GenOpt go; go.max_cells = c.chance(1, 2) ? 36 : 120;
    const Query q = gen_query(c, v.rank, go);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(v.n_heuristics)); o.capacity = c.chance(1, 4) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    o.memory_limit = gen_limit(c, q.count());
    const bool ample = o.memory_limit >= 2 * q.count() + 8;
    if (c.chance(1, 4)) { o.weight = static_cast<double>(c.draw(5)); }
    c.note("%s rank %u lazy=%d reverse=%d octile=%d types %s heuristic %s weight %g capacity %zu memory limit %zu", v.solver, v.rank, v.lazy, v.reverse, v.octile, v.types, v.heuristics[o.heuristic], o.weight, o.capacity, o.memory_limit);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    const bool both = q.valid();
    const auto dist = both ? q.distances(q.idx(q.start), v.octile)[q.idx(q.end)] : Query::INF;
    if (dist > 1 && !ample) { c.nontrivial(); }
    Pools pools;
    const Path p = v.run(q, o, pools);
    if (c.describing) { c.note("result %s", path_str(p, v.rank).c_str()); }
    c.label("%s limit, %s, %s", ample ? "ample" : o.memory_limit < 10 ? "tiny" : "tight", dist == Query::INF ? "unreachable" : dist == 0 ? "start=end" : "reachable", p.empty() ? "no route" : "route");
    if (dist == 0) { CHECK(p.size() == 1 && p[0] == q.end, "trivial-route", "%s: start is end, but the result is %s", v.solver, path_str(p, v.rank).c_str()); return; }
    if (dist == Query::INF) { CHECK(p.empty(), "found-impossible", "%s: end is not reachable but the result is %s", v.solver, path_str(p, v.rank).c_str()); }
    if (!p.empty()) { check_route(c, q, p, v.octile, v.solver); }
    if (ample && dist != Query::INF) {
        CHECK(!p.empty(), "not-found", "%s: end is reachable in %zu steps but the result is empty", v.solver, dist);
        const size_t listed = p.size() - (p.front() == q.start || p.back() == q.start) - (p.front() == q.end || p.back() == q.end);
        // MG* closes cells when they are generated, see known_findings.txt
        if (o.weight <= 1 && !(v.octile && !strcmp(solver, "mgstar"))) CHECK(listed <= dist - 1, "not-shortest", "%s: the route has %zu cells between its ends, a shortest one has %zu: %s", v.solver, listed, dist - 1, path_str(p, v.rank).c_str());
    }
    held(c, pools, o.memory_limit, v.solver);
}
static bool is_walk(const GQuery& q, const Path& p, bool reversed) {
    std::vector<size_t> w; for (auto& u : p) { w.push_back(q.idx(u)); } if (reversed) { std::reverse(w.begin(), w.end()); }
    const auto s = q.idx(q.start), e = q.idx(q.end);
    if (w.front() != s) { w.insert(w.begin(), s); } if (w.back() != e) { w.push_back(e); }
    for (size_t i = 1; i < w.size(); ++i) { bool ok = false; for (auto& x : q.edges) { ok |= x.from == w[i - 1] && x.to == w[i]; } if (!ok) { return false; } }
    return true;
}
static void graph_one(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const GVariant*>> by;
    if (by.empty()) { for (auto& v : gvariants()) { by[v.solver].push_back(&v); } }
    const auto& vs = by[solver]; const GVariant& v = *vs[c.draw(vs.size())];
    GGen g; g.unit_scale = v.integral; if (c.chance(1, 2)) { g.max_cells = 10; g.max_edges = 24; }
    const GQuery q = gen_graph(c, v.rank, g);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(2)); o.capacity = c.chance(1, 4) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0;
    o.memory_limit = gen_limit(c, q.count());
    const bool ample = o.memory_limit >= 2 * q.count() + 8;
    if (c.chance(1, 4)) { o.weight = static_cast<double>(c.draw(5)); }
    c.note("%s on a graph, rank %u types %s reverse=%d heuristic %s weight %g capacity %zu memory limit %zu", v.solver, v.rank, v.types, v.reverse, o.heuristic ? "zero" : "manhattan", o.weight, o.capacity, o.memory_limit);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    const bool both = q.on(q.start) && q.on(q.end);
    const auto best = both ? q.costs(q.idx(q.start))[q.idx(q.end)] : GQuery::INF;
    if (both && q.start != q.end && !ample && best != GQuery::INF) { c.nontrivial(); }
    Pools pools;
    const Path p = v.run(q, o, pools);
    if (c.describing) { std::string s; for (auto& u : p) { s += q.inside(u) ? ' ' + std::to_string(q.idx(u)) : " outside"; } c.note("result%s", s.c_str()); }
    c.label("graph, %s limit, %s", ample ? "ample" : o.memory_limit < 10 ? "tiny" : "tight", p.empty() ? "no route" : "route");
    if (both && q.start == q.end) { CHECK(p.size() == 1 && p[0] == q.end, "trivial-route", "%s: start is end, but the result has %zu nodes", solver, p.size()); return; }
    if (best == GQuery::INF) { CHECK(p.empty(), "found-impossible", "%s: the end is not reachable, but a route came back", solver); }
    if (!p.empty()) {
        for (auto& u : p) { CHECK(q.on(u), "no-node", "%s: the route names a coordinate that is no node", solver); }
        CHECK(is_walk(q, p, false) || is_walk(q, p, true), "no-edge", "%s: the route does not follow edges from start to end", solver);
    }
    else if (ample) { CHECK(best == GQuery::INF, "not-found", "%s: the end is reachable, but no route came back", solver); }
    held(c, pools, o.memory_limit, v.solver);
}
// Known finding: with diagonal steps MG* keeps the first route by which a cell is generated, although memory is ample.
static void mgstar_octile(Ctx& c) {
    const char* rows[] = {".....E", "##.###", "......", ".#.###", "S.....", "......"};
    Query q; q.rank = 2; q.size = {6, 6, 1, 1, 1};
    for (auto r : rows) { for (; *r; ++r) { q.active.push_back(*r != '#'); } }
    q.start = {0, 4}; q.end = {5, 0}; RunOpt o; o.memory_limit = 624;
    for (auto& v : variants()) {
        if (strcmp(v.solver, "mgstar") || !v.octile) { continue; }
        Pools pools; const Path p = v.run(q, o, pools); const auto dist = q.distances(q.idx(q.start), true)[q.idx(q.end)];
        const size_t listed = p.size() - (p.front() == q.start || p.back() == q.start) - (p.front() == q.end || p.back() == q.end);
        CHECK(listed <= dist - 1, "not-shortest", "%zu cells between the ends instead of %zu", listed, dist - 1);
    }
}
#define ALL(F) F(mgstar, 70) F(osmastar, 50) F(smastar, 50)
#define T(s, n) static void t_##s(Ctx& c) { grid_one(c, #s); } static void g_##s(Ctx& c) { graph_one(c, #s); }
ALL(T)
namespace pbt {
const char* harness_rule() { return "A case is one search by SMA*, OSMA* or MG* on a generated grid or directed weighted graph, under a generated memory limit from 0 to unlimited. Non-trivial: the limit is not ample and the start is neither the end nor next to it."; }
#define E(s, n) {#s, t_##s, n * 1000, n * 20000}, {#s "-graph", g_##s, n * 500, n * 10000},
std::vector<Target> harness_targets() { return { ALL(E) }; }
std::vector<Target> harness_known() { return {{"mgstar-octile", mgstar_octile, 0, 0}}; }
std::vector<std::string> harness_assumptions() { return {"ample means room for every cell twice"}; }
}
