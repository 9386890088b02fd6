// R01, R02, R03: routes on grids. The property is chosen at compile time: -DPROP=1, 2 or 3.
#include "env.hpp"
#include "solve.hpp"
#include <cstring>
using namespace sv;
using pbt::Ctx;

#ifndef HUGE_IN
#define HUGE_IN 3000
#endif
static bool is(const char* s, std::initializer_list<const char*> l) { for (auto x : l) { if (!strcmp(s, x)) { return true; } } return false; }
static bool exponential(const char* s) { return is(s, {"idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs", "eidastar"}); }
static bool bounded(const char* s)     { return is(s, {"smastar", "osmastar", "mgstar"}); }

static void one(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const Variant*>> by;
    if (by.empty()) { for (auto& v : variants()) { if (PROP != 3 || !v.lazy) { by[v.solver].push_back(&v); } } }
    const auto& vs = by[solver];
    if (vs.empty()) { c.discard(); }
    const Variant& v = *vs[c.draw(vs.size())];
    GenOpt go; go.outside = PROP == 2;
    if (exponential(solver)) { go.max_cells = 30; go.max_free = v.octile ? 12 : 18; go.lengthy = std::min<size_t>(v.maxcells, v.octile ? 600 : 1500); }
    else                     { go.max_cells = v.rank <= 2 ? 144 : 200; go.large = std::min<size_t>(v.octile && v.rank > 2 ? 1500 : is(solver, {"smastar", "osmastar"}) ? 400 : 6000, v.maxcells); }
    if (!exponential(solver) && !bounded(solver) && v.maxcells > 200000 && v.rank <= 3 && !(v.octile && v.rank == 3)) { go.huge = 66600; go.huge_in = HUGE_IN; }
    const Query q = gen_query(c, v.rank, go);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(v.n_heuristics)); o.capacity = c.chance(1, 4) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    if (bounded(solver)) { o.memory_limit = 4 * q.count() + 64; }
#if PROP != 3
    if (c.chance(1, 5)) { o.weight = static_cast<double>(c.draw(4)); }
#endif
    c.note("%s rank %u lazy=%d reverse=%d octile=%d types %s heuristic %s weight %g capacity %zu", v.solver, v.rank, v.lazy, v.reverse, v.octile, v.types, v.heuristics[o.heuristic], o.weight, o.capacity);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    Pools pools;
    const Path p = v.run(q, o, pools);
    if (c.describing) { c.note("result %s", path_str(p, v.rank).c_str()); }
    const bool both = q.valid();
    const auto dist = both ? q.distances(q.idx(q.start), v.octile)[q.idx(q.end)] : Query::INF;
    c.label("%s%s", q.shape == 7 ? "long corridor, " : q.shape == 6 ? "huge grid, " : q.shape == 5 ? "large grid, " : "", dist == Query::INF ? (both ? "unreachable" : q.inside(q.start) && q.inside(q.end) ? "inactive end point" : "end point outside") : dist == 0 ? "start=end" : dist < 4 ? "distance 1-3" : dist < 10 ? "distance 4-9" : "distance 10+");
#if PROP == 1
    if (p.size() > 1) { c.nontrivial(); }
    if (!p.empty() && !both) { c.fail("no-such-route", "%s: a route between cells of which one is not active: %s", v.solver, path_str(p, v.rank).c_str()); }
    if (!p.empty()) { check_route(c, q, p, v.octile, v.solver); }
#elif PROP == 2
    if (dist > 1) { c.nontrivial(); }
    if (dist == 0)                { CHECK(p.size() == 1 && p[0] == q.end, "trivial-route", "%s: start is end, but the result is %s", v.solver, path_str(p, v.rank).c_str()); }
    else if (dist != Query::INF)  { CHECK(!p.empty(), "not-found", "%s: end is reachable in %zu steps but the result is empty", v.solver, dist); }
    else                          { CHECK(p.empty(), "found-impossible", "%s: end is not reachable but the result is %s", v.solver, path_str(p, v.rank).c_str()); }
    if (!strcmp(solver, "flood") && dist != Query::INF) { CHECK(p.size() == 1 && p[0] == q.end, "flood-answer", "flood: expected the end, got %s", path_str(p, v.rank).c_str()); }
#else
    if (dist != Query::INF && dist > 1) { c.nontrivial(); }
    if (!p.empty() && dist != Query::INF) {
        // The end points may or may not be listed.
        const size_t listed = p.size() - (p.front() == q.start || p.back() == q.start) - (dist > 0 && (p.front() == q.end || p.back() == q.end));
        const size_t least = dist > 0 ? dist - 1 : 0;
        CHECK(listed <= least, "not-shortest", "%s: the route has %zu cells between its ends, a shortest one has %zu: %s", v.solver, listed, least, path_str(p, v.rank).c_str());
    }
#endif
}

#define COMPLETE(F) F(astar, 10) F(best_first, 10) F(bfs, 10) F(dfs, 10) F(dijkstra, 10) F(eidastar, 6) F(eidbest_first, 6) F(eiddfs, 6) F(fringe, 10) F(gbest_first, 10) F(gbfs, 10) F(gdfs, 10) F(gstar, 10) F(idastar, 6) F(idbest_first, 6) F(iddfs, 6)
#define BOUNDED(F)  F(mgstar, 8) F(osmastar, 4) F(smastar, 4)
#define OPTIMAL(F)  F(astar, 14) F(bfs, 10) F(dijkstra, 10) F(eidastar, 8) F(eiddfs, 8) F(fringe, 14) F(gbfs, 10) F(gstar, 14) F(idastar, 8) F(iddfs, 8)
#if PROP == 1
#define ALL(F) COMPLETE(F) BOUNDED(F)
#elif PROP == 2
#define ALL(F) COMPLETE(F) F(flood, 6)
#else
#define ALL(F) OPTIMAL(F)
#endif
#define T(s, n) static void t_##s(Ctx& c) { one(c, #s); }
ALL(T)

namespace pbt {
const char* harness_rule() {
    return "A case is one search: solver, one of its instantiations (rank 1-5, weight/scalar/coordinate/index types, options), a generated grid with start and end, heuristic, weight and capacity hint. Non-trivial: "
#if PROP == 1
    "a route of at least two listed cells came back.";
#elif PROP == 2
    "start and end are not the same cell and not neighbours (unreachable and inactive ends included).";
#else
    "the shortest route has at least two steps.";
#endif
}
#define E(s, n) {#s, t_##s, n * 1000, n * 20000},
std::vector<Target> harness_targets() { return { ALL(E) }; }
std::vector<std::string> harness_assumptions() {
    return {"every step on a grid costs one; lattice sizes are bounded (up to 6000 cells, 30 for solvers whose running time is exponential)",
            "SMA*, OSMA* and MG* run with an ample memory limit here"};
}
}
