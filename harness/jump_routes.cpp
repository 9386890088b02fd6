// R04: jump-point search on two-dimensional octile grids, against an exhaustive search over single steps.
#include "env.hpp"
#include "solve.hpp"
#include <queue>
#ifndef HUGE_IN
#define HUGE_IN 3000
#endif
using namespace sv;
using pbt::Ctx;

// A diagonal step may pass one blocked corner, but not squeeze between two.
static bool step_ok(const Query& q, const Cell& a, int dx, int dy) {
    Cell b = a; b[0] += static_cast<uint32_t>(dx); b[1] += static_cast<uint32_t>(dy);
    if (!q.on(b)) { return false; }
    if (dx && dy) { Cell h = a, v = a; h[0] = b[0]; v[1] = b[1]; return q.on(h) || q.on(v); }
    return true;
}
struct Cost { unsigned straight = 0, diagonal = 0; double metric(bool unit) const { return straight + diagonal * (unit ? 1.0 : std::sqrt(2.0)); } };

static std::vector<double> exhaustive(const Query& q, size_t s, bool unit) {
    std::vector<double> d(q.count(), std::numeric_limits<double>::infinity());
    using E = std::pair<double, size_t>; std::priority_queue<E, std::vector<E>, std::greater<E>> pq; d[s] = 0; pq.push({0, s});
    while (!pq.empty()) {
        const auto [g, u] = pq.top(); pq.pop(); if (g > d[u]) { continue; }
        const Cell c = q.cell(u);
        for (int dx = -1; dx <= 1; ++dx) { for (int dy = -1; dy <= 1; ++dy) { if ((dx || dy) && step_ok(q, c, dx, dy)) {
            Cell n = c; n[0] += static_cast<uint32_t>(dx); n[1] += static_cast<uint32_t>(dy);
            const double w = g + (dx && dy && !unit ? std::sqrt(2.0) : 1.0); const auto i = q.idx(n); if (w < d[i] - 1e-12) { d[i] = w; pq.push({w, i}); }
        } } }
    }
    return d;
}
// Walks from a to b in single steps; false if they are not joined by one unobstructed straight or diagonal run.
static bool run_between(const Query& q, Cell a, const Cell& b, Cost& k) {
    const long dx = static_cast<long>(b[0]) - a[0], dy = static_cast<long>(b[1]) - a[1];
    if ((dx == 0 && dy == 0) || (dx && dy && std::labs(dx) != std::labs(dy))) { return false; }
    const int sx = (dx > 0) - (dx < 0), sy = (dy > 0) - (dy < 0);
    while (a[0] != b[0] || a[1] != b[1]) {
        if (!step_ok(q, a, sx, sy)) { return false; }
        a[0] += static_cast<uint32_t>(sx); a[1] += static_cast<uint32_t>(sy); (sx && sy ? k.diagonal : k.straight)++;
    }
    return true;
}
static bool walk(const Query& q, const Path& p, const Cell& from, const Cell& to, Cost& k) {   // p joined with its ends
    Path w; if (p.empty() || !(p.front() == from)) { w.push_back(from); } w.insert(w.end(), p.begin(), p.end()); if (!(w.back() == to)) { w.push_back(to); }
    k = Cost{};
    for (size_t i = 1; i < w.size(); ++i) { if (!run_between(q, w[i - 1], w[i], k)) { return false; } }
    return true;
}

static void one(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const Variant*>> by;
    if (by.empty()) { for (auto& v : variants()) { by[v.solver].push_back(&v); } }
    const auto& vs = by[solver]; const Variant& v = *vs[c.draw(vs.size())];
    GenOpt go; go.max_cells = c.chance(1, 3) ? 400 : 100; go.large = std::min<size_t>(4000, v.maxcells);
    if (v.maxcells > 200000 && !strstr(v.types, "float")) { go.huge = 66600; go.huge_in = HUGE_IN; }
    const Query q = gen_query(c, 2, go);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(v.n_heuristics)); o.capacity = c.chance(1, 4) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    if (v.integral_cost && o.heuristic == 2) { o.heuristic = 3; }                       // Euclidean distance may exceed the integer cost of a route
    c.note("%s types %s lazy=%d reverse=%d heuristic %s capacity %zu", v.solver, v.types, v.lazy, v.reverse, v.heuristics[o.heuristic], o.capacity);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    Pools pools;
    const Path p = v.run(q, o, pools);
    if (v.no_cleanup) { pools.reset_all(); }
    if (c.describing) { c.note("result %s", path_str(p, 2).c_str()); }
    if (!q.valid()) { CHECK(p.empty(), "found-impossible", "%s: an end point is inactive but the result is %s", solver, path_str(p, 2).c_str()); c.label("inactive end point"); return; }
    if (q.start == q.end) { CHECK(p.size() == 1 && p[0] == q.end, "trivial-route", "%s: start is end, got %s", solver, path_str(p, 2).c_str()); c.label("start=end"); return; }
    const bool unit = v.integral_cost;
    const double best = exhaustive(q, q.idx(q.start), unit)[q.idx(q.end)];
    if (best > 1.5) { c.nontrivial(); }
    if (std::isinf(best)) { c.label("unreachable"); CHECK(p.empty(), "found-impossible", "%s: the end is not reachable but the result is %s", solver, path_str(p, 2).c_str()); return; }
    c.label("%sroute of length %s", q.shape == 6 ? "huge grid, " : q.shape == 5 ? "large grid, " : "", best < 2 ? "1" : best < 6 ? "2-5" : "6+");
    CHECK(!p.empty(), "not-found", "%s: the end is reachable at distance %.3f but the result is empty", solver, best);
    for (auto& u : p) { CHECK(q.on(u), "inactive-cell", "%s: %s is not an active cell, route %s", solver, path_str({u}, 2).c_str(), path_str(p, 2).c_str()); }
    Cost k, k2;                                            // the direction is the solver's convention
    const bool there = walk(q, p, q.start, q.end, k), back = walk(q, p, q.end, q.start, k2), ok = there || back;
    if (!there || (back && k2.metric(unit) < k.metric(unit))) { k = k2; }
    CHECK(ok, "not-a-route", "%s: %s is no chain of unobstructed runs from %s to %s", solver, path_str(p, 2).c_str(), path_str({q.start}, 2).c_str(), path_str({q.end}, 2).c_str());
    if (!v.lazy) { CHECK(k.metric(unit) <= best * (1 + 1e-6) + 1e-6, "not-shortest", "%s: the route has length %.4f, a shortest one %.4f: %s", solver, k.metric(unit), best, path_str(p, 2).c_str()); }
}
static void t_jps(Ctx& c) { one(c, "jps"); }
static void t_gjps(Ctx& c) { one(c, "gjps"); }
namespace pbt {
const char* harness_rule() { return "A case is one search by JPS or GJPS: instantiation, a generated 2D grid with start and end, heuristic (octile, Chebyshev, Euclidean, zero) and capacity hint. Non-trivial: both ends are active and not adjacent (unreachable ones included)."; }
std::vector<Target> harness_targets() { return {{"jps", t_jps, 60000, 1500000}, {"gjps", t_gjps, 60000, 1500000}}; }
std::vector<std::string> harness_assumptions() { return {"a diagonal step may pass one blocked corner but may not squeeze between two", "with integer costs every step costs one"}; }
}
