// R07: histories of searches over shared memory resources.
#include "env.hpp"
#include "gsolve.hpp"
using namespace sv;
using pbt::Ctx;
static bool is(const char* s, std::initializer_list<const char*> l) { for (auto x : l) { if (!strcmp(s, x)) { return true; } } return false; }
static bool exponential(const char* s) { return is(s, {"idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs", "eidastar"}); }
static bool optimal(const char* s)     { return is(s, {"astar", "bfs", "dijkstra", "eidastar", "eiddfs", "fringe", "gbfs", "gstar", "idastar", "iddfs"}); }
static bool jumps(const char* s)       { return is(s, {"jps", "gjps"}); }

static bool bounded(const char* s)     { return is(s, {"mgstar", "smastar", "osmastar"}); }

// A search on a graph, with the resources that the searches on grids use.
static void graph_step(Ctx& c, Mem mem, Pools& pools) {
    static std::map<Mem, std::vector<const GVariant*>> by;
    if (by.empty()) { for (auto& v : gvariants()) { by[v.mem].push_back(&v); } }
    const auto& v = *by[mem][c.draw(by[mem].size())]; const bool expo = exponential(v.solver);
    GGen g; g.unit_scale = v.integral; g.exact = v.exact; if (expo) { g.max_cells = 10; g.max_edges = 16; } else if (c.chance(1, 30)) { g.max_cells = 200; g.max_edges = 500; }
    const GQuery q = gen_graph(c, v.rank, g);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(2)); o.capacity = c.chance(1, 3) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    const size_t ample = 4 * q.count() + 4 * q.edges.size() + 64; if (bounded(v.solver)) { o.memory_limit = c.chance(1, 3) ? c.draw(40) : ample; }
    c.note("- %s on a graph, rank %u types %s lazy=%d reverse=%d heuristic %s capacity %zu limit %zu", v.solver, v.rank, v.types, v.lazy, v.reverse, o.heuristic ? "zero" : "manhattan", o.capacity, o.memory_limit);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    const Path p = v.run(q, o, pools); Pools alone; const Path r = v.run(q, o, alone);
    CHECK(p == r, "history-dependent", "%s on a graph: after this history the result is %s, on fresh resources %s", v.solver, path_str(p, v.rank).c_str(), path_str(r, v.rank).c_str());
    if (o.memory_limit < ample) { return; }
    const bool reach = q.on(q.start) && q.on(q.end) && q.costs(q.idx(q.start))[q.idx(q.end)] != GQuery::INF;
    CHECK(p.empty() != reach, "existence", "%s on a graph: the end is %sreachable, but the result is %s", v.solver, reach ? "" : "not ", path_str(p, v.rank).c_str());
}

// Reachable by straight steps and diagonal ones that do not squeeze between two blocked corners.
static bool octile_reachable(const Query& q) {
    std::vector<uint8_t> seen(q.count(), 0); std::vector<Cell> st{q.start}; seen[q.idx(q.start)] = 1;
    while (!st.empty()) {
        const Cell u = st.back(); st.pop_back();
        for (int dx = -1; dx <= 1; ++dx) { for (int dy = -1; dy <= 1; ++dy) {
            Cell d = u; d[0] += static_cast<uint32_t>(dx); d[1] += static_cast<uint32_t>(dy);
            if ((!dx && !dy) || !q.on(d) || seen[q.idx(d)]) { continue; }
            if (dx && dy) { Cell a = u, b = u; a[0] = d[0]; b[1] = d[1]; if (!q.on(a) && !q.on(b)) { continue; } }
            seen[q.idx(d)] = 1; st.push_back(d);
        } }
    }
    return seen[q.idx(q.end)];
}
static void history(Ctx& c) {
    static std::map<Mem, std::vector<const Variant*>> by;
    if (by.empty()) { for (auto& v : variants()) { by[v.mem].push_back(&v); } }
    const Mem mem = c.one({Mem::pools, Mem::small_pools, Mem::audit});
    const auto& vs = by[mem];
    Pools pools; const Variant* dirty = nullptr;              // left unclean by this one
    const auto steps = 1 + c.draw(8); unsigned ran = 0, changes = 0; const Variant* last = nullptr;
    c.note("memory: %s", mem == Mem::pools ? "default pools" : mem == Mem::small_pools ? "pools with small blocks" : "auditing resource");
    Query q; const Variant* v = nullptr; RunOpt o;
    for (uint64_t s = 0; s < steps; ++s) {
        const auto what = c.pick({8, 3, 1, 1, 2});            // a new search, the same once more, reset, release, a search on a graph
        if (what == 2) { pools.reset_all(); dirty = nullptr; c.note("- all resources are reset"); continue; }
        if (what == 3) { if (pools.def) { pools.def->release(); } if (pools.small) { pools.small->release(); } if (pools.audit) { pools.audit->release(); } dirty = nullptr; c.note("- all resources are released"); continue; }
        if (what == 4 && mem != Mem::audit) {
            if (dirty) { pools.reset_all(); dirty = nullptr; c.note("- all resources are reset"); }
            graph_step(c, mem, pools); ++ran; ++changes; last = nullptr; continue;
        }
        if (what == 0 || v == nullptr) {
            v = dirty && c.chance(1, 2) ? dirty : vs[c.draw(vs.size())];
            GenOpt g; g.max_cells = 64; if (exponential(v->solver)) { g.max_cells = 20; g.max_free = v->octile ? 9 : 14; } else { g.large = std::min<size_t>(1500, v->maxcells); g.large_in = 60; }
            q = gen_query(c, v->rank, g);
            o = RunOpt{}; o.heuristic = static_cast<unsigned>(c.draw(v->n_heuristics)); o.capacity = c.chance(1, 3) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
            if (is(v->solver, {"mgstar", "smastar", "osmastar"})) { o.memory_limit = c.chance(1, 3) ? c.draw(40) : 2 * q.count() + 8; }
        }
        // Another kind of node may not share a resource that still holds the nodes of an earlier search.
        if (dirty && dirty != v) { pools.reset_all(); dirty = nullptr; c.note("- all resources are reset"); }
        c.note("- %s rank %u lazy=%d no_cleanup=%d reverse=%d octile=%d types %s heuristic %s capacity %zu limit %zu", v->solver, v->rank, v->lazy, v->no_cleanup, v->reverse, v->octile, v->types, v->heuristics[o.heuristic], o.capacity, o.memory_limit);
        if (c.describing) { c.note("%s", q.str().c_str()); }
        const Path p = v->run(q, o, pools);
        if (c.describing) { c.note("result %s", path_str(p, v->rank).c_str()); }
        dirty = v->no_cleanup ? v : nullptr;
        ++ran; changes += last && last != v; last = v;
        Pools alone; const Path r = v->run(q, o, alone);
        CHECK(p == r, "history-dependent", "%s: after this history the result is %s, on fresh resources %s", v->solver, path_str(p, v->rank).c_str(), path_str(r, v->rank).c_str());
        if (o.memory_limit < 2 * q.count() + 8) { continue; }
        const bool both = q.valid(); const auto dist = both ? q.distances(q.idx(q.start), v->octile)[q.idx(q.end)] : Query::INF;
        const bool reach = jumps(v->solver) ? both && octile_reachable(q) : dist != Query::INF;
        CHECK(p.empty() != reach, "existence", "%s: the end is %sreachable, but the result is %s", v->solver, reach ? "" : "not ", path_str(p, v->rank).c_str());
        if (!p.empty() && dist > 0 && optimal(v->solver) && !v->lazy) {
            const size_t listed = p.size() - (p.front() == q.start || p.back() == q.start) - (p.front() == q.end || p.back() == q.end);
            CHECK(listed <= dist - 1, "not-shortest", "%s: %zu cells between the ends, a shortest route has %zu", v->solver, listed, dist - 1);
        }
    }
    if (ran >= 2) { c.nontrivial(); }
    c.label("%u searches, %u changes of solver or options", ran, changes);
}
namespace pbt {
const char* harness_rule() { return "A case is a history of up to 8 steps over one set of memory resources: searches on grids and graphs by any solver in any of its instantiations (lazy sorting, no clean-up, both directions, three kinds of memory), repetitions, resets and releases. Every search is repeated on fresh resources and compared, and judged by breadth-first search. Non-trivial: at least two searches ran."; }
std::vector<Target> harness_targets() { return {{"history", history, 120000, 3000000}}; }
std::vector<std::string> harness_assumptions() { return {"a resource left unclean (no_cleanup) by a search is reset before a search with another kind of node uses it"}; }
}
