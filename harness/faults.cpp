// R08 and R09 (-DPROP=8, 9): searches over auditing resources, with and without failing allocations.
#include "env.hpp"
#include "gsolve.hpp"
using namespace sv;
using pbt::Ctx;
static bool is(const char* s, std::initializer_list<const char*> l) { for (auto x : l) { if (!strcmp(s, x)) { return true; } } return false; }
static bool exponential(const char* s) { return is(s, {"idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs", "eidastar"}); }

struct Job { std::string who; bool no_cleanup = false; std::function<Path(Pools&)> run; size_t cells = 0; };

static Job grid_job(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const Variant*>> by;
    if (by.empty()) { for (auto& v : variants()) { by[v.solver].push_back(&v); } }
    const auto& vs = by[solver]; const Variant& v = *vs[c.draw(vs.size())];
    GenOpt g; g.max_cells = PROP == 8 ? (c.chance(1, 2) ? 16 : 48) : 90;
    if (exponential(solver)) { g.max_cells = 20; g.max_free = v.octile ? 9 : 14; } else { g.large = std::min<size_t>(PROP == 9 ? 2000 : 800, v.maxcells); if (PROP == 8) { g.large_in = 120; } }
    const Query q = gen_query(c, v.rank, g);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(v.n_heuristics)); o.capacity = c.chance(1, 3) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    if (is(solver, {"mgstar", "smastar", "osmastar"})) { o.memory_limit = c.chance(1, 2) ? c.draw(40) : 2 * q.count() + 8; }
    c.note("%s rank %u lazy=%d no_cleanup=%d reverse=%d octile=%d types %s heuristic %s capacity %zu limit %zu", v.solver, v.rank, v.lazy, v.no_cleanup, v.reverse, v.octile, v.types, v.heuristics[o.heuristic], o.capacity, o.memory_limit);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    return Job{v.solver, v.no_cleanup, [run = v.run_on, maze = v.prepare(q), q, o](Pools& p) { return run(maze, q, o, p); }, q.count()};
}
static Job graph_job(Ctx& c, const char* solver) {
    static std::map<std::string, std::vector<const GVariant*>> by;
    if (by.empty()) { for (auto& v : gvariants()) { by[v.solver].push_back(&v); } }
    const auto& vs = by[solver]; const GVariant& v = *vs[c.draw(vs.size())];
    GGen g; g.unit_scale = v.integral; if (exponential(solver)) { g.max_cells = 10; g.max_edges = 16; } else if (c.chance(1, 40)) { g.max_cells = 200; g.max_edges = 500; } else if (c.chance(1, 2)) { g.max_cells = 12; g.max_edges = 24; }
    const GQuery q = gen_graph(c, v.rank, g);
    RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(2)); o.capacity = c.chance(1, 3) ? c.draw(c.chance(1, 8) ? 100000 : 300) : 0; o.call = static_cast<unsigned>(c.draw(6));
    if (is(solver, {"mgstar", "smastar", "osmastar"})) { o.memory_limit = c.chance(1, 2) ? c.draw(40) : 2 * q.count() + 8; }
    c.note("%s on a graph, rank %u types %s lazy=%d no_cleanup=%d reverse=%d heuristic %s capacity %zu limit %zu", v.solver, v.rank, v.types, v.lazy, v.no_cleanup, v.reverse, o.heuristic ? "zero" : "manhattan", o.capacity, o.memory_limit);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    return Job{v.solver, v.no_cleanup, [run = v.run_on, maze = v.prepare(q), q, o](Pools& p) { return run(maze, q, o, p); }, q.count()};
}
static audit_resource* res(Pools& p, unsigned i) { auto& a = p.a(); return i == 0 ? &a.mono : i == 1 ? &a.het : &a.homo; }
static void ledger(Ctx& c, Pools& p, const Job& j, const char* when) {
    for (unsigned i = 0; i < 3; ++i) { CHECK(res(p, i)->error.empty(), "contract", "%s: %s resource, %s: %s", j.who.c_str(), res(p, i)->name, when, res(p, i)->error.c_str()); }
}
static void cleaned(Ctx& c, Pools& p, const Job& j, const uint64_t (&resets)[3], const char* when) {
    for (unsigned i = 0; i < 3; ++i) {
        if (!j.no_cleanup) {
            CHECK(res(p, i)->resets > resets[i], "not-reset", "%s: the %s resource was not reset %s", j.who.c_str(), res(p, i)->name, when);
            CHECK(res(p, i)->live.empty(), "left-behind", "%s: %zu blocks of the %s resource are held %s", j.who.c_str(), res(p, i)->live.size(), res(p, i)->name, when);
        }
        else { CHECK(res(p, i)->resets == resets[i], "reset-unasked", "%s: the %s resource was reset without clean-up %s", j.who.c_str(), res(p, i)->name, when); }
    }
}
static void one(Ctx& c, const char* solver, bool graph) {
    const Job j = graph ? graph_job(c, solver) : grid_job(c, solver);
    Pools pools; pools.a();
    uint64_t before[3], base[3];
    Path want; uint64_t n[3], total = 0;
#if PROP == 9
    const auto reps = 1 + c.draw(3);
#else
    const auto reps = 1;
#endif
    { Path warm; Pools w; w.a(); warm = j.run(w); }            // whatever is initialised once
    for (uint64_t k = 0; k < reps; ++k) {
        for (unsigned i = 0; i < 3; ++i) { before[i] = res(pools, i)->resets; base[i] = res(pools, i)->allocs; }
        { Path r = j.run(pools); if (k) { CHECK(r == want, "differs", "%s: the same search gives %s, then %s", j.who.c_str(), path_str(want, 3).c_str(), path_str(r, 3).c_str()); } want = r; }
        want.shrink_to_fit();
        ledger(c, pools, j, "during the search");
        cleaned(c, pools, j, before, "after the search");
        for (unsigned i = 0; i < 3; ++i) { n[i] = res(pools, i)->allocs - base[i]; total += n[i]; }
        if (k + 1 < reps && j.no_cleanup) { for (unsigned i = 0; i < 3; ++i) { res(pools, i)->reset(); } }
    }
    c.label("%s, %s", want.empty() ? "no route" : "route", total == 0 ? "no allocations" : total < 10 ? "1-9 allocations" : total < 100 ? "10-99 allocations" : "100+ allocations");
#if PROP == 9
    if (total >= 10) { c.nontrivial(); }
    // Everything the search took from elsewhere is given back.
    pools.reset_all();
    size_t a = 0;
    for (int k = 0; k < 2; ++k) {
        Pools p2; p2.a(); { const Path r = j.run(p2); } p2.reset_all(); p2.audit.reset();
        const auto now = pbt::live_blocks(); if (k) { CHECK(now <= a, "leak", "%s: %zu blocks more on the heap after a search", j.who.c_str(), now - a); } a = now;
    }
#else
    if (total == 0) { return; }
    c.nontrivial();
    // Every failing position when there are few, otherwise a sample.
    const unsigned tries = total <= 24 ? static_cast<unsigned>(total) : 12;
    const bool forever = c.chance(1, 2); const auto kind = static_cast<unsigned>(c.pick({4, 1, 1})); const auto bad_reset = static_cast<unsigned>(c.chance(1, 6) ? c.draw(4) : 4);     // 0-2: that resource's reset throws, 3: all of them
    if (kind || bad_reset < 4) { c.note("- failures of kind %u%s%s", kind, bad_reset < 4 ? ", failing reset: " : "", bad_reset < 3 ? res(pools, bad_reset)->name : bad_reset == 3 ? "all" : ""); }
    unsigned survived = 0;
    for (unsigned t = 0; t < tries; ++t) {
        uint64_t k = total <= 24 ? t : c.draw(total); unsigned r = 0; while (k >= n[r]) { k -= n[r]; ++r; }
        c.note("- allocation %llu of the %s resource fails%s", static_cast<unsigned long long>(k), res(pools, r)->name, forever ? ", and all after it" : "");
        for (unsigned i = 0; i < 3; ++i) { auto* x = res(pools, i); before[i] = x->resets; x->thrown = 0; x->fail_forever = forever; x->fail_kind = kind; x->fail_at = i == r ? x->allocs + k : ~0ULL; x->reset_fails = bad_reset == 3 || bad_reset == i; }
        bool thrown = false, reset_thrown = false; unsigned caught = kind;
        const auto serial = static_cast<unsigned>(res(pools, r)->fail_at);
        Path got; try { got = j.run(pools); } catch (const std::bad_alloc&) { thrown = true; caught = 0; } catch (const sv::refusal& e) { thrown = true; caught = e.serial >= serial ? 1 : 9; } catch (unsigned e) { thrown = true; caught = e >= serial ? 2 : 9; } catch (const sv::reset_failure&) { reset_thrown = true; }
        const auto hits = res(pools, r)->thrown;
        for (unsigned i = 0; i < 3; ++i) { res(pools, i)->fail_at = ~0ULL; res(pools, i)->fail_forever = false; res(pools, i)->reset_fails = false; }
        CHECK(caught == kind, "other-failure", "%s: an allocation of the %s resource failed with a failure of kind %u, but solve() threw another one (%u)", j.who.c_str(), res(pools, r)->name, kind, caught);
        // The search's own failure comes before that of a reset. (A presizing may be absorbed; then the failing reset is what is reported.)
        CHECK(!reset_thrown || (bad_reset < 4 && !j.no_cleanup), "invented", "%s: a reset is reported to have failed", j.who.c_str());
        if (bad_reset < 4 && !j.no_cleanup) { CHECK(thrown || reset_thrown, "reset-swallowed", "%s: a reset failed, but solve() returned", j.who.c_str()); if (reset_thrown) { got = want; } }
        // A refused presizing may be ignored, if nothing else comes of it.
        CHECK(thrown || got == want, "swallowed", "%s: an allocation of the %s resource failed, but solve() returned %s instead of %s", j.who.c_str(), res(pools, r)->name, path_str(got, 3).c_str(), path_str(want, 3).c_str());
        survived += !thrown;
        CHECK(hits != 0, "not-deterministic", "%s: the same search did not reach allocation %llu", j.who.c_str(), static_cast<unsigned long long>(k));
        ledger(c, pools, j, "with a failing allocation");
        cleaned(c, pools, j, before, "after a failed allocation");
        if (j.no_cleanup) { for (unsigned i = 0; i < 3; ++i) { res(pools, i)->reset(); } }
        const Path again = j.run(pools);
        CHECK(again == want, "not-reusable", "%s: after a failed search the result is %s instead of %s", j.who.c_str(), path_str(again, 3).c_str(), path_str(want, 3).c_str());
        if (j.no_cleanup) { for (unsigned i = 0; i < 3; ++i) { res(pools, i)->reset(); } }
    }
    // A failed search leaves nothing on the heap either.
    {
        uint64_t k = c.draw(total); unsigned r = 0; while (k >= n[r]) { k -= n[r]; ++r; }
        size_t a = 0;
        for (int rep = 0; rep < 3; ++rep) {
            { Pools p2; p2.a(); auto* x = res(p2, r); x->fail_at = k; x->fail_forever = forever; x->fail_kind = kind; try { const Path p = j.run(p2); } catch (...) {} }
            const auto now = pbt::live_blocks(); if (rep) { CHECK(now <= a, "leak", "%s: %zu blocks more on the heap after a failed search", j.who.c_str(), now - a); } a = now;
        }
    }
    c.label("%u failures absorbed", survived);
#endif
}
#define ALL(F) F(astar) F(best_first) F(bfs) F(dfs) F(dijkstra) F(eidastar) F(eidbest_first) F(eiddfs) F(fringe) F(gbest_first) F(gbfs) F(gdfs) F(gstar) F(idastar) F(idbest_first) F(iddfs) F(mgstar) F(osmastar) F(smastar)
#define GRID(F) F(jps) F(gjps) F(flood)
#define T(s) static void t_##s(Ctx& c) { one(c, #s, false); }
#define G(s) static void g_##s(Ctx& c) { one(c, #s, true); }
ALL(T) ALL(G) GRID(T)
namespace pbt {
#if PROP == 9
constexpr uint64_t N = 6000;
const char* harness_rule() { return "A case is one search (repeated up to three times) over auditing memory resources that keep a ledger of every block and really free what is freed: 22 solvers on generated grids, 19 on generated graphs. Non-trivial: at least ten blocks were allocated."; }
#else
constexpr uint64_t N = 2500;
const char* harness_rule() { return "A case is one search over auditing memory resources, repeated with a failing allocation at every position in turn (24 at most, otherwise 12 drawn positions), once or for good, with std::bad_alloc or an exception of another kind, at times with resets that throw as well, followed by the same search without faults: 22 solvers on generated grids, 19 on generated graphs. Non-trivial: the search allocates at all."; }
#endif
#define E(s) {#s, t_##s, N, N * 20},
#define EG(s) {#s "-graph", g_##s, N / 3, N * 7},
std::vector<Target> harness_targets() { return { ALL(E) GRID(E) ALL(EG) }; }
std::vector<std::string> harness_assumptions() { return {"faults are exceptions thrown by memory_resource::allocate, and by reset() after having done its work"}; }
}
