// R10: concurrent searches over shared mazes, each thread with its own memory resources. Built with ThreadSanitizer.
#include "env.hpp"
#include "gsolve.hpp"
#include <atomic>
#include <thread>
using namespace sv;
using pbt::Ctx;
static bool is(const char* s, std::initializer_list<const char*> l) { for (auto x : l) { if (!strcmp(s, x)) { return true; } } return false; }
static bool exponential(const char* s) { return is(s, {"idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs", "eidastar"}); }
struct Task { std::string what; std::function<Path(Pools&)> run; Path want, got; bool threw = false; };

static void go(Ctx& c, std::vector<std::vector<Task>>& plan, size_t mazes) {
    unsigned n = 0; const bool first = c.chance(1, 2);     // together before ever alone: nothing is initialised yet
    auto alone = [&] { for (auto& th : plan) { for (auto& t : th) { Pools p; t.want = t.run(p); } } };
    for (auto& th : plan) { n += static_cast<unsigned>(th.size()); }
    if (!first) { alone(); }
    for (int round = 0; round < 2; ++round) {
        std::atomic<unsigned> ready{0}; std::vector<std::thread> ts; const auto all = static_cast<unsigned>(plan.size());
        for (auto& th : plan) {
            ts.emplace_back([&] {
                Pools p; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < all) { std::this_thread::yield(); }
                for (auto& t : th) { try { t.got = t.run(p); t.threw = false; } catch (...) { t.threw = true; } }
            });
        }
        for (auto& t : ts) { t.join(); }
        if (first && round == 0) { alone(); }
        for (auto& th : plan) { for (auto& t : th) {
            CHECK(!t.threw, "threw", "%s threw when run concurrently", t.what.c_str());
            CHECK(t.got == t.want, "differs", "%s gives %s alone and %s when run concurrently", t.what.c_str(), path_str(t.want, 3).c_str(), path_str(t.got, 3).c_str());
        } }
    }
    if (plan.size() > 1 && n > mazes) { c.nontrivial(); }
    c.label("%zu threads, %u searches, %zu mazes%s", plan.size(), n, mazes, first ? ", together first" : "");
}
static void limits(Ctx& c, const char* solver, size_t count, RunOpt& o) { o.capacity = c.chance(1, 3) ? c.draw(300) : 0; if (is(solver, {"mgstar", "smastar", "osmastar"})) { o.memory_limit = 2 * count + 8; } }

static void grids(Ctx& c) {
    // Mazes are shared between variants of the same types, so tasks are grouped by them.
    static std::map<std::string, std::vector<const Variant*>> by; static std::vector<std::string> keys;
    if (by.empty()) { for (auto& v : variants()) { if (v.mem != Mem::audit) { by[std::string(v.types) + char('0' + v.rank)].push_back(&v); } } for (auto& [k, v] : by) { keys.push_back(k); } }
    const auto mazes = 1 + c.draw(2);
    struct M { std::string key; Query q; std::shared_ptr<void> maze; bool small; }; std::vector<M> ms;
    for (uint64_t m = 0; m < mazes; ++m) {
        M x; x.key = keys[c.draw(keys.size())]; const auto& vs = by[x.key]; GenOpt g; x.small = c.chance(1, 2);
        if (x.small) { g.max_cells = 20; g.max_free = 10; } else { g.max_cells = 150; g.large = std::min<size_t>(4000, vs[0]->maxcells); g.large_in = 40; }
        x.q = gen_query(c, vs[0]->rank, g); x.maze = vs[0]->prepare(x.q);
        c.note("maze %llu: %s%s", static_cast<unsigned long long>(m), x.key.c_str(), ""); if (c.describing) { c.note("%s", x.q.str().c_str()); }
        ms.push_back(std::move(x));
    }
    std::vector<std::vector<Task>> plan(2 + c.draw(3));
    for (auto& th : plan) {
        const auto n = 1 + c.draw(3);
        for (uint64_t i = 0; i < n; ++i) {
            const auto& m = ms[c.draw(ms.size())]; const auto& vs = by[m.key];
            const Variant* v = vs[c.draw(vs.size())]; if (!m.small && exponential(v->solver)) { v = vs[0]; }
            if (v->no_cleanup) { for (auto x : vs) { if (!strcmp(x->solver, v->solver) && !x->no_cleanup) { v = x; break; } } if (v->no_cleanup) { continue; } }
            Query q = m.q; if (c.chance(1, 2)) { std::swap(q.start, q.end); }
            RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(v->n_heuristics)); limits(c, v->solver, q.count(), o);
            c.note("thread %zu: %s", static_cast<size_t>(&th - plan.data()), v->solver);
            th.push_back(Task{v->solver, [v, q, o, maze = m.maze](Pools& p) { return v->run_on(maze, q, o, p); }, {}, {}});
        }
    }
    go(c, plan, ms.size());
}
static void graphs(Ctx& c) {
    static std::map<std::string, std::vector<const GVariant*>> by; static std::vector<std::string> keys;
    if (by.empty()) { for (auto& v : gvariants()) { if (!v.lazy) { by[std::string(v.types) + char('0' + v.rank)].push_back(&v); } } for (auto& [k, v] : by) { keys.push_back(k); } }
    const auto& vs = by[keys[c.draw(keys.size())]]; const bool small = c.chance(1, 2);
    GGen g; g.unit_scale = vs[0]->integral; if (small) { g.max_cells = 8; g.max_edges = 12; } else if (c.chance(1, 30)) { g.max_cells = 600; g.max_edges = 1500; } const GQuery q = gen_graph(c, vs[0]->rank, g); const auto maze = vs[0]->prepare(q);
    if (c.describing) { c.note("%s", q.str().c_str()); }
    std::vector<std::vector<Task>> plan(2 + c.draw(3));
    for (auto& th : plan) {
        const auto n = 1 + c.draw(3);
        for (uint64_t i = 0; i < n; ++i) {
            const GVariant* v = vs[c.draw(vs.size())]; if (!small && exponential(v->solver)) { v = vs[0]; }
            RunOpt o; o.heuristic = static_cast<unsigned>(c.draw(2)); limits(c, v->solver, q.count(), o);
            c.note("thread %zu: %s on the graph", static_cast<size_t>(&th - plan.data()), v->solver);
            th.push_back(Task{v->solver, [v, q, o, maze](Pools& p) { return v->run_on(maze, q, o, p); }, {}, {}});
        }
    }
    go(c, plan, 1);
}
namespace pbt {
const char* harness_rule() { return "A case is a plan of 2-4 threads with 1-3 searches each over one or two shared mazes (grids or a graph), started together, run twice, under ThreadSanitizer; every result is compared with the same search run alone. Non-trivial: some maze is searched more than once."; }
std::vector<Target> harness_targets() { return {{"grids", grids, 40000, 500000}, {"graphs", graphs, 24000, 300000}}; }
std::vector<std::string> harness_assumptions() { return {"schedules are those the machine produces; ThreadSanitizer reports races on the accesses that happen, whatever their order"}; }
}
