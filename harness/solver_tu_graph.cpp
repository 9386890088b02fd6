// Instantiates one solver (-DSOLVER=name) over graphs.
#include "solver_tu.hpp"
#include "gsolve.hpp"
namespace sv {
template <class S, class I, class C, bool L, bool N, bool R, class PM, class PT, class PH>
struct grparams {
    using weight_type = uint8_t; using scalar_type = S; using index_type = I; using coord_type = C;
    using lazy_sorting = std::bool_constant<L>; using no_cleanup = std::bool_constant<N>;
    using reverse_equivalence = std::bool_constant<R>; using octile_neighbours = std::false_type;
    const chdr::mazes::graph<I, S>& maze;
    const C start; const C end; const C size;
    S (*h)(const C&, const C&) noexcept;
    PM* monotonic_pmr; PT* heterogeneous_pmr; PH* homogeneous_pmr;
    const S weight = 1; const size_t capacity = 0; const size_t memory_limit = std::numeric_limits<size_t>::max();
};
template <template <class> class SOLVER_T, class S, class V, class I, unsigned D, bool L, bool N, bool R, Mem M>
struct ginst {
    using C = chdr::coord<V, D>;
    static C conv(const Cell& c) { C r{}; for (unsigned i = 0; i < D; ++i) { r[i] = static_cast<V>(c[i]); } return r; }
    static auto& pools(Pools& p) { if constexpr (M == Mem::pools) { return p.d(); } else if constexpr (M == Mem::small_pools) { return p.s(); } else { return p.a(); } }
    static std::shared_ptr<void> prepare(const GQuery& q) {
        auto r = std::make_shared<chdr::mazes::graph<I, S>>(); auto& g = *r;
        for (size_t i = 0; i < q.node.size(); ++i) { if (q.node[i]) { g.add(static_cast<I>(i)); } }
        for (auto& e : q.edges) { g.add(static_cast<I>(e.from), {static_cast<I>(e.to), std::is_integral_v<S> ? static_cast<S>(e.cost) : static_cast<S>(e.cost) / 4}); }
        return r;
    }
    static Path run(const GQuery& q, const RunOpt& o, Pools& p) { return run_on(prepare(q), q, o, p); }
    static Path run_on(const std::shared_ptr<void>& maze, const GQuery& q, const RunOpt& o, Pools& p) {
        const auto& g = *static_cast<const chdr::mazes::graph<I, S>*>(maze.get());
        static constexpr S (*hs[])(const C&, const C&) noexcept = {heur<S, C>::manhattan, heur<S, C>::zero};
        auto& set = pools(p);
        using PM = std::decay_t<decltype(set.mono)>; using PT = std::decay_t<decltype(set.het)>; using PH = std::decay_t<decltype(set.homo)>;
        using P = grparams<S, I, C, L, N, R, PM, PT, PH>;
        const P params{g, conv(q.start), conv(q.end), conv(q.size), hs[o.heuristic % 2], &set.mono, &set.het, &set.homo, static_cast<S>(o.weight), o.capacity, o.memory_limit};
        using X = chdr::solvers::solver<SOLVER_T, P>;
        const auto r = [&] {                                   // all the ways to ask
            switch (o.call) {
                case 0: return X::solve(params);
                case 1: return X::solve(P(params));
                case 2: return X{}(params);
                case 3: return X{}(P(params));
                case 4: return X::solve(params.maze, params.start, params.end, params.size, params.h, params.monotonic_pmr, params.heterogeneous_pmr, params.homogeneous_pmr, params.weight, params.capacity, params.memory_limit);
                default: return X{}(params.maze, params.start, params.end, params.size, params.h, params.monotonic_pmr, params.heterogeneous_pmr, params.homogeneous_pmr, params.weight, params.capacity, params.memory_limit);
            }
        }();
        Path out; out.reserve(r.size());
        for (auto& c : r) { Cell x{}; for (unsigned i = 0; i < D; ++i) { x[i] = static_cast<uint32_t>(c[i]); } out.push_back(x); }
        return out;
    }
    static GVariant variant(const char* solver, const char* types) { return GVariant{solver, types, D, L, N, R, std::is_integral_v<S>, M, static_cast<size_t>(std::min<uint64_t>(std::numeric_limits<V>::max(), std::numeric_limits<I>::max())), uint64_t{1} << (std::is_integral_v<S> ? std::min(std::numeric_limits<S>::digits, 60) - 1 : std::numeric_limits<S>::digits), run, prepare, run_on}; }
};
#define GVARIANT(S, V, I, D, L, N, R, M) static GRegister CAT(greg_, __COUNTER__)(ginst<chdr::solvers::SOLVER, S, V, I, D, L, N, R, Mem::M>::variant(STR(SOLVER), #S "/" #V "/" #I));
using u16 = uint16_t; using u32 = uint32_t; using u64 = size_t; using i32 = int32_t;
#ifdef AUDIT
GVARIANT(u32,    u32, u32, 2, false, false, true,  audit)
GVARIANT(float,  u32, u32, 2, false, false, false, audit)
GVARIANT(double, u64, u64, 3, true,  false, true,  audit)
#else
GVARIANT(u32,    u32, u32, 2, false, false, true,  pools)
GVARIANT(float,  u32, u32, 2, false, false, false, pools)
GVARIANT(double, u64, u64, 3, false, false, true,  small_pools)
GVARIANT(i32,    u32, u16, 1, false, false, false, small_pools)
GVARIANT(u64,    u32, u32, 2, false, false, false, pools)
GVARIANT(u32,    u32, u32, 2, true,  false, true,  pools)
#endif
}
