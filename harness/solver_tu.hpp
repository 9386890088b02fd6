// Instantiates solvers over grids and registers them (one translation unit per solver: -DSOLVER=name).
#pragma once
#include "env.hpp"
#include "solve.hpp"

namespace sv {

template <class W, class S, class I, class C, bool L, bool N, bool R, bool O, class PM, class PT, class PH>
struct gparams {
    using weight_type = W; using scalar_type = S; using index_type = I; using coord_type = C;
    using lazy_sorting = std::bool_constant<L>; using no_cleanup = std::bool_constant<N>;
    using reverse_equivalence = std::bool_constant<R>; using octile_neighbours = std::bool_constant<O>;
    const chdr::mazes::grid<C, W>& maze;
    const C start; const C end; const C size;
    S (*h)(const C&, const C&) noexcept;
    PM* monotonic_pmr; PT* heterogeneous_pmr; PH* homogeneous_pmr;
    const S weight = 1; const size_t capacity = 0; const size_t memory_limit = std::numeric_limits<size_t>::max();
};

template <class S, class C> struct heur {
    using H = chdr::heuristics;
    static S zero(const C&, const C&) noexcept { return S(0); }
    static S manhattan(const C& a, const C& b) noexcept { return H::manhattan_distance<S, C>(a, b); }
    static S chebyshev(const C& a, const C& b) noexcept { return H::chebyshev_distance<S, C>(a, b); }
    static S octile(const C& a, const C& b) noexcept { return H::octile_distance<S, C>(a, b); }
    static S euclidean(const C& a, const C& b) noexcept { return H::euclidean_distance<S, C>(a, b); }
};
inline const char* const axis_h[]   = {"manhattan", "zero", "chebyshev", "euclidean"};
inline const char* const octile_h[] = {"chebyshev", "zero"};
inline const char* const jump_h[]   = {"octile", "chebyshev", "euclidean", "zero"};
#ifdef JUMP
constexpr bool jump = true;
#else
constexpr bool jump = false;
#endif

template <template <class> class SOLVER, class W, class S, class V, class I, unsigned D, bool L, bool N, bool R, bool O, Mem M>
struct inst {
    using C = chdr::coord<V, D>;
    using G = chdr::mazes::grid<C, W>;
    template <class P> static auto pools(P& p) -> decltype(auto) {
        if constexpr (M == Mem::pools) { return (p.d()); } else if constexpr (M == Mem::small_pools) { return (p.s()); } else { return (p.a()); }
    }
    static C conv(const Cell& c) { C r{}; for (unsigned i = 0; i < D; ++i) { r[i] = static_cast<V>(c[i]); } return r; }
    static std::shared_ptr<void> prepare(const Query& q) {
        std::vector<W> n(q.count());
        for (size_t i = 0; i < n.size(); ++i) {
            if constexpr (std::is_same_v<W, bool>) { n[i] = !q.active[i]; }
            else { n[i] = q.active[i] ? static_cast<W>((i * 7U) % 100U) : std::numeric_limits<W>::max(); }
        }
        return std::make_shared<G>(conv(q.size), n);
    }
    static Path run_on(const std::shared_ptr<void>& maze, const Query& q, const RunOpt& o, Pools& p) {
        static constexpr S (*hs_axis[])(const C&, const C&) noexcept = {heur<S, C>::manhattan, heur<S, C>::zero, heur<S, C>::chebyshev, heur<S, C>::euclidean};
        static constexpr S (*hs_oct[])(const C&, const C&) noexcept  = {heur<S, C>::chebyshev, heur<S, C>::zero};
        static constexpr S (*hs_jump[])(const C&, const C&) noexcept = {heur<S, C>::octile, heur<S, C>::chebyshev, heur<S, C>::euclidean, heur<S, C>::zero};
        auto& set = pools(p);
        using PM = std::decay_t<decltype(set.mono)>; using PT = std::decay_t<decltype(set.het)>; using PH = std::decay_t<decltype(set.homo)>;
        using P = gparams<W, S, I, C, L, N, R, O, PM, PT, PH>;
        const P params{*static_cast<const G*>(maze.get()), conv(q.start), conv(q.end), conv(q.size), jump ? hs_jump[o.heuristic % 4] : O ? hs_oct[o.heuristic % 2] : hs_axis[o.heuristic % 4],
                       &set.mono, &set.het, &set.homo, static_cast<S>(o.weight), o.capacity, o.memory_limit};
        using X = chdr::solvers::solver<SOLVER, P>;
        const auto r = [&] {                                   // all the ways to ask
            switch (o.call) {
                case 0: return X::solve(params);
                case 1: return X::solve(P(params));
                case 2: return X{}(params);
                case 3: return X{}(P(params));
                case 4: return X::solve(params.maze, params.start, params.end, params.size, params.h, params.monotonic_pmr, params.heterogeneous_pmr, params.homogeneous_pmr, params.weight, params.capacity, params.memory_limit);
                default: return X{}(params.maze, params.start, params.end, params.size, params.h, params.monotonic_pmr, params.heterogeneous_pmr, params.homogeneous_pmr, params.weight, params.capacity, params.memory_limit);
            }
        }();
        Path out; out.reserve(r.size());
        for (auto& c : r) { Cell x{}; for (unsigned i = 0; i < D; ++i) { x[i] = static_cast<uint32_t>(c[i]); } out.push_back(x); }
        return out;
    }
    static Path run(const Query& q, const RunOpt& o, Pools& p) { return run_on(prepare(q), q, o, p); }
    static Variant variant(const char* solver, const char* types) {
        const size_t mx = std::min<size_t>(std::numeric_limits<V>::max(), std::numeric_limits<I>::max());
        return Variant{solver, D, L, N, R, O, types, std::is_integral_v<S>, M, jump || !O ? 4U : 2U, jump ? jump_h : O ? octile_h : axis_h, mx, run, prepare, run_on};
    }
};
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
//             weight   scalar  coord   index  rank lazy noclean reverse octile mem
#define VARIANT(W, S, V, I, D, L, N, R, O, M) \
    static Register CAT(reg_, __COUNTER__)(inst<chdr::solvers::SOLVER, W, S, V, I, D, L, N, R, O, Mem::M>::variant(STR(SOLVER), #W "/" #S "/" #V "/" #I));
} // namespace sv
