From d2ff95d1b71f93696d1bf1b43f54078fe6ba7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 01/53] fix: to_nd inverts to_1d for non-cubic 3D and 4D sizes

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From 95ca681951cbb26eb65f40f102a1c1ba7a27334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 02/53] fix: rbacktrack_noreverse with a known depth no longer
 pads the route with default coordinates

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..49a04f9 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -647,7 +647,8 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
                     result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-- 
2.43.0


From 45fc939fb2cd8c525ea48185745b1ddf2d0854f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 03/53] fix: octile_distance measures each axis and never
 exceeds the true octile distance

---
 include/utils/heuristics.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..3a65a3f 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -97,24 +97,25 @@ namespace chdr {
 
             constexpr auto Kd = std::tuple_size_v<std::decay_t<coord_t>>;
 
-            scalar_t result = chebyshev_distance<scalar_t, coord_t>(_a, _b);
+            // The two largest displacements: `minor` steps can be taken diagonally, the rest of `major` are straight.
+            scalar_t major{0};
+            scalar_t minor{0};
 
-            bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
-                    straight = true;
-
-                    if constexpr (Kd > 4U) { break; }
+                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                if (val > major) {
+                    minor = major;
+                    major = val;
+                }
+                else if (val > minor) {
+                    minor = val;
                 }
             }
 
-            if (!straight) {
-                constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
-                result *= sqrt2;
-            }
+            constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
 
-            return result;
+            return static_cast<scalar_t>(major + (minor * (sqrt2 - static_cast<scalar_t>(1))));
         }
 
         /**
-- 
2.43.0


From ac8f37255995da604947fdce80f0248dc65961e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 04/53] fix: A* aims its heuristic at the end of the search
 with reverse_equivalence

---
 include/solvers/astar.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..a3805d4 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -119,13 +119,12 @@ namespace chdr::solvers {
         template <typename open_set_t, typename closed_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
 
-            constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
+            // The search always runs from start to end, so the heuristic must be aimed at the end.
+            const auto& start = _params.start;
+            const auto&   end = _params.end;
 
-            const auto&   end = do_reverse ? _params.start : _params.end;
-            const auto& start = do_reverse ? _params.end   : _params.start;
-
-            const auto s = utils::to_1d(_params.start, _params.size);
-            const auto e = utils::to_1d(_params.end,   _params.size);
+            const auto s = utils::to_1d(start, _params.size);
+            const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
             _closed.emplace(s);
-- 
2.43.0


From 3f5277f805fb8bdb6609822c83777fe45b281b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 05/53] fix: route length is counted from the parent chain, not
 taken from the path cost

The cost equals the number of steps only for unit-cost steps: on weighted graphs
and for jump points the result was padded, truncated or written out of bounds.
---
 include/solvers/astar.hpp  | 4 ++--
 include/solvers/fringe.hpp | 4 ++--
 include/solvers/gjps.hpp   | 4 ++--
 include/solvers/gstar.hpp  | 4 ++--
 include/solvers/jps.hpp    | 4 ++--
 include/solvers/mgstar.hpp | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index a3805d4..ce62935 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -172,10 +172,10 @@ namespace chdr::solvers {
                     _closed = closed_set_t{};
 
                     if constexpr (params_t::reverse_equivalence::value) {
-                        return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack(curr, _params.size);
                     }
                     else {
-                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                     }
                 }
             }
diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..4e023f3 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -194,10 +194,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..1dc20a9 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -370,10 +370,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..fa39d42 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -175,10 +175,10 @@ namespace chdr::solvers {
                     _closed = closed_set_t{};
 
                     if constexpr (params_t::reverse_equivalence::value) {
-                        return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack(curr, _params.size);
                     }
                     else {
-                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                     }
                 }
             }
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..82ed34d 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -386,10 +386,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..e17289d 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -293,10 +293,10 @@ namespace chdr::solvers {
             if (best_solution.has_value()) {
 
                 if constexpr (params_t::reverse_equivalence::value) {
-                    return solver_t::solver_utils::rbacktrack(best_solution.value(), _params.size, static_cast<size_t>(best_solution->m_gScore));
+                    return solver_t::solver_utils::rbacktrack(best_solution.value(), _params.size);
                 }
                 else {
-                    return solver_t::solver_utils::rbacktrack_noreverse(best_solution.value(), _params.size, static_cast<size_t>(best_solution->m_gScore));
+                    return solver_t::solver_utils::rbacktrack_noreverse(best_solution.value(), _params.size);
                 }
             }
             else {
-- 
2.43.0


From c0693629f1f99dc8d7ce0b060cd377535ab34f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 06/53] fix: A* and G* close nodes when they are expanded, so
 that routes are optimal

---
 include/solvers/astar.hpp |  8 +++++---
 include/solvers/gstar.hpp | 11 ++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index ce62935..60b5941 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -126,8 +126,7 @@ namespace chdr::solvers {
             const auto s = utils::to_1d(start, _params.size);
             const auto e = utils::to_1d(end,   _params.size);
 
-              _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
+            _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -137,6 +136,10 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // Nodes are closed upon expansion, as only then their cheapest route is known:
+                    if (_closed.contains(curr.m_index)) { continue; }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -145,7 +148,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index fa39d42..75479b5 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -125,8 +125,7 @@ namespace chdr::solvers {
             const auto s = utils::to_1d(start, _params.size);
             const auto e = utils::to_1d(end,   _params.size);
 
-              _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
+            _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,6 +135,13 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // Nodes are closed upon expansion, as only then their cheapest route is known:
+                    if (_closed.contains(curr.m_index)) {
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -144,7 +150,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From f5b9b82624911a0f029041332f69dd9efa6363fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 07/53] fix: managed nodes can have more than 255 successors

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..7c48747 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = uint32_t;
 
     public:
 
-- 
2.43.0


From 15571d46cb39e6cc8e9560feaedeaf5daf8aadd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 08/53] fix: IDDFS and IDDFS+ end on unsolvable mazes and keep
 their memory while using it

Both reset the pool that still backs their stack after each iteration, never
ended when there is no route, and IDDFS+ could pass through its start again.
---
 include/solvers/eiddfs.hpp | 16 ++++++++++------
 include/solvers/iddfs.hpp  | 13 ++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..8deb946 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -129,9 +129,15 @@ namespace chdr::solvers {
 
             stack<state<neighbours_t>> stack(_params.monotonic_pmr);
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+            // Whether the search space has been exhausted, i.e. no node was left out for lying beyond the bound.
+            bool complete = false;
+
+            for (size_t bound = 0U; !complete && bound < std::numeric_limits<size_t>::max(); ++bound) {
+
+                complete = true;
 
                 stack.emplace(_open.back(), _params);
+                solver_t::solver_utils::preallocate_emplace(_closed, static_cast<index_t>(s), _capacity, _params.maze.count());
 
                 // Main loop:
                 while (!stack.empty()) {
@@ -139,6 +145,8 @@ namespace chdr::solvers {
                     auto& _    = stack.top();
                     auto& curr = _open.back();
 
+                    complete &= curr.m_depth <= bound;
+
                     if (curr.m_depth <= bound && static_cast<size_t>(_.neighbours_idx) != _.neighbours.size()) {
 
                         if (const auto& n = solver_t::get_data(_.neighbours[(_.neighbours.size() - 1U) - (_.neighbours_idx++)], _params); n.active) {
@@ -161,17 +169,13 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        _closed.erase(curr.m_index);
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..38fcde7 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -130,7 +130,12 @@ namespace chdr::solvers {
 
             stack<state<neighbours_t>> stack(_params.monotonic_pmr);
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+            // Whether the search space has been exhausted, i.e. no node was left out for lying beyond the bound.
+            bool complete = false;
+
+            for (size_t bound = 0U; !complete && bound < std::numeric_limits<size_t>::max(); ++bound) {
+
+                complete = true;
 
                 stack.emplace(_open.back(), _params);
 
@@ -140,6 +145,8 @@ namespace chdr::solvers {
                     auto& _    = stack.top();
                     auto& curr = _open.back();
 
+                    complete &= curr.m_depth <= bound;
+
                     if (curr.m_depth <= bound && static_cast<size_t>(_.neighbours_idx) != _.neighbours.size()) {
 
                         if (const auto& n = solver_t::get_data(_.neighbours[(_.neighbours.size() - 1U) - (_.neighbours_idx++)], _params); n.active) {
@@ -164,10 +171,6 @@ namespace chdr::solvers {
                         stack.pop();
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From fe17b8eeb456e7faccbf58cf33591509854397d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 09/53] fix: iterative-deepening best-first keeps its root
 between iterations

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From e769e45e96fdbd542d46a80f0498cab57b44c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 10/53] fix: enhanced iterative-deepening searches never return
 to their start

---
 include/solvers/eidastar.hpp      | 2 +-
 include/solvers/eidbest_first.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 4973aff..1722eb9 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -151,7 +151,7 @@ namespace chdr::solvers {
 
             do {
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_fScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 9a40b7f..e524f83 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -141,7 +141,7 @@ namespace chdr::solvers {
             do {
 
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_hScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
-- 
2.43.0


From 3ee1af718143abaeb8e2ac0e2fd6b457da84e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 11/53] fix: IDA* and IDA*+ accept the end only within the
 current bound

---
 include/solvers/eidastar.hpp | 2 +-
 include/solvers/idastar.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 1722eb9..a650c2c 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -176,7 +176,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From e71f027a3d406e013fe8e3a96f97b99d1997e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 12/53] fix: fringe search keeps the nodes beyond its threshold

They were dropped, so that routes were missed, longer than necessary, or the
search never ended.
---
 include/solvers/fringe.hpp | 99 ++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 58 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index 4e023f3..9fa0389 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -15,9 +15,10 @@
 
 #include <cstddef>
 #include <limits>
+#include <memory_resource>
+#include <unordered_map>
 #include <vector>
 
-#include "../types/containers/existence_set.hpp"
 #include "../utils/utils.hpp"
 #include "base/solver.hpp"
 #include "base/unmanaged_node.hpp"
@@ -116,29 +117,42 @@ namespace chdr::solvers {
             }
         };
 
-        template <typename open_set_t, typename closed_set_t>
-        [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, open_set_t& _next, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
+        using g_scores_t = std::pmr::unordered_map<index_t, scalar_t>;
+
+        template <typename open_set_t>
+        [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, open_set_t& _next, g_scores_t& _g_scores, const params_t& _params) {
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
 
             const auto&   end = do_reverse ? _params.start : _params.end;
             const auto& start = do_reverse ? _params.end   : _params.start;
 
-            const auto s = utils::to_1d(start, _params.size);
-            const auto e = utils::to_1d(end,   _params.size);
+            const auto s = static_cast<index_t>(utils::to_1d(start, _params.size));
+            const auto e = static_cast<index_t>(utils::to_1d(end,   _params.size));
 
-            auto max_threshold = _params.h(start, end) * _params.weight;
+            scalar_t max_threshold = _params.h(start, end) * _params.weight;
 
-              _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
-            _closed.emplace(s);
+            _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
+            _g_scores[s] = static_cast<scalar_t>(0);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
                 auto next_threshold = std::numeric_limits<scalar_t>::max();
 
-                for (auto& curr : _open) {
+                // Exhaust the nodes within the threshold, and set the others aside for the next iteration:
+                do {
+
+                    auto curr(std::move(_open.back()));
+                    _open.pop_back();
+
+                    // Skip the node if a cheaper route to it has since been found:
+                    if (_g_scores[curr.m_index] < curr.m_gScore) { continue; }
 
-                    if (curr.m_index != e) { // SEARCH FOR SOLUTION...
+                    if (curr.m_fScore > max_threshold) {
+                        next_threshold = utils::min(next_threshold, curr.m_fScore);
+                        _next.emplace_back(std::move(curr));
+                    }
+                    else if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                         node* RESTRICT curr_ptr(nullptr);
 
@@ -146,53 +160,25 @@ namespace chdr::solvers {
 
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                                const auto g = curr.m_gScore + n.distance;
-                                const auto f = g + (_params.h(n.coord, end) * _params.weight);
-
-                                if (f <= max_threshold) {
-
-                                    // Check if node is not already visited:
-                                    if (!_closed.contains(n.index)) {
-
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
-
-                                        if (curr_ptr == nullptr) {
-                                            curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-                                        }
-
-                                        if constexpr (params_t::lazy_sorting::value) {
-                                            _next.emplace_back(n.index, g, f, curr_ptr);
-                                        }
-                                        else {
-
-                                            /* SORTED INSERTION */
-                                            _next.insert(
-                                                std::partition_point(
-                                                    _next.begin(),
-                                                    _next.end(),
-                                                    [&f, &g](const node& _other) ALWAYS_INLINE {
-                                                        return f == _other.m_fScore ?
-                                                               g >  _other.m_gScore :
-                                                               f >  _other.m_fScore;
-                                                    }
-                                                ),
-                                                node (n.index, g, f, curr_ptr)
-                                            );
-                                        }
+                                const scalar_t g = curr.m_gScore + n.distance;
+
+                                // Check if this is the cheapest known route to the node:
+                                if (auto [known, is_new] = _g_scores.try_emplace(n.index, g); is_new || g < known->second) {
+                                    known->second = g;
+
+                                    if (curr_ptr == nullptr) {
+                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
-                                }
-                                else {
-                                    next_threshold = utils::min(next_threshold, f);
-                                    break;
+
+                                    const scalar_t f = g + (_params.h(n.coord, end) * _params.weight);
+
+                                    _open.emplace_back(n.index, g, f, curr_ptr);
                                 }
                             }
                         }
                     }
                     else { // SOLUTION REACHED...
 
-                        _next   = std::move(open_set_t());
-                        _closed = closed_set_t{};
-
                         if constexpr (params_t::reverse_equivalence::value) {
                             return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
@@ -201,11 +187,9 @@ namespace chdr::solvers {
                         }
                     }
                 }
+                while (!_open.empty());
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
 
                 max_threshold = next_threshold;
             }
@@ -217,8 +201,7 @@ namespace chdr::solvers {
 
             const auto capacity = solver_t::solver_utils::determine_capacity(_params);
 
-            existence_set closed(_params.monotonic_pmr);
-            closed.reserve(capacity);
+            g_scores_t g_scores(_params.heterogeneous_pmr);
 
             std::pmr::vector<node> open(_params.heterogeneous_pmr);
             try {
@@ -228,11 +211,11 @@ namespace chdr::solvers {
 
             std::pmr::vector<node> next(_params.heterogeneous_pmr);
             try {
-                open.reserve(capacity / 8U);
+                next.reserve(capacity / 8U);
             }
             catch (...) {} // NOLINT(*-empty-catch)
 
-            return solve_internal(open, next, closed, capacity, _params);
+            return solve_internal(open, next, g_scores, _params);
         }
     };
 
-- 
2.43.0


From 5c2d2928110b171c65db528a96e35dcb910eb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 13/53] fix: Dijkstra expands a node only when a better route
 to it is found

Every duplicate in the open set was expanded again, which takes exponential time
in open space.
---
 include/solvers/dijkstra.hpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index a6e9610..8686307 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -172,7 +172,17 @@ namespace chdr::solvers {
                 auto _ = std::move(_open.top());
                 _open.pop();
 
-                auto& curr = result.m_data.emplace(_.m_index, std::move(_)).first->second;
+                const auto [known, is_new] = result.m_data.emplace(_.m_index, _);
+                auto& curr = known->second;
+
+                if (!is_new) {
+
+                    // Skip the node unless the new route to it is an improvement:
+                    if (_.m_gScore >= curr.m_gScore) { continue; }
+
+                    curr.m_gScore = _.m_gScore;
+                    curr.m_parent = _.m_parent;
+                }
 
                 for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
@@ -180,22 +190,8 @@ namespace chdr::solvers {
 
                         auto g = curr.m_gScore + n.distance;
 
-                        if (const auto search = result.m_data.find(n.index); search != result.m_data.end()) {
+                        if (const auto search = result.m_data.find(n.index); search == result.m_data.end() || g < search->second.m_gScore) {
 
-                            if (auto& child = search->second; g < child.m_gScore) {
-
-                                child.m_gScore = g;
-                                child.m_parent = &curr;
-
-                                if constexpr (params_t::lazy_sorting::value) {
-                                    _open.emplace_nosort(child);
-                                }
-                                else {
-                                    _open.emplace(child);
-                                }
-                            }
-                        }
-                        else {
                             if constexpr (params_t::lazy_sorting::value) {
                                 _open.emplace_nosort(n.index, g, &curr);
                             }
-- 
2.43.0


From d6e2272305bfe46ea5061eecc0ebe291f9460482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 14/53] fix: JPS and GJPS close jump points when they are
 expanded, so that routes are optimal

---
 include/solvers/gjps.hpp | 11 ++++++++---
 include/solvers/jps.hpp  |  8 +++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 1dc20a9..8bb490d 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -315,8 +315,7 @@ namespace chdr::solvers {
                 const auto s = utils::to_1d(start, _params.size);
                 const auto e = utils::to_1d(end,   _params.size);
 
-                  _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
+                _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -326,6 +325,13 @@ namespace chdr::solvers {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        // Nodes are closed upon expansion, as only then their cheapest route is known:
+                        if (_closed.contains(curr.m_index)) {
+                            curr.expunge(_params.homogeneous_pmr);
+                            continue;
+                        }
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -339,7 +345,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index 82ed34d..6d107ab 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -335,8 +335,7 @@ namespace chdr::solvers {
                 const auto s = utils::to_1d(start, _params.size);
                 const auto e = utils::to_1d(end,   _params.size);
 
-                  _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
+                _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -346,6 +345,10 @@ namespace chdr::solvers {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        // Nodes are closed upon expansion, as only then their cheapest route is known:
+                        if (_closed.contains(curr.m_index)) { continue; }
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -359,7 +362,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From 8cf3b5bcb2068798a43cbf1b076fa1da9742a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 15/53] fix: GJPS allocates its nodes from the resource it
 returns them to

---
 include/solvers/gjps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 8bb490d..5b938fa 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -347,7 +347,7 @@ namespace chdr::solvers {
                                 if (!_closed.contains(n)) {
 
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From 891dcaeae6f1cb79be6995df34af9516afe06cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 16/53] fix: Dijkstra follows the direction of a graph's links

---
 include/solvers/dijkstra.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index 8686307..98ff9d6 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -13,6 +13,7 @@
  * @file dijkstra.hpp
  */
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 
@@ -160,9 +161,12 @@ namespace chdr::solvers {
         template <typename open_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, const params_t& _params) {
 
-            const auto e = utils::to_1d(_params.end, _params.size);
+            // The links of a graph are directed, so it must be searched from the start. Grids may be searched from the end.
+            constexpr bool is_directed = solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>;
 
-            _open.emplace_nosort(e, static_cast<scalar_t>(0));
+            const auto s = utils::to_1d(is_directed ? _params.start : _params.end, _params.size);
+
+            _open.emplace_nosort(s, static_cast<scalar_t>(0));
 
             multi_result result(_params.size, _params.capacity);
 
@@ -204,7 +208,15 @@ namespace chdr::solvers {
             }
 
             // TODO: return multi_result instead of std::vector<coord_t>.
-            return result.get(_params.start);
+            if constexpr (is_directed) {
+                auto route = result.get(_params.end);
+                std::reverse(route.begin(), route.end());
+
+                return route;
+            }
+            else {
+                return result.get(_params.start);
+            }
         }
 
         [[maybe_unused, nodiscard]] static auto invoke(const params_t& _params) {
-- 
2.43.0


From 420951c0ec9bba72d7c8f4d467e38d28ce5546b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 17/53] fix: JPS and GJPS do not squeeze between two blocked
 corners to reach the end

No other diagonal step does, so whether a route was found depended on the
direction of the search.
---
 include/solvers/gjps.hpp | 10 +++++-----
 include/solvers/jps.hpp  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 5b938fa..ebe0e29 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -252,14 +252,14 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
-                return { true, _current };
+            const auto& neighbours = _maze.template get_neighbours<true>(_current);
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+
+            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED (if not blocked)...
+                return { is_straight(_direction) || neighbours[map[TM]].first || neighbours[map[ML]].first, _current };
             }
             else { // SEARCH FOR SOLUTION...
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
-
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
                 };
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index 6d107ab..e116141 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -272,14 +272,14 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
-                return { true, _current };
+            const auto& neighbours = _maze.template get_neighbours<true>(_current);
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+
+            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED (if not blocked)...
+                return { is_straight(_direction) || neighbours[map[TM]].first || neighbours[map[ML]].first, _current };
             }
             else { // SEARCH FOR SOLUTION...
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
-
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
                 };
-- 
2.43.0


From dba05d3309b9bf8a9a3ca492078462484afcc66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 18/53] fix: SMA* and OSMA* re-open a node without discarding
 its equals

---
 include/solvers/osmastar.hpp | 9 ++++++++-
 include/solvers/smastar.hpp  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..93ee03c 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -271,7 +271,14 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            // Erase only the neighbour, not all of the nodes with an equivalent score:
+                                            for (auto [it, last] = _open.equal_range(search->second); it != last; ++it) {
+                                                if (it->m_index == n.index) {
+                                                    _open.erase(it);
+                                                    break;
+                                                }
+                                            }
+
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..8bd51be 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -272,7 +272,14 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            // Erase only the neighbour, not all of the nodes with an equivalent score:
+                                            for (auto [it, last] = _open.equal_range(search->second); it != last; ++it) {
+                                                if (it->m_index == n.index) {
+                                                    _open.erase(it);
+                                                    break;
+                                                }
+                                            }
+
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
-- 
2.43.0


From 12a44fe1ebe7218cacce0ab4cbd43eff94d4f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 19/53] fix: pools respect over-aligned requests and the end of
 their stack block

---
 include/types/pmr/heterogeneous_pool.hpp | 36 +++++++++++++++---------
 include/types/pmr/homogeneous_pool.hpp   | 14 +++++----
 include/types/pmr/monotonic_pool.hpp     | 16 +++++------
 3 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..45ebbc8 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <limits>
 #include <map>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -166,33 +167,39 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
             // Find the smallest free block that fits:
-            auto it = m_free.lower_bound(_bytes);
+            for (auto it = m_free.lower_bound(_bytes); it != m_free.end(); ++it) {
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                auto*  raw_ptr = static_cast<void*>(it->second.data);
+                size_t space   = it->second.size;
+
+                // Skip blocks which have too little space past their first aligned address:
+                if (std::align(_alignment, _bytes, raw_ptr, space) == nullptr) { continue; }
 
                 // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                auto node = m_free.extract(it);
 
-                result = node.mapped().data;
+                result = static_cast<uint8_t*>(raw_ptr);
 
                 // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
+                size_t remaining_size = space - _bytes;
                 if (remaining_size != 0U) {
 
                     // Update with adjusted size:
                     node.key() = remaining_size;
                     node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                    node.mapped().data = result + _bytes;
 
                     m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
                 }
+
+                break;
             }
 
             return result;
@@ -252,21 +259,24 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
-                const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (m_stack_write < StackSize && _bytes < MaxStackAllocationSize) {
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                    m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    auto*  raw_ptr = static_cast<void*>(m_stack_block + m_stack_write);
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    aligned_ptr = static_cast<uint8_t*>(std::align(_alignment, _bytes, raw_ptr, space));
+                    if (aligned_ptr != nullptr) {
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + _bytes;
+                    }
                 }
 
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
                         aligned_ptr = expand(_bytes, _alignment);
                     }
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..920e3c2 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <limits>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -224,13 +225,14 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
+                if (m_stack_write < StackSize && _bytes < MaxStackAllocationSize) {
 
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    auto*  raw_ptr = static_cast<void*>(m_stack_block + m_stack_write);
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    aligned_ptr = static_cast<uint8_t*>(std::align(_alignment, _bytes, raw_ptr, space));
+                    if (aligned_ptr != nullptr) {
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + _bytes;
                     }
                 }
 
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..46d91f4 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -205,14 +205,14 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
-
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                if (m_stack_write < StackSize && _bytes < MaxStackAllocationSize) {
+
+                    auto*  raw_ptr = static_cast<void*>(m_stack_block + m_stack_write);
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    aligned_ptr = static_cast<uint8_t*>(std::align(_alignment, _bytes, raw_ptr, space));
+                    if (aligned_ptr != nullptr) {
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + _bytes;
                     }
                 }
 
-- 
2.43.0


From 2d82a07a28b001fa84f1fa71928003dbf8c4226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 20/53] fix: pools stay intact when the system refuses them a
 block

The monotonic pool wrote through its block list without checking that a block was
obtained; all pools removed the wrong entry when recording a block failed.
---
 include/types/pmr/heterogeneous_pool.hpp |  6 +++++-
 include/types/pmr/homogeneous_pool.hpp   |  6 +++++-
 include/types/pmr/monotonic_pool.hpp     | 10 ++++++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 45ebbc8..5ed847e 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -116,6 +116,8 @@ namespace chdr {
 
             uint8_t* result { nullptr };
 
+            const auto previous_count = m_blocks.size();
+
             try {
                 result = static_cast<uint8_t*>(operator new(allocate_size, static_cast<std::align_val_t>(_alignment)));
 
@@ -161,7 +163,9 @@ namespace chdr {
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
 
-                    m_blocks.pop_back();
+                    if (m_blocks.size() != previous_count) {
+                        m_blocks.pop_back();
+                    }
                 }
             }
             return result;
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 920e3c2..6fbd3c2 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -111,6 +111,8 @@ namespace chdr {
 
             uint8_t* result { nullptr };
 
+            const auto previous_count = m_blocks.size();
+
             try {
                 const auto allocate_bytes = utils::max(m_block_width, utils::max(_bytes, _alignment));
 
@@ -152,7 +154,9 @@ namespace chdr {
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
 
-                    m_blocks.pop_back();
+                    if (m_blocks.size() != previous_count) {
+                        m_blocks.pop_back();
+                    }
                 }
             }
 
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 46d91f4..50ca5ce 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -104,6 +104,8 @@ namespace chdr {
 
             uint8_t* result { nullptr };
 
+            const auto previous_count = m_blocks.size();
+
             try {
 
                 if (m_active_block_index + 1U < m_blocks.size()) { // Reuse an existing block:
@@ -143,7 +145,9 @@ namespace chdr {
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
 
-                    m_blocks.pop_back();
+                    if (m_blocks.size() != previous_count) {
+                        m_blocks.pop_back();
+                    }
                 }
             }
 
@@ -239,7 +243,9 @@ namespace chdr {
                     }
 
                     // Update write position.
-                    m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    if (LIKELY(aligned_ptr != nullptr)) {
+                        m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    }
                 }
 
                 // ReSharper disable once CppDFAConstantConditions
-- 
2.43.0


From 05de18fb7402a1c0e97271dc2309e5fbdf0602ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 21/53] fix: heterogeneous_pool keeps every free block,
 including those of equal size

Blocks of equal size were lost on reset, so that the pool grew with every reuse,
and a request smaller than its alignment recorded free space past its block.
---
 include/types/pmr/heterogeneous_pool.hpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 5ed847e..2f2827f 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -105,7 +105,7 @@ namespace chdr {
         size_t m_block_width;         // Size of the current block.
 
         std::vector<block> m_blocks;
-        std::map<size_t, block> m_free;
+        std::multimap<size_t, block> m_free;
 
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
@@ -132,23 +132,7 @@ namespace chdr {
                     remaining_size != 0U
                 ) {
 
-                    /*
-                     * Attempt to insert new block into free list.
-                     * Repeat with a smaller key upon collision.
-                     * If insertion is impossible, throw.
-                     */
-                    bool success = false;
-                    for (size_t i = 0U; i < remaining_size; ++i) {
-
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
-                            success = true;
-                            break;
-                        }
-                    }
-
-                    if (UNLIKELY(!success)) {
-                        throw std::bad_alloc();
-                    }
+                    m_free.emplace(remaining_size, block { remaining_size, _alignment, result + _bytes });
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
@@ -365,7 +349,7 @@ namespace chdr {
                         }
                     }
 
-                    m_free.try_emplace(_bytes, _bytes, _alignment, static_cast<uint8_t*>(_p));
+                    m_free.emplace(_bytes, block { _bytes, _alignment, static_cast<uint8_t*>(_p) });
                 }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From e4a9df32e33bbe4804041f4efd06bb593238fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 22/53] fix: pools free their blocks when they cannot be
 recycled on reset

---
 include/types/pmr/heterogeneous_pool.hpp | 1 +
 include/types/pmr/homogeneous_pool.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 2f2827f..cbc1058 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -491,6 +491,7 @@ namespace chdr {
                 }
             }
             catch (...) {
+                cleanup();
                   m_free.clear();
                 m_blocks.clear();
             }
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 6fbd3c2..3703040 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -469,6 +469,7 @@ namespace chdr {
                 }
             }
             catch (...) {
+                cleanup();
                 m_blocks.clear();
                   m_free.clear();
             }
-- 
2.43.0


From 8853fc6eaf85e8c8aee3fdfe70e5744b0b3e6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 23/53] fix: homogeneous_pool recycles aligned chunks, and
 forgets its alignment on release

---
 include/types/pmr/homogeneous_pool.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 3703040..cf16108 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -453,18 +453,21 @@ namespace chdr {
             try {
                 m_free.clear();
 
+                // Chunks hold the largest permitted allocation, and start at aligned offsets:
+                const auto stride = m_alignment == 0U ? m_block_width : ((m_block_width + m_alignment - 1U) / m_alignment) * m_alignment;
+
                 // Reuse memory from existing blocks to repopulate `free`:
                 for (auto& [size, data] : m_blocks) {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
+                    const auto chunk_size = size < m_block_width ? 0U : ((size - m_block_width) / stride) + 1U;
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
 
                     IVDEP
                     for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
+                        m_free[j + current_size] = data + j * stride;
                     }
                 }
             }
@@ -504,6 +507,8 @@ namespace chdr {
                 cleanup();
                 decltype(m_blocks) temp{};
                 m_blocks = std::move(temp);
+
+                m_alignment = 0U;
             }
             {
                 m_free = {};
-- 
2.43.0


From aacf92dc077387bda448175f8013e902204518e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 24/53] fix: homogeneous_pool does not throw upon deallocation

---
 include/types/pmr/homogeneous_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index cf16108..b7fa927 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -307,7 +307,10 @@ namespace chdr {
             }
             else {
 
-                m_free.push_back(static_cast<uint8_t*>(_p));
+                try {
+                    m_free.push_back(static_cast<uint8_t*>(_p));
+                }
+                catch (...) {} // Without space to record it, the memory is recovered on reset or release.
 
 #if CHDR_DIAGNOSTICS == 1
 
-- 
2.43.0


From 3e3ea81b29f440259f26ac17931bb3d1c56c7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 25/53] fix: coordinates outside of the maze are not mistaken
 for cells inside of it

---
 include/solvers/base/solver.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 49a04f9..ddb34db 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -342,6 +342,27 @@ namespace chdr::solvers {
             template <typename T>
             static constexpr bool has_subscript_operator_v = has_subscript_operator<T>::value;
 
+            /**
+             * @brief Determines whether a coordinate lies within the bounds of the search space.
+             *
+             * @details A coordinate outside of the bounds may share its linear index with one inside of them.
+             *
+             * @param [in] _coord Coordinate to be checked.
+             * @param [in] _size Size of the search space in each axis.
+             *
+             * @return `true` if every axis of the coordinate is less than that of the size; `false` otherwise.
+             */
+            static constexpr bool is_within(const typename params_t::coord_type& _coord, const typename params_t::coord_type& _size) noexcept {
+
+                bool result = true;
+
+                for (size_t i = 0U; i < std::tuple_size_v<std::decay_t<typename params_t::coord_type>>; ++i) {
+                    result = result && _coord[i] < _size[i];
+                }
+
+                return result;
+            }
+
             /**
              * @brief Estimates the preallocation quota for a given solve.
              *
@@ -885,8 +906,8 @@ namespace chdr::solvers {
                 const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
                 const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
 
-                if (_params.maze.contains(s) && _params.maze[s].is_active() &&
-                    _params.maze.contains(e) && _params.maze[e].is_active()
+                if (solver_utils::is_within(_params.start, _params.size) && _params.maze.contains(s) && _params.maze[s].is_active() &&
+                    solver_utils::is_within(_params.end,   _params.size) && _params.maze.contains(e) && _params.maze[e].is_active()
                 ) {
                     result = s != e ?
                         solver_t<params_t>::invoke(_params) :
-- 
2.43.0


From bcc111a1e72f7dfe01cff9eeb719c9bc4f79bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 26/53] fix: solve() can be called with the members of its
 parameters

---
 include/solvers/base/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index ddb34db..75a9f19 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -869,7 +869,7 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            return solve({ std::forward<Args>(_args)... });
         }
 
         /**
-- 
2.43.0


From eaa0bdca71ee790947da31bc4d38eabe7123a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 27/53] fix: iterative-deepening searches compile for graphs

---
 include/solvers/eidastar.hpp      | 2 +-
 include/solvers/eidbest_first.hpp | 2 +-
 include/solvers/eiddfs.hpp        | 2 +-
 include/solvers/iddfs.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index a650c2c..2a0d8ac 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -107,7 +107,7 @@ namespace chdr::solvers {
             node curr;
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            typename std::decay_t<neighbours_t>::size_type neighbours_idx;
 
             [[nodiscard]] state(node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_gScore, _curr.m_fScore),
diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index e524f83..a97922e 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -100,7 +100,7 @@ namespace chdr::solvers {
             node curr;
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            typename std::decay_t<neighbours_t>::size_type neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_hScore),
diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 8deb946..5f18bfe 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -98,7 +98,7 @@ namespace chdr::solvers {
         struct state final {
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            typename std::decay_t<neighbours_t>::size_type neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 38fcde7..f725d92 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -99,7 +99,7 @@ namespace chdr::solvers {
         struct state final {
 
                      neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            typename std::decay_t<neighbours_t>::size_type neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
-- 
2.43.0


From ee64db9335f9fd96c843ab0ba01fb214d955e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 28/53] fix: MG* does not route through a cell twice after
 re-opening nodes

---
 include/solvers/mgstar.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index e17289d..4e6bb5f 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -160,6 +160,23 @@ namespace chdr::solvers {
             }
         }
 
+        /**
+         * @brief Determines whether a node's route passes through an index.
+         *
+         * @details Regression re-opens nodes, including those which the current route already consists of.
+         *          Routing through them again would only lead in circles.
+         */
+        [[nodiscard]] HOT static bool is_on_route(const node& _node, index_t _index) noexcept {
+
+            bool result = _node.m_index == _index;
+
+            for (const auto* p = _node.m_parent; !result && p != nullptr; p = p->m_parent) {
+                result = p->m_index == _index;
+            }
+
+            return result;
+        }
+
         template <typename open_set_t, typename closed_set_t, typename expunct_set_t>
         [[nodiscard]] HOT static auto desaturate(open_set_t& _open, closed_set_t& _closed, expunct_set_t& _expunct, size_t& _dynamic_allocations, const params_t& _params) {
 
@@ -210,6 +227,9 @@ namespace chdr::solvers {
 
             std::optional<node> best_solution;
 
+            // Whether nodes may have been re-opened to conserve memory:
+            bool saturated = false;
+
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
@@ -226,11 +246,12 @@ namespace chdr::solvers {
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
                                 // Check if node is not already visited:
-                                if (!_closed.contains(n.index)) {
+                                if (!_closed.contains(n.index) && !(saturated && is_on_route(curr_ptr != nullptr ? *curr_ptr : curr, n.index))) {
 
                                     // Attempt to resolve the issue of memory saturation.
                                     bool full = memory_usage() >= _params.memory_limit;
                                     if (full) {
+                                        saturated = true;
                                         full = desaturate(_open, _closed, expunct, dynamic_allocations, _params);
                                     }
 
-- 
2.43.0


From 0106bd6f4cd27c898365978bdbc3bf6c6bf94d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 29/53] fix: grid::contains() can be called with a coordinate

---
 include/mazes/grid.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..f1ba283 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,14 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            bool result = true;
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                result = result && _id[i] < m_size[i];
+            }
+
+            return result;
         }
 
         /**
@@ -759,7 +766,14 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            bool result = true;
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                result = result && _id[i] < m_size[i];
+            }
+
+            return result;
         }
 
         /**
-- 
2.43.0


From 1884a8a4d18b0b59a8a83a7af491796f4e0f77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 30/53] fix: to_nd compiles for coordinates narrower than int

---
 include/utils/utils.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index cab6c37..3937f3a 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -207,8 +207,8 @@ namespace chdr {
             }
             else if constexpr (Kd == 2U) {
                 result = {
-                    _index % _sizes[0U],
-                    _index / _sizes[0U]
+                    static_cast<T>(_index % _sizes[0U]),
+                    static_cast<T>(_index / _sizes[0U])
                 };
             }
             else if constexpr (Kd == 3U) {
@@ -216,9 +216,9 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[0U],
-                    w2 / _sizes[0U],
-                    _index / w1
+                    static_cast<T>(w2 % _sizes[0U]),
+                    static_cast<T>(w2 / _sizes[0U]),
+                    static_cast<T>(_index / w1)
                 };
             }
             else if constexpr (Kd == 4U) {
@@ -227,10 +227,10 @@ namespace chdr {
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[0U],
-                    (w3 % w1) / _sizes[0U],
-                     w3 / w1,
-                    _index / w2,
+                    static_cast<T>((w3 % w1) % _sizes[0U]),
+                    static_cast<T>((w3 % w1) / _sizes[0U]),
+                    static_cast<T>( w3 / w1),
+                    static_cast<T>(_index / w2),
                 };
             }
             else {
-- 
2.43.0


From f1c4e5e38dd3efe1a1585e043779ed6f3b3e48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 31/53] fix: pruning a graph keeps its edges symmetric and
 leaves none dangling

---
 include/mazes/graph.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..c48bc82 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -374,6 +374,11 @@ namespace chdr::mazes {
 
                         if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
 
+                            // A node with an edge to itself is not transitory.
+                            if (neighbours.front().first == node || neighbours.back().first == node) {
+                                continue;
+                            }
+
                             dirty = ConsolidateAfterPrune;
 
                             auto it = neighbours.begin();
@@ -391,10 +396,9 @@ namespace chdr::mazes {
                                 auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
 
                                 if (sn != set.end()) {
-
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
+                                    neighbour_t new_vertex{n2_id, sn->second + n2_cost};
+                                    set.erase(sn);
+                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
                                         set.emplace_back(new_vertex);
                                     }
                                 }
@@ -413,6 +417,13 @@ namespace chdr::mazes {
                                 }
                             }
 
+                            if (s1 != m_entries.end() && n1_id == n2_id) {
+
+                                // Nothing lies beyond the current node.
+                                auto& set = s1->second;
+                                set.erase(std::remove_if(set.begin(), set.end(), [&entry](const edge_t& _edge) { return _edge.first == entry.first; }), set.end());
+                            }
+
                             // Remove the current node from the graph.
                             nodesToRemove.emplace_back(node);
                         }
-- 
2.43.0


From 11b978863242c5952f3659333a1c9162d7b329d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 32/53] fix: a graph made from a grid connects each node with
 the nodes next to it only

---
 include/mazes/graph.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index c48bc82..828aa36 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -193,7 +193,14 @@ namespace chdr::mazes {
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
                                         local_closed.clear();
-                                        stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
+                                        thread_connections[nIdx1].clear();
+
+                                        if (_grid.is_transitory(nIdx1)) {
+                                            stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
+                                        }
+                                        else {
+                                            thread_connections[nIdx1].emplace_back(nIdx1, static_cast<scalar_t>(1));
+                                        }
 
                                         while (!stack.empty()) {
 
-- 
2.43.0


From 21ac41ce674db3c0e3f40620c03117c1f585b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 33/53] fix: a graph made from a grid contains isolated cells

---
 include/mazes/graph.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 828aa36..a399f54 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -151,6 +151,8 @@ namespace chdr::mazes {
 
                     if (element.is_active()) {
 
+                        add(index);
+
                         for (auto& neighbour : _grid.get_neighbours(index)) {
 
                             if (const auto& [nActive, nCoord] = neighbour; nActive) {
@@ -186,6 +188,11 @@ namespace chdr::mazes {
 
                             if (const auto& neighbours = _grid.get_neighbours(index); !_grid.is_transitory(neighbours)) {
 
+                                {
+                                    const std::lock_guard lock(mtx);
+                                    add(index);
+                                }
+
                                 for (const auto& n1 : neighbours) {
 
                                     if (const auto& [nActive1, nCoord1] = n1; nActive1) {
-- 
2.43.0


From 16b0ee8c9aa97c260987963f17b60631817812a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 34/53] fix: a graph made from an adjacency list contains nodes
 without edges

---
 include/mazes/graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a399f54..dc0a2e5 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -109,6 +109,8 @@ namespace chdr::mazes {
 
             for (const auto& entry : _adjacency_list) {
 
+                add(index);
+
                 for (const auto& edge : entry) {
                     add(index, edge);
                 }
-- 
2.43.0


From 245203042f70235e80776a93ed86151720ccc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 35/53] fix: heap::top() and heap::back() return the items of
 the heap

---
 include/types/containers/heap.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..c327786 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -267,12 +267,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -284,12 +279,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -301,12 +291,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -318,12 +303,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
-- 
2.43.0


From b9f4f32d845e799e98b4be01ca33ee676fae01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 36/53] fix: erasing an item from a heap removes that item and
 keeps the order

---
 include/types/containers/heap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index c327786..d3e09bb 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -409,9 +409,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i >= 1U && i <= size()) {
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -421,7 +421,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[i / Kd], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -852,7 +852,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 948a6b034ac8a3a95ead380d95db7b7f1d7d0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 37/53] fix: erasing a range from a heap ends and keeps the
 order

---
 include/types/containers/heap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index d3e09bb..c8b7763 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -887,8 +887,10 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+            c.erase(_first, _last);
+
+            for (size_t i = size() / Kd; i >= 1U; --i) {
+                sort_down(c[i]);
             }
         }
 
-- 
2.43.0


From a29f32c07cbe63f33867aa7ca2154d0483a55607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 38/53] fix: heap::dequeue() of the last item does not access
 past the end

---
 include/types/containers/heap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index c8b7763..1aed0ec 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -450,12 +450,14 @@ namespace chdr {
 
             T result(std::move(top()));
 
-            if (size() > 0U) {
+            if (size() > 1U) {
                 c[1U] = std::move(c.back());
             }
             c.pop_back();
 
-            sort_down(c[1U]);
+            if (size() > 1U) {
+                sort_down(c[1U]);
+            }
 
             return result;
         }
-- 
2.43.0


From 6beef59a64ad558498225bc2fda4bc55fe896003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 39/53] fix: heap::insert() at a position keeps the order and
 returns the inserted item

---
 include/types/containers/heap.hpp | 33 +++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 1aed0ec..bb59326 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,21 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        /**
+         * @brief Moves the item at an index upwards towards the root.
+         * @param _index [in] The (one-based) index of the item.
+         * @return size_t The index at which the item comes to rest.
+         */
+        constexpr size_t raise(size_t _index) {
+
+            while (_index > 1U && comp(c[_index / Kd], c[_index])) {
+                std::swap(c[_index / Kd], c[_index]);
+                _index /= Kd;
+            }
+
+            return _index;
+        }
+
     public:
 
         /**
@@ -808,29 +823,27 @@ namespace chdr {
         /**
          * @brief Inserts an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be inserted.
+         * @param _position A hint only, as the order of the heap decides where the element belongs.
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position;
+            c.push_back(_value);
+            return c.begin() + raise(size()); // Return iterator to inserted element
         }
 
         /**
          * @brief Moves an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be moved.
+         * @param _position A hint only, as the order of the heap decides where the element belongs.
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position;
+            c.push_back(std::move(_value));
+            return c.begin() + raise(size()); // Return iterator to inserted element
         }
 
         /**
-- 
2.43.0


From 1f1d62daa375aa343779fac8a491db3f5fff171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 40/53] fix: reverse iteration over a heap ends before the
 super element

---
 include/types/containers/heap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index bb59326..b1f0edb 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -928,9 +928,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend()  - 1U;  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend()  - 1U;  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend() - 1U; }
 
     };
 
-- 
2.43.0


From 59e3ad6ba1f8e34732fccd0a84729e9e0040ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 41/53] fix: heaps of more than two dimensions keep their order

---
 include/types/containers/heap.hpp | 38 +++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index b1f0edb..81119d4 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,20 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        /**
+         * @brief Index of the parent of an item. Indices start at one.
+         */
+        [[nodiscard]] HOT static constexpr size_t parent_of(size_t _index) noexcept {
+            return (_index + (Kd - 2U)) / Kd;
+        }
+
+        /**
+         * @brief Index of the first child of an item. Indices start at one.
+         */
+        [[nodiscard]] HOT static constexpr size_t child_of(size_t _index) noexcept {
+            return (_index * Kd) - (Kd - 2U);
+        }
+
         /**
          * @brief Moves the item at an index upwards towards the root.
          * @param _index [in] The (one-based) index of the item.
@@ -81,9 +95,9 @@ namespace chdr {
          */
         constexpr size_t raise(size_t _index) {
 
-            while (_index > 1U && comp(c[_index / Kd], c[_index])) {
-                std::swap(c[_index / Kd], c[_index]);
-                _index /= Kd;
+            while (_index > 1U && comp(c[parent_of(_index)], c[_index])) {
+                std::swap(c[parent_of(_index)], c[_index]);
+                _index = parent_of(_index);
             }
 
             return _index;
@@ -206,7 +220,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -231,7 +245,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -436,7 +450,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i / Kd], c[i])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -535,7 +549,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -570,7 +584,7 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
+                    const size_t c0 = child_of(i);         // First child index
                     const size_t cn = c0 + (Kd - 1U); // Last child index in range
 
                     if (c0 < c.size()) {
@@ -754,7 +768,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -799,7 +813,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -867,7 +881,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
@@ -904,7 +918,7 @@ namespace chdr {
         constexpr void erase(iterator_t _first, iterator_t _last) {
             c.erase(_first, _last);
 
-            for (size_t i = size() / Kd; i >= 1U; --i) {
+            for (size_t i = parent_of(size()); i >= 1U; --i) {
                 sort_down(c[i]);
             }
         }
-- 
2.43.0


From 2254b82a440f2194c78fc72d4c569842c5083324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 42/53] fix: stack::push() and queue::push() compile

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From 58a2c4950ccd138f8391ab7320e7e8188e2fe711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 43/53] fix: iterators of existence_set compile

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..4b5ccc7 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename std::pmr::vector<width_t>::              iterator;
+        using const_iterator_t         = typename std::pmr::vector<width_t>::        const_iterator;
+        using reverse_iterator_t       = typename std::pmr::vector<width_t>::      reverse_iterator;
+        using const_reverse_iterator_t = typename std::pmr::vector<width_t>::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From 993e7c15afd988efbd1384942964f07270b4272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 44/53] fix: existence_set refuses the greatest hash instead of
 writing out of bounds

---
 include/types/containers/existence_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 4b5ccc7..0e54f96 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -110,7 +110,7 @@ namespace chdr {
         constexpr void enable(size_t _hash) {
 
             if (_hash >= c.size()) {
-                resize(_hash + 1U);
+                resize(utils::min(_hash, std::numeric_limits<size_t>::max() - 1U) + 1U);
             }
 
             /*
-- 
2.43.0


From caa38320baa72c8f4b4e9a44048564692633d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 45/53] fix: heterogeneous_pool recycles freed memory

---
 include/types/pmr/heterogeneous_pool.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index cbc1058..b9791ea 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -317,11 +317,15 @@ namespace chdr {
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
             assert((_alignment & (_alignment - 1U)) == 0U && "Alignment must be a power of two.");
 
-            if (_bytes != 0U) {
+            if (_bytes == 0U) {
                 // No-op. (See C++17 standard.)
             }
             else {
-                if (((m_stack_write + (_bytes + _alignment - 1U)) & ~(_alignment - 1U)) > s_stack_block_size) {
+
+                // Memory of the stack block is recovered on reset or release.
+                if (const auto offset = reinterpret_cast<uintptr_t>(_p) - reinterpret_cast<uintptr_t>(m_stack_block);
+                    offset >= s_stack_block_size
+                ) {
 
                     if constexpr (Coalescing) {
 
@@ -349,7 +353,10 @@ namespace chdr {
                         }
                     }
 
-                    m_free.emplace(_bytes, block { _bytes, _alignment, static_cast<uint8_t*>(_p) });
+                    try {
+                        m_free.emplace(_bytes, block { _bytes, _alignment, static_cast<uint8_t*>(_p) });
+                    }
+                    catch (...) {} // Without space to record it, the memory is recovered on reset or release.
                 }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 8254c31418190f4f293efe0dd287248a7b78040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 46/53] fix: moving a homogeneous_pool leaves its freed stack
 memory behind

---
 include/types/pmr/homogeneous_pool.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index b7fa927..1c6a57d 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -181,6 +181,24 @@ namespace chdr {
             }
         }
 
+        /**
+         * @brief Removes memory of another pool's stack block from the free list.
+         *
+         * @details The stack block is not transferred when a pool is moved.
+         *
+         * @param [in] _other The pool whose stack block is to be forgotten.
+         */
+        void forget_stack_block(const homogeneous_pool& _other) noexcept {
+
+            const auto base = reinterpret_cast<uintptr_t>(_other.m_stack_block);
+
+            size_t count = 0U;
+            for (auto* const item : m_free) {
+                if (reinterpret_cast<uintptr_t>(item) - base >= s_stack_block_size) { m_free[count++] = item; }
+            }
+            m_free.resize(count);
+        }
+
     protected:
 
         /**
@@ -400,6 +418,8 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            forget_stack_block(_other);
+
             _other.m_stack_write = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
@@ -421,6 +441,8 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                forget_stack_block(_other);
+
                 _other.m_stack_write = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
-- 
2.43.0


From 3d5cd4d659b304905d223b71710f8e3abf56b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 47/53] fix: distances do not truncate or wrap coordinates

---
 include/utils/heuristics.hpp | 39 ++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 3a65a3f..9be4084 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -41,6 +41,31 @@ namespace chdr {
          heuristics& operator=(const heuristics&&) = delete;
         ~heuristics()                              = delete;
 
+    private:
+
+        /**
+         * @brief Computes the absolute difference of two coordinate components.
+         *
+         * @param _a The first component.
+         * @param _b The second component.
+         * @return The absolute difference of _a and _b, which is exact for all integral types.
+         */
+        template <typename scalar_t, typename T>
+        [[nodiscard]] HOT static constexpr scalar_t displacement(const T& _a, const T& _b) noexcept {
+
+            if constexpr (std::is_integral_v<T>) {
+                using unsigned_t = std::make_unsigned_t<T>;
+
+                return static_cast<scalar_t>(_a < _b ?
+                    static_cast<unsigned_t>(static_cast<unsigned_t>(_b) - static_cast<unsigned_t>(_a)) :
+                    static_cast<unsigned_t>(static_cast<unsigned_t>(_a) - static_cast<unsigned_t>(_b))
+                );
+            }
+            else {
+                return static_cast<scalar_t>(_a < _b ? _b - _a : _a - _b);
+            }
+        }
+
     public:
 
         /**
@@ -77,7 +102,7 @@ namespace chdr {
 
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = displacement<scalar_t>(_a[i], _b[i]);
                 result += val * val;
             }
 
@@ -103,7 +128,7 @@ namespace chdr {
 
             for (size_t i = 0U; i < Kd; ++i) {
 
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = displacement<scalar_t>(_a[i], _b[i]);
                 if (val > major) {
                     minor = major;
                     major = val;
@@ -135,7 +160,7 @@ namespace chdr {
 
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
-                result += static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                result += displacement<scalar_t>(_a[i], _b[i]);
             }
 
             return result;
@@ -159,7 +184,7 @@ namespace chdr {
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
 
-                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                const auto val = displacement<scalar_t>(_a[i], _b[i]);
                 if (val > result) {
                     result = val;
                 }
@@ -186,8 +211,10 @@ namespace chdr {
             IVDEP
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (const auto denominator = static_cast<scalar_t>(utils::abs(_a[i]) + utils::abs(_b[i])); denominator != 0) {
-                    const auto   numerator = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                constexpr std::decay_t<decltype(_a[i])> zero_v{0};
+
+                if (const auto denominator = displacement<scalar_t>(_a[i], zero_v) + displacement<scalar_t>(_b[i], zero_v); denominator != 0) {
+                    const auto   numerator = displacement<scalar_t>(_a[i], _b[i]);
 
                     result += numerator / denominator;
                 }
-- 
2.43.0


From 8d1441c5533edb56c1ab4b8bbcc7c66025fb2745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 48/53] fix: euclidean_distance has the precision of its scalar
 type

---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9be4084..98dcfff 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -83,7 +83,7 @@ namespace chdr {
          */
         template <typename scalar_t, typename coord_t>
         [[maybe_unused, nodiscard]] HOT static constexpr auto euclidean_distance(const coord_t& _a, const coord_t& _b) noexcept {
-            return static_cast<scalar_t>(sqrt(sqr_euclidean_distance<scalar_t, coord_t>(_a, _b)));
+            return static_cast<scalar_t>(utils::sqrt(sqr_euclidean_distance<scalar_t, coord_t>(_a, _b)));
         }
 
         /**
-- 
2.43.0


From be8356dbec576107ed1cf5bfdc706e48120f9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 49/53] fix: powui neither divides by zero nor rejects
 representable powers

---
 include/utils/utils.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 3937f3a..3fe3803 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -385,12 +385,15 @@ namespace chdr {
 
             while (_exp > 0U) {
                 if (_exp % 2U == 1U) {
-                    assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
+                    assert((_base == 0U || result <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
                     result *= _base;
                 }
-                assert(_base <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
-                _base *= _base;
-                _exp  /= 2U;
+                _exp /= 2U;
+
+                if (_exp > 0U) {
+                    assert((_base == 0U || _base <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
+                    _base *= _base;
+                }
             }
 
             return result;
-- 
2.43.0


From 44aea3e3e9168fd07f173c994f4d2d8ea9f79f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 50/53] fix: sqrt terminates for every value at compile time

---
 include/utils/utils.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 3fe3803..d7ffdad 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -461,15 +461,17 @@ namespace chdr {
                     }
                     else {
 
-                        T x    { _value };
-                        T last {    0   };
+                        // Start at or above the root; the sequence descends until it has been reached.
+                        T x    { static_cast<T>(_value / static_cast<T>(2) + static_cast<T>(1)) };
+                        T last {};
 
-                        while (x != last) {
+                        do {
                             last = x;
-                               x = (x + _value / x) / static_cast<T>(2);
+                               x = static_cast<T>((x + _value / x) / static_cast<T>(2));
                         }
+                        while (x < last);
 
-                        result = x;
+                        result = last;
                     }
                 }
             }
-- 
2.43.0


From fae9f185a56b2818286282f509d2ed587a818e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 51/53] fix: to_string() does not read past its units

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index d7ffdad..af982bd 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -569,7 +569,7 @@ namespace chdr {
             constexpr std::array<const char* const, 4U> units { "s", "ms", "µs", "ns" };
 
             size_t i = 0U;
-            while (i < units.size() && abs(_duration) < 1.0L) {
+            while (i + 1U < units.size() && abs(_duration) < 1.0L) {
                 _duration *= 1000.0L;
                 ++i;
             }
-- 
2.43.0


From e0b6c5d1d56b108af5dfd182bc985e3a31146f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 52/53] fix: to_string() does not divide by a scale of zero

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index af982bd..4a91944 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -578,7 +578,7 @@ namespace chdr {
 
             return trim_trailing_zeros(
                 std::to_string(
-                    std::floor((_duration / _scale) + 0.5L) * _scale
+                    _scale > 0.0L ? std::floor((_duration / _scale) + 0.5L) * _scale : _duration
                 )
             ) + units[i];
         }
-- 
2.43.0


From 18f03e3068b481655541251a91e1e0b3c4e6e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 53/53] fix: trim_trailing_zeros() keeps the zeros of integers

---
 include/utils/utils.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 4a91944..6ea98f8 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -599,13 +599,18 @@ namespace chdr {
          */
         [[nodiscard]] static std::string trim_trailing_zeros(std::string _str) {
 
-            auto& trimmed = _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
-
-            if (trimmed.back() == '.') {
-                trimmed.pop_back();
+            // Only zeros at the end of a fraction are insignificant:
+            if (const auto point = _str.find('.');
+                point != std::string::npos && _str.find_first_not_of("0123456789", point + 1U) == std::string::npos
+            ) {
+                _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+
+                if (_str.back() == '.') {
+                    _str.pop_back();
+                }
             }
 
-            return trimmed;
+            return _str;
         }
     };
 
-- 
2.43.0

