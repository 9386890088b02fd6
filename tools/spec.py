#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "include/solvers/"
ALL_SOLVERS = [S + n + ".hpp" for n in "astar best_first bfs dfs dijkstra eidastar eidbest_first eiddfs fringe gbest_first gbfs gdfs gjps gstar idastar idbest_first iddfs jps mgstar osmastar smastar".split()]
BASE = S + "base/solver.hpp"
T_APP = "The test application runs each solver on one seed-0 solvable maze per size, with cubic sizes, one option set, the Manhattan heuristic and integer costs, and only asks whether the result is non-empty. "
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, tech=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook, **({"state": state} if state else {})),
        tech=tech, note=note))

prop("R01", "Every returned grid route is a real route from start to end",
  "For every point-to-point solver, whenever solve() on a grid returns a non-empty result, the coordinates form a walk between the requested start and end: every coordinate is inside the grid and active, consecutive coordinates are neighbours (axis neighbours, or also diagonal ones when octile neighbours are requested), and no cell repeats. The walk is complete except that one or both of its end points may be left out (the solver's convention), so start, the result (in the solver's direction) and end joined together are one unbroken route. For the jump-point solvers consecutive coordinates are jump points joined by an unobstructed straight or diagonal run instead of single steps.",
  ["inputs", "configurations"], "every grid of rank 1 to 5 with any sizes (cubic or not), weight and index types, any pair of cells, every option combination, every point-to-point solver",
  T_APP + "An invalid route (a jump through a wall, a padded or truncated vector, a wrong coordinate on a non-cubic grid) is non-empty too.",
  ALL_SOLVERS + [BASE, "include/mazes/grid.hpp", "include/utils/utils.hpp"],
  [("parent links and backtracking", BASE + " (rbacktrack, ibacktrack)"), ("index/coordinate mapping", "include/utils/utils.hpp (to_1d, to_nd)"), ("neighbourhood", "include/mazes/grid.hpp (get_neighbours)")],
  ["return value of solver<...>::solve"])

prop("R02", "A route is found exactly when one exists, and every search terminates",
  "On a finite grid every complete solver terminates and returns a non-empty result if and only if the end can be reached from the start through active cells under the chosen neighbourhood (flood returns exactly the end cell then). If the start or the end is inactive or outside the maze the result is empty, and if they are the same active cell the result is exactly that one coordinate.",
  ["inputs", "configurations"], "every finite grid, solvable or not, every pair of cells, every option combination, every solver that is not limited by memory",
  T_APP + "No test has an unreachable end, an inactive end point or equal end points, so lost frontier nodes and endless searches stay invisible.",
  ALL_SOLVERS + [BASE], [("front door checks", BASE + " (solve)"), ("open/closed set management", "include/solvers/*.hpp (solve_internal)")],
  ["return value of solver<...>::solve", "termination of the call"])

prop("R03", "Optimal solvers return a shortest route on uniform-cost grids",
  "On a grid, where every step costs one, the solvers documented as optimal (A*, G*, IDA*, IDA*+, Fringe, BFS, GBFS, IDDFS, IDDFS+, Dijkstra) return a route with the minimum possible number of steps whenever they return a route, given a consistent heuristic with weight one and eager (not lazy) sorting. This holds for axis and for octile neighbourhoods, integer and floating-point costs and both directions of search.",
  ["inputs", "configurations"], "every finite grid and pair of cells, every admissible heuristic offered, every option combination",
  T_APP + "A longer route passes as well as a shortest one.",
  [S + n + ".hpp" for n in "astar gstar idastar eidastar fringe bfs gbfs iddfs eiddfs dijkstra".split()] + [BASE, "include/types/containers/heap.hpp"],
  [("ordering of the open set by f and g", "include/types/containers/heap.hpp, include/solvers/base/bnode.hpp"), ("iteration bounds", "include/solvers/{idastar,eidastar,fringe,iddfs,eiddfs}.hpp")],
  ["length of the return value"])

prop("R04", "Jump-point search is complete and optimal on 2D octile grids",
  "On any 2D grid JPS and GJPS return a route if and only if the end can be reached by straight and diagonal steps, where a diagonal step may cut one blocked corner but never squeezes between two. The length of the returned route, expanding each jump into its single steps, is minimal: straight steps cost 1 and diagonal steps the square root of two with floating-point scalars (octile, Chebyshev, Euclidean and zero heuristics), and all steps cost 1 with integer scalars (Chebyshev and zero heuristics, and the octile distance rounded down). Both solvers agree with an exhaustive search on the same grid.",
  ["inputs", "configurations"], "every 2D grid and pair of active cells, admissible heuristics, both directions",
  T_APP + "JPS is tested on four mazes with one-cell-wide corridors, where no diagonal, corner or open-area jump rule matters.",
  [S + "jps.hpp", S + "gjps.hpp", BASE, "include/mazes/grid.hpp"], [("forced-neighbour map and jump recursion", S + "jps.hpp, " + S + "gjps.hpp"), ("check_neighbour ordering", "include/mazes/grid.hpp")],
  ["return value of solver<...>::solve"])

prop("R05", "Searching a weighted graph follows its edges and minimises total cost",
  "On a graph maze with non-negative edge costs every returned route follows existing edges from start to end and one is returned if and only if the end is reachable. The routes of Dijkstra and, with a consistent heuristic, weight one and eager sorting, of A*, G*, Fringe, IDA* and IDA*+ have the minimum total edge cost. Integer and floating-point costs behave alike.",
  ["inputs", "configurations"], "every finite graph with non-negative edge costs (any degree, parallel structure, cycles, disconnected parts), every pair of nodes",
  "The test application never searches a graph: no graph route has ever been checked.",
  [S + n + ".hpp" for n in "astar gstar idastar eidastar dijkstra bfs dfs gbfs gdfs best_first gbest_first".split()] + [BASE, "include/mazes/graph.hpp"],
  [("edge relaxation and node closing", "include/solvers/*.hpp (solve_internal)"), ("route reconstruction", BASE + " (rbacktrack)")], ["return value of solver<...>::solve"])

prop("R06", "Memory-bounded search stays valid, ends, and is optimal when memory suffices",
  "For every memory limit SMA*, OSMA* and MG* terminate without touching invalid memory, return either nothing or a valid route, and never hold notably more nodes at once than the limit allows. When the limit is larger than the whole search space they find a route exactly when one exists, and on a uniform-cost grid that route is a shortest one (weight at most one, consistent heuristic; for MG* on axis neighbourhoods).",
  ["inputs", "configurations"], "every memory limit from the smallest to unlimited, every finite grid and pair of cells",
  T_APP + "The limit is one constant (90) and never binds differently; results are never examined.",
  [S + "smastar.hpp", S + "osmastar.hpp", S + "mgstar.hpp", S + "base/managed_node.hpp"], [("memory_usage / cull / forget", "include/solvers/{smastar,osmastar,mgstar}.hpp")],
  ["return value of solver<...>::solve", "termination of the call"])

prop("R07", "Answers do not depend on tuning options or on earlier searches",
  "Repeating a search, or running it after any history of other searches on the same memory pools, gives the same answer as running it alone on fresh pools. Clean-up mode, capacity hints and the kind of memory resource supplied never change whether a route exists nor, for optimal solvers, its cost; lazy sorting never changes whether one exists. (Searches that leave the pools as they are, no_cleanup, are followed by a reset before the pools serve another kind of search.)",
  ["histories", "configurations"], "every sequence of solves of any solvers and mazes over shared pools, every combination of performance options and memory resources",
  T_APP + "Each test run makes one solve in a fresh process.",
  ALL_SOLVERS + [BASE, "include/types/pmr/monotonic_pool.hpp", "include/types/pmr/heterogeneous_pool.hpp", "include/types/pmr/homogeneous_pool.hpp"],
  [("reset_resources after each solve", BASE), ("pool reset", "include/types/pmr/*.hpp"), ("lazy sorting", "include/solvers/*.hpp")], ["return values along a history of solves"])

prop("R08", "An allocation failure during a search is reported and leaves everything reusable",
  "If any memory resource given to a search fails to allocate at any point, solve() ends by throwing that failure, of whatever type, to its caller (or, where only optional presizing was refused, returns the answer it gives without the failure), without crashing, leaking, or touching released memory. With clean-up enabled the resources are reset on the way out (each of them, even when the reset of another fails, which is reported too unless the search has failed before), and the next search on the same resources gives the same answer as on fresh ones.",
  ["fault_sequences", "inputs"], "every solver, every position of the failing allocation in every one of the resources, every maze",
  T_APP + "No test ever makes an allocation fail.", ALL_SOLVERS + [BASE],
  [("exception capture, reset and rethrow", BASE + " (solve)"), ("unwinding of open/closed sets and nodes", "include/solvers/*.hpp")], ["exception leaving solver<...>::solve", "answer of the next solve"])

prop("R09", "Searches obey the memory-resource contract",
  "Every block a search returns to a memory resource is one it obtained from that same resource and still owns, with the same size and alignment. No search touches a block after giving it back or after the resource was reset, and once a resource is reset or destroyed nothing the search allocated stays behind.",
  ["inputs", "configurations", "histories"], "every solver, maze, option combination and memory resource",
  T_APP + "The pools of the library never verify what is returned to them, so mistakes are silent.", ALL_SOLVERS + [BASE, S + "base/managed_node.hpp", S + "base/unmanaged_node.hpp"],
  [("expunge / managed_node lifetime", S + "base/managed_node.hpp"), ("container lifetimes in solve", "include/solvers/*.hpp")], ["calls to std::pmr::memory_resource::allocate/deallocate/reset"])

prop("R10", "Concurrent searches with separate pools are independent",
  "Any number of searches may run at the same time in different threads over the same immutable maze, each with its own memory resources. Every one gives the answer it gives when run alone, and there is no data race between them.",
  ["schedules", "inputs"], "every mix of solvers and queries run concurrently over a shared maze",
  T_APP + "Nothing runs concurrently in the tests.", ALL_SOLVERS + ["include/mazes/grid.hpp", "include/mazes/graph.hpp"],
  [("no shared mutable state in solvers or mazes", "include/solvers/*.hpp, include/mazes/*.hpp")], ["return values of concurrent solves", "race detector reports"])

prop("M01", "A grid reports exactly the cells, activity and neighbourhood it was built from",
  "For every grid, indexing by coordinate and by linear index name the same cell and report it active exactly when its weight is not the reserved maximum (for bit grids: not set). The neighbourhood of a cell lists, as active, exactly the active cells one axis step away (or one step in any combination of axes when diagonals are included) inside the bounds, each once and never the cell itself. Containment, counting, iteration and transit-cell detection agree with the same picture, whatever the weight type.",
  ["inputs", "configurations"], "every rank, size, weight type, cell content and queried cell", T_APP + "No test looks at a grid directly.",
  ["include/mazes/grid.hpp", "include/mazes/nodes/weighted_node.hpp"], [("compute_axis_neighbours / compute_diagonal_neighbours / check_neighbour", "include/mazes/grid.hpp"), ("bit specialisation", "include/mazes/grid.hpp")], ["public members of chdr::mazes::grid"])

prop("M02", "Coordinates and linear indices map one-to-one for every shape",
  "Within any shape the conversion from coordinate to linear index is a bijection onto 0..count-1 with the first axis fastest, and the conversion back is its exact inverse, for every rank and for cubic and non-cubic sizes alike. The answer does not depend on the integer type used for the coordinates, as long as the values are representable.",
  ["inputs"], "every rank from 1 up, every size vector with representable product, every coordinate inside it, every element type", T_APP + "All tested sizes are cubic, where mixing up two axes changes nothing.",
  ["include/utils/utils.hpp"], [("to_1d / to_nd with specialised ranks", "include/utils/utils.hpp")], ["return values of utils::to_1d and utils::to_nd"])

prop("M03", "A graph container always equals the set of nodes and edges put into it",
  "After any sequence of adding and removing nodes and edges, moving and clearing, a graph reports exactly the nodes and edges a plain multimap model holds: membership, count, neighbours with their costs, and iteration. Adding an edge always adds one (to its source, which becomes a node); removing an edge removes its identical copies, and a node that loses its last edge by it. Constructing a graph from an adjacency list gives the same graph as adding its nodes and edges one by one. Its memory comes from and returns to the resource it was given.",
  ["histories"], "every sequence of graph operations", "No test uses graphs.", ["include/mazes/graph.hpp", "include/types/containers/existence_set.hpp"],
  [("add / remove / contains / get_neighbours", "include/mazes/graph.hpp")], ["public members of chdr::mazes::graph"])

prop("M04", "Converting a grid to a graph and pruning keep distances and leave no loose ends",
  "The graph built from a grid has, between any two of its remaining cells, the same shortest distance (and the same reachability) as the grid, every edge leads to a node of the graph, and edges are symmetric. Pruning an undirected graph never changes the shortest distance between two nodes that survive, keeps every node with fewer than two connections, and (while more than two nodes are left) leaves no node with just two connections to other nodes. This holds however the work was split over threads, without data races.",
  ["inputs", "schedules"], "every grid and every undirected weighted graph", "No test converts or prunes.", ["include/mazes/graph.hpp"],
  [("graph(grid) constructor", "include/mazes/graph.hpp"), ("prune", "include/mazes/graph.hpp")], ["public members of chdr::mazes::graph"])

prop("C01", "The heap is always a correct priority queue",
  "After any sequence of operations the heap holds exactly the items put in and not taken out, its top is an item no other item precedes, and repeatedly taking the top yields all items in priority order. This holds for every arity, comparator, item type and construction path, including removal of arbitrary items, repair after a changed key or unsorted insertion, copies, moves and swaps.",
  ["histories"], "every sequence of heap operations, every arity and element type", T_APP + "Only push and pop of a binary heap are exercised, and their order is not checked.",
  ["include/types/containers/heap.hpp"], [("sort_up / sort_down", "include/types/containers/heap.hpp"), ("erase / pop / construction from a container", "include/types/containers/heap.hpp")], ["public members of chdr::heap"])

prop("C02", "The stack and queue adaptors keep exact LIFO and FIFO order",
  "After any sequence of operations a stack yields its items last-in first-out and a queue first-in first-out, with size, emptiness, the next item and iteration in both directions agreeing with the sequence of items put in and not yet taken out. Copies, moves, swaps and clearing behave as for the sequence itself.",
  ["histories"], "every sequence of stack and queue operations", T_APP, ["include/types/containers/stack.hpp", "include/types/containers/queue.hpp"],
  [("adaptor members", "include/types/containers/stack.hpp, include/types/containers/queue.hpp")], ["public members of chdr::stack and chdr::queue"])

prop("C03", "The existence set answers membership exactly",
  "After any sequence of insertions, removals, reservations, trimming, copying, moving and clearing, the set contains exactly the keys inserted and not removed since, and membership of any other key is false. This holds for every width (bit, byte or wider flags), whatever the capacity hints; iteration shows the same flags, and a key that cannot be stored is refused without changing the set.",
  ["histories"], "every sequence of operations over keys of any unsigned type", T_APP, ["include/types/containers/existence_set.hpp"],
  [("push / erase / contains / allocate / trim", "include/types/containers/existence_set.hpp")], ["public members of chdr::existence_set"])

prop("A01", "Monotonic pool blocks are disjoint, aligned and usable until reset",
  "Every block of at least one byte obtained from the monotonic pool since its last reset lies in memory the pool owns, satisfies the requested size and alignment and overlaps no other block obtained since then, freed or not, so contents written to it stay intact. Reset and release give all system memory back and make the pool reusable; move construction and assignment carry along the blocks that lie outside of the pool object and leave a usable pool behind, self-assignment changes nothing, and nothing leaks when the pool is destroyed.",
  ["histories", "configurations"], "every sequence of allocations of any size and alignment, resets, releases and moves, every block-size setting", T_APP + "Overlap or misalignment of pool blocks is invisible to sanitizers and to the tests' oracle.",
  ["include/types/pmr/monotonic_pool.hpp"], [("do_allocate / expand / reset", "include/types/pmr/monotonic_pool.hpp")], ["std::pmr::memory_resource interface of the pool"])
prop("A02", "Heterogeneous pool blocks are disjoint, aligned and usable until freed",
  "Every live block obtained from the heterogeneous pool lies in memory the pool owns, satisfies the requested size and alignment and overlaps no other live block, so contents stay intact until it is freed, whatever mix of sizes is allocated and freed. Freed memory outside of the pool object is recycled: the pool does not grow for a request which the memory freed just before can hold. A reset keeps the system memory for reuse and a release gives it back; moves carry along the blocks that lie outside of the pool object; the pool stays usable throughout and nothing leaks when it is destroyed.",
  ["histories", "configurations"], "every sequence of allocations and frees of any sizes and alignments, resets, releases and moves, every block-size setting", T_APP + "Overlap or misalignment of pool blocks is invisible to sanitizers and to the tests' oracle.",
  ["include/types/pmr/heterogeneous_pool.hpp"], [("allocate_from_free / expand / do_deallocate", "include/types/pmr/heterogeneous_pool.hpp")], ["std::pmr::memory_resource interface of the pool"])
prop("A03", "Homogeneous pool blocks are disjoint, aligned and recycled",
  "While all requests since the last reset have one size and alignment, every live block of the homogeneous pool lies in memory the pool owns, is aligned and overlaps no other live block, and freed blocks are reused before the pool grows. After a reset another size may be used, after a release another alignment too (sizes never exceed the width the pool was made with); a reset keeps the system memory for reuse and a release gives it back; moves carry along the blocks that lie outside of the pool object and leave both pools usable, and nothing leaks when they are destroyed.",
  ["histories", "configurations"], "every sequence of allocations and frees of one size per reset epoch, resets, releases and moves, every block-size setting", T_APP + "Overlap or misalignment of pool blocks is invisible to sanitizers and to the tests' oracle.",
  ["include/types/pmr/homogeneous_pool.hpp"], [("do_allocate / do_deallocate / reset", "include/types/pmr/homogeneous_pool.hpp")], ["std::pmr::memory_resource interface of the pool"])
prop("A04", "Memory pools survive exhaustion of the system allocator",
  "If the system allocator fails while a pool grows, the request fails with std::bad_alloc and changes nothing: every block handed out before keeps its contents, and later requests succeed once memory is available again. Resetting, releasing or destroying the pool afterwards neither leaks nor corrupts memory.",
  ["fault_sequences", "histories"], "every pool kind, every sequence of operations, every position of failing system allocations", "No test makes the system allocator fail.",
  ["include/types/pmr/monotonic_pool.hpp", "include/types/pmr/heterogeneous_pool.hpp", "include/types/pmr/homogeneous_pool.hpp"], [("expand() and its catch block", "include/types/pmr/*.hpp")], ["std::pmr::memory_resource interface of the pools"])

prop("U01", "Distance heuristics equal their definitions and never overestimate",
  "Each distance function returns its mathematical definition (to within the rounding of the scalar type) for every pair of coordinates of any rank and coordinate type, is symmetric, is zero exactly on equal points (all but the cosine distance), and neither wraps nor truncates, whether coordinates are signed, unsigned or floating-point. The octile distance is the largest displacement plus (sqrt(2) - 1) times the second largest; the cosine distance is 1 when a point is the origin. In an open box, Manhattan distance is the number of axis steps, Chebyshev distance the number of steps with diagonals, and no distance used as a heuristic exceeds the cost of the cheapest route.",
  ["inputs"], "every pair of coordinates, rank, coordinate type and scalar type in which the result is representable (octile, Canberra and cosine distances: floating-point)", T_APP + "Only Manhattan distance on unsigned coordinates is used.", ["include/utils/heuristics.hpp", "include/utils/utils.hpp"],
  [("distance functions", "include/utils/heuristics.hpp")], ["return values of chdr::heuristics::*"])
prop("U02", "Arithmetic and bit utilities equal their mathematical definitions",
  "The arithmetic helpers (unsigned integer power, square root, minimum, maximum, clamp, absolute value, sign, and the product of a coordinate's elements, which saturates at the greatest value of its type) return the mathematically defined value for every argument in their domain, in every supported type and both at compile time and at run time: square roots to within the rounding of a floating-point type and rounded down for integers. Representable powers of every base, zero included, are computed without a failed assertion.",
  ["inputs"], "every argument in the domain of each helper (products: of values that are not negative; powers: representable; absolute values: representable; run-time roots of integers: below 2^52)", T_APP + "Helpers are only reached through a handful of values.", ["include/utils/utils.hpp"],
  [("constexpr helpers", "include/utils/utils.hpp")], ["return values of chdr::utils::*"])
prop("U03", "Time and number formatting is safe and faithful for every value",
  "Formatting a duration or a number as text never reads out of bounds, and the text denotes the value given, to within half the scale asked for (a scale of 0 asks for no rounding) and the six decimals written, in the unit it names: seconds from one second up, otherwise the largest of ms, µs and ns in which the value is at least one, and ns below that. Trimming removes exactly the insignificant zeros of a decimal fraction, and its point when nothing is left after it, so the number keeps its value.",
  ["inputs"], "every value and precision", T_APP + "Formatting is only used to print one measured duration and is never compared.", ["include/utils/utils.hpp"], [("to_string / trim_trailing_zeros", "include/utils/utils.hpp")], ["return values of chdr::utils::to_string and trim_trailing_zeros"])

NOT_APPLICABLE = {}
CLAIMED = {}
for f in ("claims.json",):
    p = os.path.join(V, "tools", f)
    if os.path.exists(p): CLAIMED = json.load(open(p))

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("tech", "note")}
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        c = CLAIMED.get(p["id"])
        if c:
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                technique=c["technique"], level="exploration" if not c.get("level") else c["level"], level_note=c["note"]))
        else:
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
        hooks=dict(guard="CHDR_VERIF", enable="no hooks are needed: the harnesses only use the public headers", source_commits=[]),
        notes="see DESIGN.md; properties.jsonl and MANIFEST.json are generated by tools/spec.py")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
