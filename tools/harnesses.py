"""What each property's check is built from."""
COMPLETE = "astar best_first bfs dfs dijkstra eidastar eidbest_first eiddfs fringe gbest_first gbfs gdfs gstar idastar idbest_first iddfs".split()
BOUNDED = "mgstar osmastar smastar".split()
OPTIMAL = "astar bfs dijkstra eidastar eiddfs fringe gbfs gstar idastar iddfs".split()
def std(solvers, defs=""): return [("harness/solver_tu_std.cpp", f"-DSOLVER={s} {defs}") for s in solvers]
def routes(n, solvers): return dict(sources=std(solvers) + [("harness/solve.cpp", ""), ("harness/grid_routes.cpp", f"-DPROP={n}")])
HIST = [("harness/solver_tu_hist.cpp", f"-DSOLVER={x}") for x in COMPLETE + BOUNDED + ["flood"]] + [("harness/solver_tu_hist.cpp", f"-DSOLVER={x} -DJUMP") for x in ("jps", "gjps")]
AUDIT = [("harness/solver_tu_audit.cpp", f"-DSOLVER={x}") for x in COMPLETE + BOUNDED + ["flood"]] + [("harness/solver_tu_audit.cpp", f"-DSOLVER={x} -DJUMP") for x in ("jps", "gjps")] + [("harness/solver_tu_graph.cpp", f"-DSOLVER={x} -DAUDIT") for x in COMPLETE + BOUNDED]
HARNESSES = {
    "R01": routes(1, COMPLETE + BOUNDED) | dict(args=["--hang", "skip", "--cpu", "10"]),
    "R02": routes(2, COMPLETE + ["flood"]),
    "R03": routes(3, OPTIMAL) | dict(args=["--hang", "skip", "--cpu", "10"]),
    "R04": dict(sources=[("harness/solver_tu_jump.cpp", f"-DSOLVER={x} -DJUMP") for x in ("jps", "gjps")] + [("harness/solve.cpp", ""), ("harness/jump_routes.cpp", "")]),
    "R05": dict(sources=[("harness/solver_tu_graph.cpp", f"-DSOLVER={x}") for x in COMPLETE + BOUNDED] + [("harness/gsolve.cpp", ""), ("harness/solve.cpp", ""), ("harness/graph_routes.cpp", "")]),
    "R06": dict(sources=[("harness/solver_tu_mem.cpp", f"-DSOLVER={x}") for x in BOUNDED] + [("harness/solver_tu_graph.cpp", f"-DSOLVER={x} {a}") for x in BOUNDED for a in ("", "-DAUDIT")] + [("harness/gsolve.cpp", ""), ("harness/solve.cpp", ""), ("harness/mem_routes.cpp", "-DSLACK=8")]),
    "R07": dict(sources=HIST + [("harness/solver_tu_graph.cpp", f"-DSOLVER={x}") for x in COMPLETE + BOUNDED] + [("harness/gsolve.cpp", ""), ("harness/solve.cpp", ""), ("harness/histories.cpp", "")]),
    "R08": dict(sources=AUDIT + [("harness/gsolve.cpp", ""), ("harness/solve.cpp", ""), ("harness/faults.cpp", "-DPROP=8")]),
    "R09": dict(sources=AUDIT + [("harness/gsolve.cpp", ""), ("harness/solve.cpp", ""), ("harness/faults.cpp", "-DPROP=9")]),
    "R10": dict(san="tsan", libs="-pthread", args=["--races"], sources=HIST + [("harness/solver_tu_graph.cpp", f"-DSOLVER={x}") for x in COMPLETE + BOUNDED] + [("harness/gsolve.cpp", ""), ("harness/solve.cpp", ""), ("harness/threads.cpp", "")]),
    "M01": dict(sources=[("harness/grids.cpp", "")]),
    "M03": dict(sources=[("harness/graphs.cpp", "")]),
    "M04": dict(libs="-pthread", sources=[("harness/convert.cpp", "")], also=[dict(san="tsan", args=["--races"], sources=[("harness/convert.cpp", "-DTHREADS_ONLY -DPREFIX='\"tsan-\"'")], share=0.3)]),
    "C01": dict(sources=[("harness/heaps.cpp", "")]),
    "C02": dict(sources=[("harness/adaptors.cpp", "")]),
    "C03": dict(opt="-O1", sources=[("harness/existence.cpp", "")]),
    "M02": dict(sources=[("harness/shapes.cpp", "")]),
    "A01": dict(sources=[("harness/pools.cpp", "-DPROP=1")]),
    "A02": dict(sources=[("harness/pools.cpp", "-DPROP=2")]),
    "A03": dict(sources=[("harness/pools.cpp", "-DPROP=3")]),
    "A04": dict(sources=[("harness/pools.cpp", "-DPROP=4")]),
    "U01": dict(sources=[("harness/utils.cpp", "-DPROP=1")]),
    "U02": dict(flags="-fconstexpr-steps=200000000", sources=[("harness/utils.cpp", "-DPROP=2")]),
    "U03": dict(sources=[("harness/utils.cpp", "-DPROP=3")]),
}
