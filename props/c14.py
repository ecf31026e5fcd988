"""C14: interrupted or repeated network computations never leave wrong matrices."""
from props.c12 import drive
from sim import netops as N

RUNS = {"quick": 1800, "thorough": 50000}
GROUP = 1
CONFIGS = ["mkl", "both", "stochastic"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run is a history of 6-26 computations on one temporal network (with or without event durations): "
        "Laplacians of generated windows, inter-event matrices, their linear approximation, products in both "
        "directions, static adjacency, flow integrals, saves and restarts from the last save, with allocation failures and interrupts inside them in "
        "most runs; after every operation everything the network shows is compared with dense matrices computed "
        "from the event list.")
REAL = ["flowstab.temporal_network", "flowstab.network_clustering", "flowstab.sparse_stoch_mat",
        "compiled extensions", "NumPy, SciPy, pandas"]
STUB = ["clocks", "entropy"]
ASSUMPTIONS = ["allocation failures and interrupts strike at numerical library calls",
               "time windows contain at least one event interval",
               "events have positive durations; overlapping events of a pair are merged on construction"]


def run(ctx):
    case = N.gen_case(ctx.w)
    ops = N.gen_ops(ctx.f, case, 6 + ctx.f.choose(20))
    ctx.info = {"inst": case["inst"], "ops": [o["op"] for o in ops][:10], "n": len(ops)}
    drive(ctx, N.history, (case, ops), len(ops) + 2, 0.75, 5, (2, 6, 20, 60, 200))
