"""C13: a guided analysis always shows results of its current settings."""
from sim import guided as G
from sim.kernel import Fault
from props.c12 import drive

RUNS = {"quick": 1400, "thorough": 50000}
GROUP = 1
CONFIGS = ["mkl", "cython"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run is a history of 10-50 operations on a guided analysis (changes of network, window, time scales, "
        "direction and approximation, repeated steps, allocation failures and interrupts inside steps); whenever "
        "the analysis is at its end, its integrals are compared with a dense computation for the current "
        "settings and its partitions with those of the seeds used.")
REAL = ["flowstab.flow_stability", "flowstab.state_tracking", "flowstab.temporal_network",
        "flowstab.network_clustering", "NumPy, SciPy, pandas"]
STUB = ["clocks", "entropy"]
ASSUMPTIONS = ["allocation failures and interrupts strike at numerical library calls",
               "time windows contain at least one event interval",
               "the network is only used by this analysis, with one kind of matrices"]


def run(ctx):
    w, f = ctx.w, ctx.f
    case = G.gen_case(w)
    ops = G.gen_ops(f, case, 10 + f.choose(40), f.choose(2, 0.7))
    start = G.gen_start(f, case)
    extra = []
    if f.flag(0.2):
        start, ops, at = G.gen_redo(f, case)
        extra = [Fault("point", 2 * at, ["mem", "intr"][f.choose(2)], f.choose([8, 30, 60][f.choose(3)]))]
    ctx.info = {"ops": [o["op"] for o in ops][:8], "n": len(ops), "redo": bool(extra)}
    drive(ctx, G.analysis, (case, start, ops, False, True, False), len(ops), 0.5, extra=extra)
