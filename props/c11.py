"""C11: a failing worker is reported and leaves nothing behind."""
from sim import libpar as L
from props.c08 import drive

RUNS = {"quick": 1000, "thorough": 30000}
GROUP = 1
LEVEL = "exploration"
RULE = ("Each run makes 3-7 parallel computations of all kinds in one process, often with the same shapes and other "
        "numbers, with requests that make workers raise and with allocation failures, interrupts, kills and stalls "
        "at seeded points; a call that returns has to return the full and right result, a failing worker has to "
        "make it raise, and the calls after it have to be right.")
REAL = ["flowstab.parallel_expm", "flowstab.parallel_clustering", "flowstab.network_clustering",
        "flowstab.sparse_stoch_mat", "compiled extensions", "NumPy, SciPy"]
STUB = ["multiprocessing.Pool (simulated processes)", "clocks", "entropy"]
ASSUMPTIONS = ["fork start method", "a killed worker may leave the caller waiting"]


def run(ctx):
    w, f = ctx.w, ctx.f
    ops = L.gen_ops(w, f, [L.gen_expm, L.gen_clust, L.gen_nvi, L.gen_expm, L.gen_clust, L.gen_bad], 3 + f.choose(5))
    ctx.info = {"ops": [(o["op"], o["nproc"], bool(o.get("bad"))) for o in ops]}
    drive(ctx, ops, p_fault=0.85, most=3, kinds=("mem", "mem", "intr", "kill", "stall"))
