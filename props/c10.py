"""C10: parallel variation of information covers the right pairs once."""
from sim import libpar as L
from props.c08 import drive

RUNS = {"quick": 1500, "thorough": 50000}
GROUP = 1
CONFIGS = ["cython"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run makes 2-5 parallel variation-of-information computations, and averages, of generated partitions with any sample "
        "size in one process, under seeded worker schedules, random draws and, in a third of the runs, faults; the "
        "returned values are compared with a direct computation of all pairs.")
REAL = ["flowstab.parallel_clustering", "flowstab.network_clustering (norm_var_information)",
        "compiled extensions", "NumPy"]
STUB = ["multiprocessing.Pool (simulated processes)", "clocks", "entropy, random draws"]
ASSUMPTIONS = ["fork start method"]


def run(ctx):
    w, f = ctx.w, ctx.f
    ops = L.gen_ops(w, f, [L.gen_nvi], 2 + f.choose(4))
    ctx.info = {"ops": [(len(o["parts"]), o["samples"], o["nproc"]) for o in ops]}
    drive(ctx, ops, p_fault=0.33)
