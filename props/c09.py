"""C09: parallel Louvain returns consistent results of the given covariance."""
from sim import libpar as L
from props.c08 import drive

RUNS = {"quick": 700, "thorough": 25000}
GROUP = 1
CONFIGS = ["mkl", "cython"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run makes 1-3 parallel clusterings (dense or sparse, symmetric or not, with given or default "
        "covariance and starting partition) in one process under seeded worker schedules, random seeds and, in a "
        "third of the runs, faults; every returned triple is checked against the covariance and by a single run "
        "with the returned seed.")
REAL = ["flowstab.parallel_clustering", "flowstab.network_clustering", "flowstab.sparse_stoch_mat",
        "compiled extensions", "NumPy, SciPy"]
STUB = ["multiprocessing.Pool (simulated processes)", "clocks", "entropy"]
ASSUMPTIONS = ["fork start method",
               "a partition is only compared with that of a single run if rounding errors cannot decide it"]


def run(ctx):
    w, f = ctx.w, ctx.f
    ops = L.gen_ops(w, f, [L.gen_clust], 1 + f.choose(3))
    ctx.info = {"ops": [(o["kind"], o["S"], o["repeat"], o["nproc"]) for o in ops]}
    drive(ctx, ops, p_fault=0.33)
