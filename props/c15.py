"""C15: Louvain gives a valid, reproducible, non-worsening partition."""
from props.c12 import drive
from sim import louvain as V

RUNS = {"quick": 2400, "thorough": 100000}
GROUP = 1
CONFIGS = ["mkl", "cython"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run is a history of 3-12 Louvain optimisations of 1-3 generated covariances (dense, sparse, free or "
        "from static graphs) from generated starting partitions, with random streams chosen by the scenario "
        "(seeded, sorted, reversed, rotating, ...), repeated, continued, interleaved at every draw of random "
        "numbers and interrupted by allocation failures; every partition is compared with the covariance that is "
        "computed independently, with the start and with equal requests.")
REAL = ["flowstab.network_clustering", "flowstab.sparse_stoch_mat", "compiled extensions", "NumPy, SciPy"]
STUB = ["random stream of the clustering (rnd_state argument)", "thread scheduling (turns at random draws)",
        "clocks", "entropy"]
ASSUMPTIONS = ["allocation failures and interrupts strike at numerical library calls",
               "sparse clusterings are given stochastic matrices and probability vectors",
               "covariances below the documented zero threshold are treated as zero",
               "optimality is judged only where moves without any gain cannot occur"]


def run(ctx):
    w, f = ctx.w, ctx.f
    ps = [V.gen_problem(w) for _ in range(1 + w.choose(3))]
    ops = V.gen_ops(f, ps, 3 + f.choose(10))
    ctx.info = {"problems": [(p["kind"], V.size(p)) for p in ps], "ops": [o["op"] for o in ops]}
    drive(ctx, V.history, (ps, ops), len(ops), 0.4, 3, (2, 6, 20, 60, 200))
