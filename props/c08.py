"""C08: parallel matrix exponentials equal the serial ones."""
from sim import libpar as L
from sim import scenario as S
from sim import session as Z
from sim.kernel import Job
from sim.runner import Violation

RUNS = {"quick": 900, "thorough": 30000}
GROUP = 1
CONFIGS = ["mkl", "stochastic"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run makes 2-5 parallel matrix exponentials of generated Laplacians with several components in one "
        "process, with seeded schedules of their workers and, in half of the runs, failing allocations, "
        "interrupts, kills and stalls in workers or the caller; every returned matrix is compared with the dense "
        "exponential.")
REAL = ["flowstab.parallel_expm", "flowstab.temporal_network (sparse_lapl_expm, compute_subspace_expm)",
        "flowstab.sparse_stoch_mat", "NumPy, SciPy"]
STUB = ["multiprocessing.Pool (simulated processes)", "clocks", "entropy"]
ASSUMPTIONS = ["fork start method", "the subspace variant is given csc matrices, as documented",
               "a killed worker may leave the caller waiting: it must not return a wrong matrix"]


def drive(ctx, ops, counts=None, p_fault=0.5, most=2, kinds=("mem", "kill", "stall", "intr", "clock")):
    """One session of calls in one simulated process."""
    f = ctx.f
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    marks = {"n": 0}

    def faults():
        n = sum(k.fired.values())
        new, marks["n"] = n > marks["n"], n
        return new
    k.on_point["faults"] = faults
    if f.flag(p_fault):
        n = sum(o.get("nproc", 1) for o in ops)
        k.faults = S.plan(f, counts or {"any": 7 * n, "take": 3 * n, "result": 2 * n}, most, kinds=kinds,
                          classes=["any", "take", "result"], deep=(2, 5, 15, 60))
    j = Job("session", func=Z.guard, args=(L.session, ops))
    k.run([j])
    if j.ok:
        if j.payload[0] == "bad":
            raise Violation(j.payload[1], j.payload[2])
        for name, v in j.payload[1].items():
            ctx.probe(name, v)
        if j.payload[1].get("judged"):
            ctx.probe("nontrivial")
    elif j.hung:
        ctx.probe("hung_after_fault")
        if not k.fired:
            raise Violation("hang", "a call never returns although there was no fault")
    elif j.status is not None:
        if not any(k.fired.get(x) for x in ("mem", "intr")):
            raise Violation("fails", f"session ends with an error: {(j.payload or '')[-500:]}")
    return k


def run(ctx):
    w, f = ctx.w, ctx.f
    if f.flag(0.03):
        ops = [L.gen_big(w, f)] + [L.gen_expm(w, f)]
    else:
        ops = L.gen_ops(w, f, [L.gen_expm], 2 + f.choose(4))
    ctx.info = {"ops": [(o["op"], o["nproc"]) for o in ops]}
    drive(ctx, ops)
