"""C12: the guided analysis allows exactly the steps whose inputs are ready."""
from sim import guided as G
from sim import session as Z
from sim.kernel import Fault, Job
from sim.runner import Violation

RUNS = {"quick": 2000, "thorough": 60000}
GROUP = 1
LEVEL = "exploration"
RULE = ("Each run is a history of 6-30 operations on a guided analysis (setting valid, invalid or empty inputs, "
        "steps in and out of order, allocation failures and interrupts inside steps) or on two instances of a "
        "generated state-tracked class; after every operation the state, the missing inputs and the next step "
        "are compared with a small reference model, and at the end the announced steps are followed to the end.")
REAL = ["flowstab.flow_stability", "flowstab.state_tracking", "flowstab.temporal_network",
        "flowstab.network_clustering", "NumPy, SciPy, pandas"]
STUB = ["clocks", "entropy"]
ASSUMPTIONS = ["allocation failures and interrupts strike at numerical library calls",
               "time windows contain at least one event interval"]


def drive(ctx, fn, args, nops, p_fault, most=4, depth=(2, 6, 20, 60), extra=()):
    """One history in one simulated process, with compute faults."""
    f = ctx.f
    k = ctx.kernel(seed=1 + f.choose(1000))
    marks = {"n": 0}

    def faults():
        n = sum(k.fired.values())
        new, marks["n"] = n > marks["n"], n
        return new
    k.on_point["faults"] = faults
    if extra:
        k.faults = list(extra)
    elif f.flag(p_fault):
        # operations and questions about faults alternate
        k.faults = [Fault("point", 2 * f.choose(nops), ["mem", "intr", "rand"][f.choose(3, 0.5)],
                          f.choose(depth[f.choose(len(depth))])) for _ in range(1 + f.choose(most))]
    j = Job("history", func=Z.guard, args=(fn, *args))
    k.run([j])
    if not j.ok:
        raise Violation("fails", f"history ends with an error: {(j.payload or 'killed')[-900:]}")
    if j.payload[0] == "bad":
        raise Violation(j.payload[1], j.payload[2])
    for name, v in j.payload[1].items():
        ctx.probe(name, v)
    ctx.probe("nontrivial")


def run(ctx):
    w, f = ctx.w, ctx.f
    if w.flag(0.25):
        toy = G.gen_toy(w)
        ops = G.gen_toy_ops(f, toy, 8 + f.choose(40))
        ctx.info = {"toy": toy["n"], "ops": len(ops)}
        return drive(ctx, G.toys, (toy, ops), 1, 0.0)
    case = G.gen_case(w)
    ops = G.gen_ops(f, case, 6 + f.choose(24), 1 + f.choose(3))
    start = G.gen_start(f, case)
    extra = []
    if f.flag(0.2):
        start, ops, at = G.gen_redo(f, case)
        extra = [Fault("point", 2 * at, ["mem", "intr"][f.choose(2)], f.choose([8, 30, 60][f.choose(3)]))]
    ctx.info = {"ops": [o["op"] for o in ops][:8], "n": len(ops), "redo": bool(extra)}
    drive(ctx, G.analysis, (case, start, ops, True, False, f.flag(0.5)), len(ops), 0.5, extra=extra)
