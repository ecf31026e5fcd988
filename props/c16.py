"""C16: synthetic networks are well-formed for any randomness."""
from props.c12 import drive
from sim import synth as Y

RUNS = {"quick": 700, "thorough": 60000}
GROUP = 1
LEVEL = "exploration"
RULE = ("Each run generates 2-6 synthetic contact sequences from 1-3 generated populations (groups, activation and "
        "contact times, ways to choose partners, lists in any order) while the simulator decides every random draw "
        "(plain, tied, zero, tiny, huge, constant; first, last, sticky, rotating, least probable partner), stops "
        "the generation at a draw with an allocation failure, repeats it, or advances two generations in turns at "
        "every draw; every contact is checked against the rules of the process, populations with regular times "
        "against the exact plan, and networks built from the contacts event by event.")
REAL = ["flowstab.synth_temp_network", "flowstab.temporal_network (construction)", "SciPy distributions", "pandas"]
STUB = ["global random numbers of NumPy and SciPy", "thread scheduling (turns at random draws)", "clocks", "entropy"]
ASSUMPTIONS = ["no stream of draws withholds every other value for ever (at most 40 equal choices in a row, at "
               "most 150 extreme draws)",
               "time-dependent probabilities between groups are normalised or zero"]


def run(ctx):
    w, f = ctx.w, ctx.f
    sims = [Y.gen_sim(w) for _ in range(1 + w.choose(3))]
    ops = Y.gen_ops(f, len(sims), 2 + f.choose(5))
    ctx.info = {"sims": [(s["n"], s["method"], s["kind"]) for s in sims], "ops": [o["how"] for o in ops]}
    drive(ctx, Y.history, (sims, ops), len(ops), 0.0)
