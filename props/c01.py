"""C01: transition-matrix jobs converge after any crash, fault or restart."""
import os

from sim import oracles as O
from sim import scenario as S
from sim import workloads as W
from sim.runner import Violation

RUNS = {"quick": 320, "thorough": 9000}
GROUP = 4
LEVEL = "exploration"
RULE = ("Each run generates a contact sequence and an option set for run_laplacians_transmats, computes "
        "an undisturbed reference, then makes 1-3 attempts with 1-2 faults each at seeded positions, and "
        "one undisturbed run; every visible file is compared with the reference after every attempt.")
REAL = ["flowstab.scripts.run_laplacians_transmats", "flowstab.temporal_network",
        "flowstab.sparse_stoch_mat", "flowstab.helpers", "compiled extensions", "NumPy, SciPy, pandas"]
STUB = ["multiprocessing.Pool (simulated processes)", "file system calls (kernel with power-loss model)",
        "clocks", "entropy"]
ASSUMPTIONS = ["fork start method", "rename is atomic; data is durable only after fsync",
               "allocation failures and interrupts strike at numerical library calls"]


def reference(ctx, events, o):
    key = "c01" + repr((events, sorted(o.items())))
    ref = ctx.cache.get(key)
    if ref is None:
        k = S.quiet(ctx)
        S.dirs(k.root, "s1")
        W.write_net(events, o, k.root)
        j = S.job("ref", W.S1, W.argv_stage1(o))
        S.run_clean(ctx, k, [j], "reference")
        files = S.load_all(os.path.join(k.root, "s1"), "reference")
        nslices = len(slices(events, o))
        want = W.names_stage1(o, nslices)
        if want - set(files):
            raise Violation("missing", f"undisturbed run leaves no {sorted(want - set(files))[:4]}")
        ref = ctx.cache[key] = (files, dict(k.counts))
        k.close()
    return ref


def slices(events, o):
    times = sorted({e[2] for e in events} | {e[3] for e in events})
    b = W.slice_bounds(times, o)
    return list(zip(b[:-1], b[1:]))


def run(ctx):
    events = W.gen_events(ctx.w)
    o = W.gen_stage1(ctx.w, events)
    f = ctx.f
    ref, counts = reference(ctx, events, o)
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "s1")
    W.write_net(events, o, k.root)
    ncpu = 1 + f.choose(3)
    s1 = os.path.join(k.root, "s1")
    split = 1 + f.choose(3, 0.6)

    def part():
        """An attempt may have asked for a part of the job only."""
        if not f.flag(0.25):
            return o
        ctx.probe("partial_job")
        q = dict(o)
        if len(q["taus"]) > 1 and f.flag(0.5):
            q["taus"] = [t for t in q["taus"] if f.flag(0.5)] or q["taus"][:1]
        if q["expm"] and q["lin"] and f.flag(0.4):
            q[["expm", "lin"][f.choose(2)]] = False
        if q["inter"] and q["slice_trans"] and f.flag(0.4):
            q[["inter", "slice_trans"][f.choose(2)]] = False
        if f.flag(0.3):
            q["static"] = False
        return q

    def jobs(i):
        q = part()
        if split == 1:
            return [S.job(f"a{i}", W.S1, W.argv_stage1(q, ncpu=ncpu))]
        return [S.job(f"a{i}b{b}", W.S1, W.argv_stage1(q, ncpu=ncpu, batch=(b, split)))
                for b in range(split)]

    def look(i):
        S.same_subset(S.load_all(s1, f"attempt {i + 1}"), ref, f"after faulty attempt {i + 1}")

    ctx.info = {"files": len(ref), "ncpu": ncpu, "split": split,
                "options": [n for n in ("expm", "lin", "slice_trans", "inter", "sparse", "delta", "dense",
                                        "comp_slice", "comp_inter", "flow_int", "static", "from_net") if o[n]]}
    S.attempts(ctx, k, f, jobs, counts, look)
    # the workers of a killed job may still be there while the job is run again
    S.run_clean(ctx, k, [S.job("final", W.S1, W.argv_stage1(o, ncpu=1 + f.choose(3)))], "rerun")
    S.same_dir(S.load_all(s1, "undisturbed rerun"), ref, "after an undisturbed rerun")
