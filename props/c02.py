"""C02: covariance-integral jobs resume to the result of an undisturbed run."""
import os

from sim import oracles as O
from sim import scenario as S
from sim import workloads as W
from sim.runner import Violation

RUNS = {"quick": 480, "thorough": 12000}
GROUP = 4
LEVEL = "exploration"
RULE = ("Each run takes the files of an undisturbed first stage of a generated contact sequence, generates "
        "options for run_cov_integrals, computes an undisturbed reference, makes 1-3 attempts with 1-2 "
        "faults each at seeded positions (or starts from a random subset of the reference's files) and one "
        "undisturbed run; every visible file is compared with the reference after every attempt.")
REAL = ["flowstab.scripts.run_cov_integrals", "flowstab.temporal_network",
        "flowstab.sparse_stoch_mat", "flowstab.helpers", "compiled extensions", "NumPy, SciPy, pandas"]
STUB = ["multiprocessing.Pool (simulated processes)", "file system calls (kernel with power-loss model)",
        "clocks", "entropy"]
ASSUMPTIONS = ["fork start method", "rename is atomic; data is durable only after fsync",
               "allocation failures and interrupts strike at numerical library calls",
               "waiting times stay distinct in the file names"]


def results(d, what):
    """Integrals; intermediate steps only have to be loadable."""
    got = S.load_all(d, what)
    return {n: v for n, v in got.items() if "temp_integration" not in n}


def reference(ctx, events, o, p, n):
    files, counts = S.stage2_files(ctx, events, o, p)

    def make():
        root = ctx.root()
        S.put_files(root, files)
        ref = results(root, "reference")
        grid = W.grid_stage2(p, n)
        for tau in o["taus"]:
            for kind in p["kinds"]:
                for a, b in W.pairs_stage2(p, grid):
                    name = f"{o['name']}_tau_w{tau:.3e}_PT_{'lin_' if kind == 'lin' else ''}{a:06d}_to_{b:06d}.pickle"
                    if name not in ref and not empty(events, o, a, b):
                        raise Violation("missing", f"undisturbed run leaves no {name}")
        return ref
    return S.cached(ctx, ("c02", events, sorted(o.items()), sorted(p.items())), make), counts, files


def empty(events, o, a, b):
    """Whether the window between two grid points has no duration (then nothing is saved)."""
    net = O.DenseNet(events)
    sl = S.slices(events, o)
    lo, hi = min(a, b), max(a, b)
    return all(net.floor(sl[k][0]) == net.floor(sl[k][1]) for k in range(lo, min(hi, len(sl))))


def run(ctx):
    f = ctx.f
    events, o, p, n = S.gen_for_stage2(ctx.w)
    ref, counts, ref_bytes = reference(ctx, events, o, p, n)
    first = S.stage1_files(ctx, events, o)
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "s2")
    S.put_files(os.path.join(k.root, "s1"), first)
    s2 = os.path.join(k.root, "s2")
    ncpu = 1 + f.choose(3)
    p2 = dict(p)
    if f.flag(0.25):
        p2["intermediate"] = not p["intermediate"]   # attempts may or may not keep steps
    if f.flag(0.3):
        # what interrupted attempts left behind: any subset
        keep = [m for m in sorted(ref_bytes) if f.flag(0.5)]
        S.put_files(s2, {m: ref_bytes[m] for m in keep})
        ctx.probe("start_from_subset")
    if f.flag(0.3):
        # slice products are optional for a restart
        for m in sorted(first):
            if "trans_mat" in m and "inter_trans_mat" not in m and f.flag(0.5):
                os.unlink(os.path.join(k.root, "s1", m))

    extra = {}
    if p["kinds"] != ["expm", "lin"] and o["expm"] and o["lin"] and f.flag(0.3):
        # integrals of the other kind, asked for by another job
        more, _ = S.stage2_files(ctx, events, o, dict(p, kinds=["expm", "lin"]))
        extra = {m: b for m, b in sorted(more.items())
                 if m not in ref_bytes and f.flag(0.7)}
        S.put_files(s2, extra)
        ctx.probe("other_kind_there")

    def part(i):
        """An attempt may have asked for a part of the job only."""
        if not f.flag(0.3):
            return p2
        ctx.probe("partial_job")
        q = dict(p2)
        if len(q["kinds"]) == 2 and f.flag(0.5):
            q["kinds"] = [q["kinds"][f.choose(2)]]
        if q["only"] in ("", "--only_from_start_and_finish", "--only_one_interval"):
            if q["direction"] == "both" and f.flag(0.5):
                q["direction"] = ["forward", "backward"][f.choose(2)]
            if not q["only"] and f.flag(0.5):
                q["only"] = ["--only_one_interval", "--only_from_start_and_finish"][f.choose(2)]
        return q

    def jobs(i):
        return [S.job(f"a{i}", W.S2, W.argv_stage2(part(i), ncpu=ncpu))]

    def others(got):
        """Without what belongs to the other job, which has to be as it was."""
        now = S.bytes_of(s2)
        for m, b in extra.items():
            if now.get(m) != b:
                raise Violation("foreign", f"{m} of another job {'has changed' if m in now else 'is gone'}")
        return {m: v for m, v in got.items() if m not in extra}

    def look(i):
        S.same_subset(others(results(s2, f"attempt {i + 1}")), ref, f"after faulty attempt {i + 1}")

    ctx.info = {"files": len(ref), "ncpu": ncpu, "direction": p["direction"], "kinds": p["kinds"],
                "only": p["only"], "intermediate": p2["intermediate"], "slices": n}
    if not f.flag(0.1):
        S.attempts(ctx, k, f, jobs, counts, look)
    S.run_clean(ctx, k, [S.job("final", W.S2, W.argv_stage2(p, ncpu=1 + f.choose(3)))], "rerun")
    S.same_dir(others(results(s2, "undisturbed rerun")), ref, "after an undisturbed rerun")
