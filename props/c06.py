"""C06: results do not depend on workers, batches, schedules or listing order."""
import os

from sim import clusterings as C
from sim import oracles as O
from sim import scenario as S
from sim import workloads as W
from sim.kernel import Fault
from sim.runner import Violation
from props import c02, c04

RUNS = {"quick": 480, "thorough": 16000}
GROUP = 4
LEVEL = "exploration"
RULE = ("Each run executes one stage on generated inputs with a seeded number of workers, split into jobs "
        "(batches, directions, kinds of matrices; at the same time, one after the other, or in directories of "
        "their own), schedule, directory order, clock, stalls and buffering, and compares the files with those "
        "of a single-process run of a single job; split jobs must not overlap.")
REAL = ["the three scripts", "flowstab.temporal_network", "flowstab.network_clustering",
        "flowstab.sparse_stoch_mat", "compiled extensions", "NumPy, SciPy, pandas"]
STUB = ["multiprocessing.Pool, ProcessPoolExecutor (simulated processes)", "file system calls", "clocks",
        "entropy"]
ASSUMPTIONS = ["fork start method", "no faults other than stalls and clock jumps (see C01-C03 for those)",
               "partitions of the clustering stage may differ by their seeds; each is judged by itself"]


def disturb(k, f):
    """Schedules, clocks and slow workers, but no failure."""
    S.knobs(k, f)
    k.wall0 = [1.7e9, 0.0, 4e9, 1e5][f.choose(4, 0.5)]
    k.faults = []
    for _ in range(f.choose(4)):
        kind = ["stall", "clock"][f.choose(2)]
        cls = ["take", "any", "result"][f.choose(3)]
        k.faults.append(Fault(cls, f.choose([4, 12, 60][f.choose(3)]), kind, f.choose(16)))


def run_split(ctx, k, f, make, n, dirs):
    """Run the jobs of a split; returns the directories that hold their results."""
    mode = f.choose(3) if n > 1 else 0
    where = dirs[:1] * n if mode < 2 else dirs[:n]
    jobs = [make(i, where[i]) for i in range(n)]
    ctx.info["mode"] = ["together", "in turn", "apart"][mode]
    if mode == 1:
        for i in f.shuffled(list(range(n))):
            S.run_clean(ctx, k, [jobs[i]], "split job")
    else:
        S.run_clean(ctx, k, f.shuffled(jobs), "split jobs")
    return sorted(set(where), key=dirs.index), mode


def gather(k, where, load, what):
    got = {}
    for d in where:
        part = load(os.path.join(k.root, d), what)
        both = sorted(set(part) & set(got))
        if both:
            raise Violation("twice", f"{what}: {both[:3]} treated by more than one of the split jobs")
        got.update(part)
    return got


def run(ctx):
    f, w = ctx.f, ctx.w
    stage = 1 + w.weighted([5, 4, 2])
    k = ctx.kernel(seed=1 + f.choose(1000))
    disturb(k, f)
    ncpu = [1, 2, 3, 4, 7][f.choose(5)]
    dirs = [f"o{i}" for i in range(8)]
    S.dirs(k.root, *dirs)
    ctx.info = {"stage": stage, "ncpu": ncpu}
    if stage == 1:
        events = W.gen_events(w)
        o = W.gen_stage1(w, events)
        if w.flag(0.3):
            o["num_slices"], o["slice_length"] = 6 + w.choose(3), None
        files = S.stage1_files(ctx, events, o)
        ref = S.cached(ctx, ("r1", events, sorted(o.items())), lambda: c04.loaded(ctx, files))
        lost = W.names_stage1(o, len(S.slices(events, o))) - set(ref)
        if lost:
            raise Violation("missing", f"undisturbed run leaves no {sorted(lost)[:4]}")
        n = 1 + f.choose(7)
        ctx.info["split"] = n
        W.write_net(events, o, k.root)
        where, mode = run_split(ctx, k, f, lambda i, d: S.job(
            f"b{i}", W.S1, W.argv_stage1(o, savedir=d, ncpu=ncpu, batch=(i, n))), n, dirs)
        S.same_dir(gather(k, where, S.load_all, f"{n} batches"), ref, f"{n} batches with {ncpu} workers")
        return
    if stage == 2:
        events, o, p, n = S.gen_for_stage2(w)
        ref, _, _ = c02.reference(ctx, events, o, p, n)
        S.put_files(os.path.join(k.root, "s1"), S.stage1_files(ctx, events, o))
        ps = [p]
        if p["direction"] == "both" and p["only"] in ("", "--only_from_start_and_finish", "--only_one_interval") \
                and f.flag(0.5):
            ps = [dict(q, direction=d) for q in ps for d in ("forward", "backward")]
        if len(p["kinds"]) == 2 and f.flag(0.5):
            ps = [dict(q, kinds=[a]) for q in ps for a in ("expm", "lin")]
        ctx.info["split"] = len(ps)
        where, mode = run_split(ctx, k, f, lambda i, d: S.job(
            f"b{i}", W.S2, W.argv_stage2(ps[i], savedir=d, ncpu=ncpu)), len(ps), dirs)
        S.same_dir(gather(k, where, c02.results, "split"), ref, f"{len(ps)} jobs with {ncpu} workers")
        return
    events, o, p, n = S.gen_for_stage2(w, small=True)
    p.update(intermediate=False, verbose=False)
    q = W.gen_stage3(w, o["name"])
    files, _ = S.stage2_files(ctx, events, o, p)
    names = sorted(m for m in files)[:6]
    raws = C.raw_integrals({m: files[m] for m in names})
    S.put_files(os.path.join(k.root, "s2"), {m: files[m] for m in names})
    q["nproc_clust"] = 1 + f.choose(4)
    S.run_clean(ctx, k, [S.job("c", W.S3, W.argv_stage3(q, savedir="o0", nproc=ncpu))], "clusterings")
    d = os.path.join(k.root, "o0")
    got = [m for m in O.listing(d) if not m.startswith("tmpclusters_")]
    if sorted(got) != sorted("clusters_" + m for m in raws):
        raise Violation("missing", f"results {sorted(got)} for integrals {sorted(raws)}")
    for m in got:
        C.result_ok(os.path.join(d, m), raws[m[len("clusters_"):]], q, m, ctx.cache.setdefault("seeds", {}),
                    ctx.probe)
