"""Pieces shared by the scenarios: swarm knobs, fault plans, staged jobs."""
import os
import shutil

from . import oracles as O
from . import workloads as W
from .choices import Choices
from .kernel import Fault, Job
from .runner import Violation

# (fault kind, weight) by class of operation; the plainest first
KINDS = {
    "write": [("killjob", 3), ("power", 3), ("enospc", 3), ("eio", 2), ("kill", 1)],
    "create": [("killjob", 2), ("enospc", 2), ("emfile", 1), ("eio", 1), ("power", 1), ("kill", 1)],
    "open": [("eio", 2), ("emfile", 2), ("killjob", 1), ("kill", 1)],
    "fsync": [("killjob", 1), ("eio", 2), ("power", 2), ("enospc", 1)],
    "replace": [("killjob", 3), ("power", 3), ("eio", 1), ("kill", 1)],
    "unlink": [("killjob", 1), ("power", 1)],
    "list": [("killjob", 1), ("eio", 1)],
    "stat": [("killjob", 1), ("kill", 1), ("stall", 1)],
    "read": [("eio", 3), ("killjob", 1), ("kill", 1)],
    "take": [("kill", 2), ("killjob", 1), ("stall", 2), ("mem", 3)],
    "result": [("kill", 2), ("killjob", 1), ("power", 1), ("stall", 1)],
    "any": [("mem", 6), ("intr", 2), ("killjob", 2), ("power", 2), ("kill", 2), ("clock", 1), ("stall", 1)],
}
CLASSES = ["any", "write", "replace", "create", "open", "fsync", "read", "stat", "list",
           "unlink", "take", "result"]
WEIGHTS = [8, 5, 3, 3, 2, 2, 3, 1, 1, 1, 2, 1]


def plan(f, counts, most=2, kinds=None, classes=None, deep=(3, 12, 40, 120)):
    """Draw faults for one attempt; counts are those of an undisturbed run."""
    out = []
    n = 1 + f.choose(most, 0.6)
    for _ in range(n):
        ok = [c for c in (classes or CLASSES) if counts.get(c, 0) > 0]
        if not ok:
            break
        c = ok[f.weighted([WEIGHTS[CLASSES.index(c)] for c in ok])]
        idx = f.choose(counts[c] + counts[c] // 4 + 1)
        opts = [(k, w) for k, w in KINDS[c] if kinds is None or k in kinds]
        if not opts:
            continue
        kind = opts[f.weighted([w for _, w in opts])][0]
        if kind in ("mem", "intr"):
            par = f.choose(deep[f.choose(len(deep))])
        elif kind in ("kill", "killjob", "power"):
            par = f.choose(3) + 3 * f.choose(60)
        elif kind == "enospc":
            par = [0, 1, 3, 30][f.choose(4)]
        else:
            par = f.choose(16)
        out.append(Fault(c, idx, kind, par))
    return out


def knobs(k, f):
    """Swarm: each run has its own scheduling style, directory order, buffering."""
    k.p_stay = [0.9, 0.5, 0.2, 0.99, 0.0][f.choose(5)]
    k.list_mode = [0, 1, 2 + f.choose(50)][f.choose(3)]
    k.bufsize = [8192, 512, 100000, 64][f.choose(4, 0.5)]
    k.short_writes = [0, 100, 4096][f.choose(3, 0.7)]


def quiet(ctx, root=None, seed=1):
    """A kernel without faults and switches whose decisions are all 0."""
    return ctx.kernel(seed, root, Choices(recorded={}))


def job(name, module, argv):
    return Job(name, module=module, argv=argv)


def dirs(root, *names):
    for n in names:
        os.makedirs(os.path.join(root, n), exist_ok=True)


def copy_dir(src, dst):
    shutil.copytree(src, dst, dirs_exist_ok=True)


def run_clean(ctx, k, jobs, what):
    """Run jobs without faults; they have to end normally."""
    hung = k.run(jobs)
    for j in jobs:
        if hung or j.hung:
            raise Violation("hang", f"{what}: job {j.name} without faults never ends")
        if not j.ok:
            raise Violation("fails", f"{what}: job {j.name} without faults ends with status "
                                     f"{j.status}: {(j.payload or '')[-600:]}")


def load_all(d, what, suffixes=None):
    """Content of every visible file; a file that cannot be loaded is a violation."""
    out = {}
    for n in O.listing(d):
        try:
            out[n] = O.read_result(os.path.join(d, n))
        except Exception as e:
            raise Violation("unreadable", f"{what}: {n} cannot be loaded: {type(e).__name__}: {e}")
    return out


def same_subset(got, ref, what, rtol=1e-6):
    """Every file in got has to be one of ref, with the same content."""
    for n in sorted(got):
        if n not in ref:
            raise Violation("extra", f"{what}: {n} is not a file of an undisturbed run")
        d = O.differ(got[n], ref[n], rtol)
        if d:
            raise Violation("content", f"{what}: {n} differs from an undisturbed run: {d}")


def same_dir(got, ref, what, rtol=1e-6):
    missing = sorted(set(ref) - set(got))
    if missing:
        raise Violation("missing", f"{what}: missing {missing[:4]} ({len(missing)} of {len(ref)})")
    same_subset(got, ref, what, rtol)


def attempts(ctx, k, f, make_jobs, counts, check, most=3, nfaults=2):
    """Faulty attempts; `check(i)` judges the directory after each."""
    n = 1 + f.choose(most, 0.5)
    for i in range(n):
        k.faults = plan(f, counts, nfaults)
        k.counts = {}
        k.full_disk = 0
        jobs = make_jobs(i)
        drain = not f.flag(0.3)
        k.run(jobs, drain)
        for j in jobs:
            if j.hung:
                ctx.probe("hung_after_fault")
            if j.killed:
                ctx.probe("killed")
            elif j.status:
                ctx.probe("failed_with_error")
        k.faults = []
        k.full_disk = 0
        check(i)
    # nothing survives into the undisturbed run
    k.faults = []
    k.stall.clear()


def stop_leftovers(k):
    k.kill_all()


# ------------------------------------------------------------ staged references

def bytes_of(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def put_files(d, files):
    os.makedirs(d, exist_ok=True)
    for n, data in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(data)


def slices(events, o):
    times = sorted({e[2] for e in events} | {e[3] for e in events})
    b = W.slice_bounds(times, o)
    return list(zip(b[:-1], b[1:]))


def cached(ctx, key, make):
    key = repr(key)
    if key not in ctx.cache:
        ctx.cache[key] = make()
    return ctx.cache[key]


def stage1_files(ctx, events, o):
    """Result files (bytes) of an undisturbed first stage."""
    def make():
        k = quiet(ctx)
        dirs(k.root, "s1")
        W.write_net(events, o, k.root)
        run_clean(ctx, k, [job("s1", W.S1, W.argv_stage1(o))], "first stage")
        out = bytes_of(os.path.join(k.root, "s1"))
        k.close()
        return out
    return cached(ctx, ("stage1", events, sorted(o.items())), make)


def stage2_files(ctx, events, o, p):
    """Result files (bytes) of an undisturbed second stage and its operation counts."""
    def make():
        first = stage1_files(ctx, events, o)
        k = quiet(ctx)
        dirs(k.root, "s2")
        put_files(os.path.join(k.root, "s1"), first)
        run_clean(ctx, k, [job("s2", W.S2, W.argv_stage2(p))], "second stage")
        out = bytes_of(os.path.join(k.root, "s2"))
        counts = dict(k.counts)
        k.close()
        return out, counts
    return cached(ctx, ("stage2", events, sorted(o.items()), sorted(p.items())), make)


def gen_for_stage2(w, small=False):
    """Network, first-stage and second-stage options that fit together."""
    events = W.gen_events(w, *((4, 7) if small else (6, 11)))
    o = W.gen_stage1(w, events)
    o.update(inter=True, skip=[], static=False, flow_int=False)
    o["delta"] = not o["sparse"]
    n = len(slices(events, o))
    if len(o["taus"]) > 1 and w.flag(0.7):
        o["taus"] = o["taus"][:1]
    p = W.gen_stage2(w, o, n)
    return events, o, p, n
