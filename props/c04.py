"""C04: a result file that exists under its final name is complete."""
import gzip
import os
import pickle

from sim import clusterings as C
from sim import oracles as O
from sim import scenario as S
from sim import session as Z
from sim import workloads as W
from sim.kernel import Job
from sim.runner import Violation
from props import c05

RUNS = {"quick": 560, "thorough": 16000}
GROUP = 4
LEVEL = "exploration"
RULE = ("Each run executes one of: a stage (sometimes twice at the same time), a stage while the next stage "
        "reads its directory, or a session of library saves; after every file-system step that touches a result "
        "name, and after every power loss, the file has to load and to equal a complete version; every file that a "
        "program opens for reading has to be complete; after an interruption, an undisturbed run leaves all results.")
REAL = ["the three scripts", "flowstab.temporal_network (save*)", "flowstab.helpers",
        "pickle, gzip, NumPy, SciPy, pandas"]
STUB = ["multiprocessing.Pool, ProcessPoolExecutor (simulated processes)",
        "file system calls (kernel with power-loss model)", "clocks", "entropy"]
ASSUMPTIONS = ["rename is atomic; data is durable only after fsync"]


def visible(rel):
    d, n = os.path.split(rel)
    return not n.startswith(".") and n.endswith((".pickle", ".gz")) and d in ("s1", "s2", "s3", "data")


class Watch:
    """Looks at every result file at every step that touches it."""

    def __init__(self, ctx, k, judge, dirs, load=O.read_result):
        self.load = load
        self.ctx, self.k, self.judge, self.dirs = ctx, k, judge, dirs
        self.known = set()
        k.watch = self

    def __call__(self, k, op, args):
        if op == "power":
            for d in self.dirs:
                for n in O.listing(os.path.join(k.root, d)):
                    self.one(f"{d}/{n}", "after a power loss")
            return
        if op == "open" and args[1][0] == "r":
            return self.read(args[0])
        for rel in args[:2]:
            if isinstance(rel, str) and visible(rel) and os.path.isfile(os.path.join(k.root, rel)):
                self.one(rel, f"right after {op}")

    def read(self, rel):
        """Whatever a program reads in these directories is a complete file."""
        path = os.path.join(self.k.root, rel) if isinstance(rel, str) else None
        if path is None or os.path.dirname(rel) not in self.dirs or not os.path.isfile(path):
            return
        with open(path, "rb") as fh:
            data = fh.read()
        if (rel, hash(data)) in self.known:
            return
        self.known.add((rel, hash(data)))
        self.ctx.probe("reads")
        try:
            pickle.loads(gzip.decompress(data) if data[:2] == b"\x1f\x8b" else data)
        except Exception as e:
            raise Violation("read", f"a program reads {rel}, which is incomplete ({len(data)} bytes): "
                                    f"{type(e).__name__}: {e}")

    def one(self, rel, when):
        self.ctx.probe("looked")
        try:
            got = self.load(os.path.join(self.k.root, rel))
        except Exception as e:
            raise Violation("partial", f"{rel} {when} cannot be loaded: {type(e).__name__}: {e}")
        self.judge(rel, got, when)


def run_jobs(ctx, k, f, jobs, counts):
    if f.flag(0.6):
        k.faults = S.plan(f, counts, 2, kinds=("killjob", "kill", "power", "enospc", "eio", "intr", "stall"))
    k.run(jobs)
    k.faults = []
    k.full_disk = 0


def again(ctx, k, f, make, dirname, want):
    """An undisturbed run after an interrupted one does not count leftovers as results."""
    if not k.fired or not f.flag(0.5):
        return
    S.stop_leftovers(k)
    k.stall.clear()
    k.run([make()])
    got = set(O.listing(os.path.join(k.root, dirname)))
    missing = sorted(set(want) - got)
    if missing:
        raise Violation("leftover", f"after an interrupted and an undisturbed run there is no {missing[:3]}")
    ctx.probe("reruns")


def eq_ref(ref):
    def judge(rel, got, when):
        n = os.path.basename(rel)
        if n in ref:
            d = O.differ(got, ref[n], 1e-6)
            if d:
                raise Violation("content", f"{rel} {when} is not the complete result: {d}")
        elif "temp_integration" not in n and "net.pickle" != n:
            raise Violation("extra", f"{rel} {when} is not a result of an undisturbed run")
    return judge


def loaded(ctx, files):
    root = ctx.root()
    S.put_files(root, files)
    return S.load_all(root, "reference")


def run(ctx):
    f, w = ctx.f, ctx.w
    kind = w.weighted([3, 3, 2, 3, 2, 2])
    if kind == 3:
        return library(ctx)
    events, o, p, n = S.gen_for_stage2(w)
    first = S.stage1_files(ctx, events, o)
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "s1", "s2", "s3")
    n2 = 1 + f.choose(2, 0.6)
    ctx.info = {"kind": kind, "twice": n2}
    ncpu = 1 + f.choose(3)
    if kind == 0:
        ref = S.cached(ctx, ("r1", events, sorted(o.items())), lambda: loaded(ctx, first))
        W.write_net(events, o, k.root)
        Watch(ctx, k, eq_ref(ref), ["s1"])
        counts = {"any": 25 * len(ref), "write": 3 * len(ref), "create": len(ref), "replace": len(ref),
                  "fsync": len(ref)}
        run_jobs(ctx, k, f, [S.job(f"j{i}", W.S1, W.argv_stage1(o, ncpu=ncpu)) for i in range(n2)], counts)
        again(ctx, k, f, lambda: S.job("again", W.S1, W.argv_stage1(o, ncpu=ncpu)), "s1", ref)
        return
    second, counts = S.stage2_files(ctx, events, o, p)
    if kind == 1:
        ref = S.cached(ctx, ("r2", events, sorted(o.items()), sorted(p.items())), lambda: loaded(ctx, second))
        S.put_files(os.path.join(k.root, "s1"), first)
        Watch(ctx, k, eq_ref(ref), ["s2"])
        run_jobs(ctx, k, f, [S.job(f"j{i}", W.S2, W.argv_stage2(p, ncpu=ncpu)) for i in range(n2)], counts)
        again(ctx, k, f, lambda: S.job("again", W.S2, W.argv_stage2(p, ncpu=ncpu)), "s2",
              [x for x in ref if "temp_integration" not in x])
        return
    q = W.gen_stage3(w, o["name"])
    raws = C.raw_integrals(second)

    def judge3(rel, got, when):
        n = os.path.basename(rel)
        if n.startswith("clusters_"):
            C.result_ok(os.path.join(k.root, rel), raws[n[len("clusters_"):]], q, f"{rel} {when}",
                        ctx.cache.setdefault("seeds", {}), ctx.probe, nseeds=0)
        elif n.startswith("tmpclusters_"):
            if len(got["sym_seeds"]) != q["repeat"] or len(got["sym_clusters"]) != q["repeat"]:
                raise Violation("content", f"{rel} {when} is incomplete")
        elif rel.startswith("s2/"):
            ref2[0](rel, got, when)
        else:
            raise Violation("extra", f"{rel} {when} is not a result")
    ref2 = [lambda *a: None]
    if kind == 2:
        S.put_files(os.path.join(k.root, "s2"), second)
        Watch(ctx, k, judge3, ["s3"])
        m = len(raws)
        run_jobs(ctx, k, f, [S.job(f"j{i}", W.S3, W.argv_stage3(q, nproc=ncpu)) for i in range(n2)],
                 {"any": 20 * m, "write": 3 * m, "create": m, "replace": m, "fsync": m})
        again(ctx, k, f, lambda: S.job("again", W.S3, W.argv_stage3(q, nproc=ncpu)), "s3",
              ["clusters_" + x for x in raws])
        return
    S.put_files(os.path.join(k.root, "s1"), first)
    ref = S.cached(ctx, ("r2", events, sorted(o.items()), sorted(p.items())), lambda: loaded(ctx, second))
    if kind == 4:
        # the clustering stage is started while the integrals are being written
        ref2[0] = eq_ref(ref)
        Watch(ctx, k, judge3, ["s2", "s3"])
        run_jobs(ctx, k, f, [S.job("writer", W.S2, W.argv_stage2(p, ncpu=ncpu)),
                             S.job("reader", W.S3, W.argv_stage3(q, nproc=ncpu))], counts)
    else:
        # the integral stage is started while the matrices are being written
        for m in os.listdir(os.path.join(k.root, "s1")):
            os.unlink(os.path.join(k.root, "s1", m))
        W.write_net(events, o, k.root)
        ref1 = S.cached(ctx, ("r1", events, sorted(o.items())), lambda: loaded(ctx, first))
        both = dict(ref1, **ref)
        p = dict(p, int_length=None, num_points=None, int_list=W.grid_stage2(p, n))
        p2 = dict(p, only="", direction="both")
        # values of every pair of grid points, whatever the reader has found so far
        allpairs, _ = S.stage2_files(ctx, events, o, p2)
        both.update(S.cached(ctx, ("r2", events, sorted(o.items()), sorted(p2.items())),
                             lambda: loaded(ctx, allpairs)))
        Watch(ctx, k, eq_ref(both), ["s1", "s2"])
        run_jobs(ctx, k, f, [S.job("writer", W.S1, W.argv_stage1(o, ncpu=ncpu)),
                             S.job("reader", W.S2, W.argv_stage2(p, ncpu=ncpu))], counts)


def library(ctx):
    f = ctx.f
    specs = [c05.gen_spec(ctx.w) for _ in range(2)]
    ops = [o for o in c05.gen_ops(f) if o["op"] == "save"] or \
        [dict(c05.gen_ops(f)[0], op="save", kind="net", name="data/n0")]
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "data")
    versions = {}

    def saving(path, data):
        versions.setdefault(path, []).append(pickle.loads(data))

    k.on_point["saving"] = saving
    k.on_point["load_fault"] = lambda: True       # calls are judged by C05

    def judge(rel, got, when):
        for kind, want, tol in versions.get(rel, []):
            if kind == "net":
                want = {a: b for a, b in want.items() if not a.startswith("delta")}
                got = {a: b for a, b in got.items() if not a.startswith("delta")}
            if O.differ(got, want, tol, tol) is None:
                return
        raise Violation("mixture", f"{rel} {when} is none of the versions saved")

    def load(path):
        rel = os.path.relpath(path, k.root)
        if rel not in versions:
            return None
        return Z.do_load(versions[rel][0][0], path)[1]
    Watch(ctx, k, judge, ["data"], load)
    ctx.info = {"kind": "library", "ops": len(ops)}
    m = len(ops)
    jobs = [Job(f"session{i}", func=Z.guard, args=(Z.saves, specs, f.shuffled(ops)))
            for i in range(1 + f.choose(2, 0.5))]
    if len(jobs) == 2:
        # two writers: neither may judge the files by its own record only
        jobs = [Job(j.name, func=Z.guard, args=(only_save, specs, j.args[2])) for j in jobs]
    run_jobs(ctx, k, f, jobs, {"any": 8 * m, "write": 3 * m, "create": m, "replace": m, "fsync": m})
    for j in jobs:
        if j.ok and j.payload[0] == "bad":
            raise Violation(j.payload[1], j.payload[2])


def only_save(specs, ops):
    from sim import shim
    nets = [Z.build(s) for s in specs]
    for op in ops:
        net, spec = nets[op["net"]], specs[op["net"]]
        if op["kind"] != "net" and not spec["lapl"]:
            continue
        o = dict(op["opts"], delta=not spec["sparse"])
        lam = None if op["lam"] is None else spec["lams"][op["lam"] % len(spec["lams"])]
        path = Z.file_of(op["kind"], op["name"], o["comp"])
        want = Z.relevant(Z.image(net), op["kind"], lam, o["tol"])
        shim.point("saving", path, pickle.dumps((op["kind"], want, Z.tolerance(op["kind"], o))))
        try:
            Z.do_save(net, op["kind"], op["name"], lam, o)
        except OSError:
            pass
    return len(ops)
