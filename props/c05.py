"""C05: saving and loading is lossless, and a failed save loses nothing."""
import os
import pickle

from sim import oracles as O
from sim import scenario as S
from sim import session as Z
from sim import workloads as W
from sim.kernel import Job
from sim.runner import Violation

RUNS = {"quick": 1600, "thorough": 30000}
GROUP = 1
LEVEL = "exploration"
RULE = ("Each run is a session of 3-10 saves, loads, truncations and recomputations on a few file names with generated networks "
        "and matrices, under 0-3 faults (full disk, I/O errors, allocation failures, short and torn writes, "
        "kills and power losses); every outcome is judged in the session, and the files after its end.")
REAL = ["flowstab.temporal_network (save*, load*)", "flowstab.helpers", "flowstab.sparse_stoch_mat",
        "NumPy, SciPy, pandas, pickle, gzip"]
STUB = ["file system calls (kernel with power-loss model)", "clocks", "entropy"]
ASSUMPTIONS = ["rename is atomic; data is durable only after fsync", "file names without dots",
               "damage means truncation; flipped bits in pickles cannot be detected"]


def gen_spec(w):
    events = W.gen_events(w, 5, 9)
    times = sorted({e[2] for e in events} | {e[3] for e in events})
    a = w.choose(len(times) - 1)
    b = a + 1 + w.choose(len(times) - 1 - a)
    win = w.flag(0.5)
    first = w.choose(len(W.TAUS))
    return {"events": events, "lapl": not w.flag(0.1), "t0": times[a] if win else None,
            "t1": times[b] if win else None, "adj": w.flag(0.3), "sparse": w.flag(0.5),
            "dense": not w.flag(0.3), "t_s": [10.0, 3.0][w.choose(2)], "two_ts": w.flag(0.2),
            "merge": w.flag(0.1), "how": W.HOWS[w.choose(len(W.HOWS), 0.6)],
            "lams": [1 / W.TAUS[(first + 3 * i) % len(W.TAUS)] for i in range(1 + w.choose(2))]}


def gen_ops(f):
    kinds = ["net", "inter", "inter_lin", "T", "T_lin"]
    ops = []
    # many histories treat one kind of file, one network or one way of saving only
    few = [f.flag(0.35) for _ in range(3)]
    one = f.choose(5), f.choose(2), f.choose(4), f.flag(0.8)
    for _ in range(3 + f.choose(8)):
        what = ["save", "load", "truncate", "compute"][f.weighted([5, 4, 1, 3 if few[1] else 1])]
        kind = kinds[one[0] if few[0] else f.choose(5)]
        ops.append({"op": what, "kind": kind, "net": one[1] if few[1] else f.choose(2),
                    "name": {"net": "data/n", "inter": "data/i", "inter_lin": "data/l", "T": "data/t",
                             "T_lin": "data/u"}[kind] + str(f.choose(2, 0.7)),
                    "lam": [None, 0, 1][f.choose(3)], "full": f.flag(0.5), "use": f.flag(0.4),
                    "cut": f.choose(16), "win": (f.choose(8), f.choose(8)), "again": f.choose(4),
                    "opts": {"comp": f.flag(0.4), "replace": f.flag(0.5), "round": one[3] if few[2] else not f.flag(0.2),
                             "tol": [1e-8, 1e-6, 1e-3, 0.0][one[2] if few[2] else f.choose(4)]}})
    ops += [dict(o, op="load") for o in ops if o["op"] == "save"][-4:]
    return ops


def run(ctx):
    f = ctx.f
    specs = [gen_spec(ctx.w) for _ in range(2)]
    ops = gen_ops(f)
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "data")
    hist = {}                       # file -> versions a crash may leave
    pend = {}
    hurt = set()
    ever = set()                    # a loss of power may bring a damaged content back

    def saving(path, data):
        pend[path] = data

    def saved(path, ok):
        data = pend.pop(path)
        if ok:
            hist.setdefault(path, []).append(data)
            hurt.discard(path)

    def damaged(path):
        hurt.add(path)
        ever.add(path)

    marks = {"n": 0}

    def load_fault():
        n = sum(v for a, v in k.fired.items() if a != "short_write")
        new, marks["n"] = n > marks["n"], n
        return new
    k.on_point.update(saving=saving, saved=saved, damaged=damaged, load_fault=load_fault)
    counts = {"any": 6 * len(ops), "write": 2 * len(ops), "create": len(ops) // 2 + 1, "open": len(ops),
              "fsync": len(ops) // 2 + 1, "replace": len(ops) // 2 + 1, "read": len(ops),
              "stat": len(ops) // 2 + 1}
    if f.flag(0.8):
        k.faults = S.plan(f, counts, 4)
    j = Job("session", func=Z.guard, args=(Z.saves, specs, ops))
    k.run([j])
    ctx.info = {"ops": [(o["op"], o["kind"]) for o in ops][:6], "n": len(ops)}
    if j.ok:
        if j.payload[0] == "bad":
            raise Violation(j.payload[1], j.payload[2])
        ctx.probe("judged", j.payload[1])
        ctx.probe("nontrivial")
    elif j.status is not None:
        # a compute fault while the networks are built, or an error outside a judged call
        if not any(k.fired.get(x) for x in ("mem", "intr")):
            raise Violation("fails", f"session ends with an error: {(j.payload or '')[-500:]}")
    for path in sorted(set(hist) | set(pend)):
        if path in hurt or path in ever and k.power_losses:
            continue
        full = os.path.join(k.root, path)
        versions = hist.get(path, []) + ([pend[path]] if path in pend else [])
        if not os.path.exists(full):
            if hist.get(path) and not k.power_losses:
                raise Violation("lost", f"{path} has disappeared")
            continue
        ctx.probe("files_judged")
        kind = pickle.loads(versions[0])[0]
        try:
            _, got = Z.do_load(kind, full)
        except Exception as e:
            raise Violation("unreadable", f"{path} cannot be loaded at the end: {e!r}")
        for v in versions:
            kd, want, tol = pickle.loads(v)
            if kd == "net":
                want = {a: b for a, b in want.items() if not a.startswith("delta")}
                got = {a: b for a, b in got.items() if not a.startswith("delta")}
            if O.differ(got, want, tol, tol) is None:
                break
        else:
            raise Violation("mixture", f"{path} is none of the versions saved")
