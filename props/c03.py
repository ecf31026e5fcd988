"""C03: clustering jobs converge after any crash, fault or restart."""
import os
import pickle

import numpy as np
import scipy.sparse as sp

from sim import clusterings as C
from sim import oracles as O
from sim import scenario as S
from sim import workloads as W
from sim.runner import Violation

RUNS = {"quick": 400, "thorough": 10000}
GROUP = 4
LEVEL = "exploration"
RULE = ("Each run takes integrals of an undisturbed second stage of a generated contact sequence, generates "
        "options for run_clusterings, makes 1-3 attempts with 1-2 faults each at seeded positions and one "
        "undisturbed run; after each of them every result file is checked for self-consistency against the "
        "integral (independent covariance, stability, variation of information; seeds replayed), and results "
        "that were there before have to be unchanged.")
REAL = ["flowstab.scripts.run_clusterings", "flowstab.network_clustering", "flowstab.sparse_stoch_mat",
        "flowstab.helpers", "compiled extensions", "NumPy, SciPy"]
STUB = ["multiprocessing.Pool, ProcessPoolExecutor (simulated processes)",
        "file system calls (kernel with power-loss model)", "clocks", "entropy"]
ASSUMPTIONS = ["fork start method", "rename is atomic; data is durable only after fsync",
               "allocation failures and interrupts strike at numerical library calls",
               "a seed is only replayed if rounding errors cannot decide its partition"]


def gen(ctx):
    w = ctx.w
    events, o, p, n = S.gen_for_stage2(w, small=False)
    p.update(intermediate=w.flag(0.3), verbose=False)
    p["only"] = p["only"] or ["--only_from_start_and_finish", "--only_one_interval"][w.choose(2)]
    q = W.gen_stage3(w, o["name"])
    files, _ = S.stage2_files(ctx, events, o, p)
    names = [m for m in sorted(files) if "temp_integration" not in m]
    keep = set(names[:6])
    files = {m: b for m, b in files.items() if m in keep or "temp_integration" in m}
    q["static"] = w.flag(0.25)
    q["skip_flow"] = q["static"] and w.flag(0.2)
    if q["static"]:
        net = O.DenseNet(events)
        A = sp.csr_matrix(net.static(net.times[0], net.times[-1]))
        q["static_A"] = A
        for m in keep:
            parts = m[:-7].split("_")
            a, b = sorted((int(parts[-3]), int(parts[-1])))
            files[f"{o['name']}_static_A_{a:06d}_to_{b:06d}.pickle"] = pickle.dumps(A)
    if not q["static"] and q["comps"] != "separate" and w.flag(0.15):
        files, keep = with_density(w, o, q, {m: files[m] for m in keep})
    elif not q["static"] and w.flag(0.4):
        for m in sorted(keep):
            files[m] = rugged(w, files[m])
        q["rugged"] = True
    return o, q, files, sorted(keep)


def rugged(w, blob):
    """An integral for which different seeds give different partitions."""
    raw = pickle.loads(blob)
    n = 14 + w.choose(12)
    A = np.eye(n) * 2.0
    for i in range(n):
        for d in (1, 2, 3):
            A[i, (i + d) % n] += (9 + w.choose(5)) / d
    A = A + A.T
    for _ in range(60):
        A = A / A.sum(1)[:, None]
        A = (A + A.T) / 2
    raw["ITPT"] = type(raw["ITPT"])(sp.triu(sp.csr_matrix(A * n * raw["integration_time"]), format="csr"))
    return pickle.dumps(raw)


def with_density(w, o, q, files):
    """Integrals of another initial density, both directions in the same directory."""
    q["init_p1"] = ["forward", "backward"][w.choose(2)]
    out, keep = {}, []
    for i, m in enumerate(sorted(files)[:3]):
        raw = pickle.loads(files[m])
        M, _ = C.covariance(raw, dict(q, init_p1=None, norm=True, norm_iter=10))
        x = np.array([1 + w.choose(6) for _ in range(M.shape[0])], dtype=float)
        M = M * np.outer(x, x)
        M = M / M.sum()
        it = [1.0, 2.5, 40.0][w.choose(3)]
        for d, s, a, b in (("forward", "PTforw", "ITPT", "p1"), ("backward", "PTback", "ITPTback", "p2")):
            name = f"{o['name']}_tau_w{m.split('_tau_w')[1].split('_')[0]}_{s}_{i:06d}_to_{i + 1:06d}.pickle"
            out[name] = pickle.dumps({"integration_time": it, a: sp.triu(sp.csr_matrix(M * it), format="csr"),
                                      b: sp.csr_matrix(M.sum(1)[None, :])})
            if d == q["init_p1"]:
                keep.append(name)
            M = M[::-1, ::-1]
    return out, keep


def judge(ctx, s3, raws, q, what, before, power=False):
    """`power`: a power loss may have undone renames that were not synchronised."""
    now = {}
    for n in O.listing(s3):
        path = os.path.join(s3, n)
        if n.startswith("tmpclusters_"):
            try:
                with open(path, "rb") as f:
                    pickle.load(f)
            except Exception as e:
                raise Violation("unreadable", f"{what}: {n}: {e}")
            continue
        if not n.startswith("clusters_") or n[len("clusters_"):] not in raws:
            raise Violation("extra", f"{what}: unexpected result {n}")
        with open(path, "rb") as f:
            now[n] = f.read()
        if n in before and before[n] != now[n]:
            raise Violation("overwritten", f"{what}: {n} was there before and has changed")
        if n not in before:
            C.result_ok(path, raws[n[len("clusters_"):]], q, f"{what}: {n}", ctx.cache.setdefault("seeds", {}), ctx.probe,
                        4 if q.get("rugged") else 2)
    lost = sorted(set(before) - set(now))
    if lost and not power:
        raise Violation("lost", f"{what}: {lost[:3]} disappeared")
    return now


def run(ctx):
    f = ctx.f
    o, q, files, names = gen(ctx)
    raws = C.raw_integrals({m: files[m] for m in names})

    def make():
        k = S.quiet(ctx)
        S.dirs(k.root, "s3")
        S.put_files(os.path.join(k.root, "s2"), files)
        S.run_clean(ctx, k, [S.job("ref", W.S3, W.argv_stage3(q))], "reference")
        got = judge(ctx, os.path.join(k.root, "s3"), raws, q, "undisturbed run", {})
        if sorted(got) != ["clusters_" + m for m in names]:
            raise Violation("missing", f"undisturbed run leaves {sorted(got)} for {names}")
        c = dict(k.counts)
        k.close()
        return c
    counts = S.cached(ctx, ("c03", names, sorted((a, repr(b)) for a, b in q.items()), len(repr(files))), make)
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "s3")
    S.put_files(os.path.join(k.root, "s2"), files)
    s3 = os.path.join(k.root, "s3")
    nproc = 1 + f.choose(3)
    state = {"files": {}, "power": 0}

    def jobs(i):
        return [S.job(f"a{i}", W.S3, W.argv_stage3(q, nproc=nproc))]

    def look(i):
        state["files"] = judge(ctx, s3, raws, q, f"after faulty attempt {i + 1}", state["files"],
                               k.power_losses > state["power"])
        state["power"] = k.power_losses

    ctx.info = {"files": len(names), "nproc": nproc, "repeat": q["repeat"], "nproc_clust": q["nproc_clust"],
                "tmp": q["tmp"], "samples": q["samples"], "norm": q["norm"], "static": q["static"],
                "comps": q["comps"], "caps": q["caps"], "init_p1": q.get("init_p1")}
    ctx.probe(f"comps:{q['comps'] or 'all'}")
    if q.get("rugged"):
        ctx.probe("many_partitions")
    if q.get("init_p1"):
        ctx.probe("own_density")
    S.attempts(ctx, k, f, jobs, counts, look)
    S.run_clean(ctx, k, [S.job("final", W.S3, W.argv_stage3(q, nproc=1 + f.choose(3)))], "rerun")
    got = judge(ctx, s3, raws, q, "after an undisturbed rerun", state["files"])
    missing = sorted({"clusters_" + m for m in names} - set(got))
    if missing:
        raise Violation("missing", f"after an undisturbed rerun: missing {missing[:3]}")
