"""Sessions of parallel library calls: matrix exponentials, Louvain, NVI.

An operation is plain data; `ask` makes the call, `judge` compares a returned
value with a direct single-process computation.  Everything runs inside one
simulated process, whose pools are simulated as well.
"""
from itertools import combinations
from math import comb

import numpy as np
import scipy.linalg
import scipy.sparse as sp

from . import clusterings as C
from . import oracles as O
from . import shim
from .session import Bad, need

# ---------------------------------------------------------------- generation


def gen_lapl(w, nmax=12):
    """A (minus) Laplacian with several components, as plain numbers."""
    n = 1 + w.choose(nmax)
    ncomp = 1 + w.choose(min(4, n))
    comp = [w.choose(ncomp) for _ in range(n)]
    directed = w.flag(0.3)
    kind = w.choose(3)                      # weights: ones, integers, floats
    dens = [0.5, 0.9, 0.25][w.choose(3)]
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j or comp[i] != comp[j] or (not directed and j < i):
                continue
            if w.flag(dens):
                v = [1.0, 1.0 + w.choose(4), 0.1 + w.choose(100) / 37.0][kind]
                A[i, j] = v
                if not directed:
                    A[j, i] = v
    d = A.sum(1)
    if w.flag(0.6):                         # random walk
        L = np.eye(n) - A / np.where(d == 0, 1, d)[:, None]
        L[d == 0] = 0
    else:
        L = np.diag(d) - A
    fact = [1.0, 0.1, 4.0, 0.5, 0.0][w.choose(5)]   # growth would be ill-conditioned
    M = -fact * L
    if w.flag(0.15):
        M = M.T.copy()
    return M


def gen_expm(w, f):
    return {"op": ["expm", "subspace"][f.choose(2)], "A": gen_lapl(w), "fmt": f.choose(3),
            "nproc": 1 + f.choose(4), "thresh": [None, 1e3, 20.0, 1e8][f.choose(4, 0.5)],
            "norm": not f.flag(0.35), "labels": f.flag(0.3), "verbose": f.flag(0.15)}


def gen_big(w, f):
    """A Laplacian of at least 1000 rows, to reach the paths for large networks."""
    if f.flag(0.4):
        # one large component and small ones
        return {"op": "big", "large": 1000 + f.choose(3), "small": [1 + f.choose(4) for _ in range(2)],
                "at": f.choose(3), "mix": f.flag(0.5),
                "nproc": 1 + f.choose(3), "fact": 0.3}
    return {"op": "lapl", "sizes": [2 + f.choose(4) for _ in range(6)], "n": 1000 + f.choose(20),
            "nproc": 1 + f.choose(3), "fact": [0.7, 3.0][f.choose(2)]}


def gen_clust(w, f, nmax=12):
    n = 2 + w.choose(nmax - 1)
    T = np.zeros((n, n))
    groups = 1 + w.choose(3)
    dens = [0.6, 1.0, 0.3][w.choose(3)]
    for i in range(n):
        for j in range(n):
            same = i % groups == j % groups
            if w.flag(dens if same else dens * 0.4):
                T[i, j] = (1 + w.choose(1000) / 211.0) * (3.0 if same else 1.0)
    for i in range(n):
        if T[i].sum() == 0:
            T[i, i] = 1.0
    sym = w.flag(0.5)
    if sym:
        T = T + T.T
    p1 = T.sum(1) / T.sum() if sym else np.ones(n) / n
    if w.flag(0.2):
        p1 = np.array([1.0 + w.choose(9) for _ in range(n)])
        p1 /= p1.sum()
    T = T / T.sum(1)[:, None]
    return {"op": "clust", "T": T, "p1": p1, "kind": ["dense", "sparse"][f.choose(2)],
            "S": ["default", "other", "scalar"][f.choose(3, 0.5)], "repeat": 1 + f.choose(6),
            "nproc": 1 + f.choose(4), "start": f.flag(0.25), "multi": f.flag(0.15),
            "verbose": f.flag(0.15), "weak": [0, 1, 2, -1][f.choose(4, 0.7)],
            "caps": [None, (1, 1000), (1000, 1), (2, 3)][f.choose(4, 0.7)], "loud": f.flag(0.1)}


def limits(op):
    """Limits of the Louvain loops, as asked for."""
    return dict(zip(("n_meta_iter_max", "n_sub_iter_max"), op["caps"] or ()))


def gen_parts(w):
    n = 2 + w.choose(9)
    m = 2 + w.choose(5)
    parts = []
    for _ in range(m):
        if parts and w.flag(0.2):
            parts.append(parts[w.choose(len(parts))])
            continue
        c = {}
        k = 1 + w.choose(n)
        for i in range(n):
            c.setdefault(w.choose(k), set()).add(i)
        parts.append(list(c.values()))
    return n, parts


def gen_nvi(w, f):
    n, parts = gen_parts(w)
    m = len(parts)
    pairs = m * (m - 1) // 2
    return {"op": "nvi", "N": n, "parts": parts, "nproc": 1 + f.choose(4),
            "samples": [None, 1 + f.choose(max(1, pairs)), pairs + 1 + f.choose(3)][f.choose(3)],
            "verbose": f.flag(0.15), "avg": pairs > 0 and f.flag(0.2), "form": f.choose(4),
            "same": f.flag(0.4)}


def give(p, form, n):
    """One partition as the library accepts it."""
    from flowstab.network_clustering import Partition
    if form == 1:
        return {k: i for i, c in enumerate(p) for k in c}
    if form == 2:
        return Partition(n, cluster_list=[set(c) for c in p])
    return [tuple(sorted(c, reverse=True)) for c in p]


def vary(op, f):
    """The same request with other numbers, or spread over other processes."""
    op = dict(op)
    if "A" in op:
        op["A"] = op["A"] * [2.0, 0.5, 1.0][f.choose(3)]
        if f.flag(0.3):
            op["A"] = op["A"].T.copy()
        if f.flag(0.3):
            op["op"] = ["expm", "subspace"][f.choose(2)]
    elif "T" in op:
        n = op["T"].shape[0]
        m = f.choose(3)
        if m == 0:
            shift = 1 + f.choose(n)
            op["T"] = np.roll(np.roll(op["T"], shift, 0), shift, 1)
            op["p1"] = np.roll(op["p1"], shift)
        elif m == 1:
            op["S"] = ["default", "other", "scalar"][f.choose(3)]
        else:
            op["kind"] = ["dense", "sparse"][f.choose(2)]
        op["repeat"] = 1 + f.choose(6)
    elif "parts" in op:
        op["parts"] = op["parts"][::-1]
        op["samples"] = None
    op["nproc"] = 1 + f.choose(4)
    return op


def gen_bad(w, f):
    """A request whose workers raise an error."""
    if f.flag(0.5):
        op = gen_nvi(w, f)
        i = f.choose(len(op["parts"]))
        op.update(parts=[None if j == i else p for j, p in enumerate(op["parts"])], samples=None, bad=True, avg=False)
        return op
    op = gen_clust(w, f)
    op.update(kind="dense", bad=True, scale=3.0, multi=False)
    return op


def gen_ops(w, f, makers, n):
    ops = []
    for _ in range(n):
        if ops and f.flag(0.4) and "bad" not in ops[-1]:
            ops.append(vary(ops[-1], f))
        else:
            ops.append(makers[f.choose(len(makers))](w, f))
    return ops


# ------------------------------------------------------------------- calls

def as_fmt(A, fmt, op):
    """compute_parallel_expm takes any format, the subspace variant csc only."""
    if op == "subspace" or fmt == 0:
        return sp.csc_matrix(A)
    return sp.csr_matrix(A) if fmt == 1 else np.array(A)


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def big_lapl(op):
    blocks = []
    if op["op"] == "big":
        n = op["large"]
        A = sp.diags([np.ones(n - 1), np.ones(n - 1)], [1, -1]).tolil()
        for s in op["small"]:
            blocks.append(sp.coo_matrix(np.ones((s, s)) - np.eye(s)))
        blocks.insert(op["at"], A)
    else:
        left, i = op["n"], 0
        while left > 0:
            s = min(left, op["sizes"][i % len(op["sizes"])])
            blocks.append(sp.coo_matrix(np.ones((s, s)) - np.eye(s)))
            left -= s
            i += 1
    A = sp.block_diag(blocks, format="csr")
    # mix the order of the nodes
    n = A.shape[0]
    perm = (np.arange(n) * 7919 + 13) % n
    if len(set(perm.tolist())) == n and op.get("mix", True):
        A = A[perm, :][:, perm]
    d = np.asarray(A.sum(1)).ravel()
    W = sp.diags(1 / np.where(d == 0, 1, d)) @ A
    L = sp.diags((d > 0).astype(float)) - W
    return sp.csc_matrix(L)


def build_clust(op, seed=None):
    from flowstab.network_clustering import Clustering, SparseClustering
    from flowstab.sparse_stoch_mat import SparseAutocovMat
    T, p1 = op["T"], op["p1"]
    n = T.shape[0]
    p2 = p1 @ T
    start = None
    if op["start"]:
        start = [{i for i in range(n) if i % 2 == r} for r in range(2)]
        start = [c for c in start if c]
    if op["kind"] == "dense":
        S = None
        if op["S"] == "other":
            S = np.diag(p1) @ T @ T - np.outer(p1, p2 @ T)
        c = Clustering(p1=p1, p2=p2, T=T, S=S, cluster_list=start, rnd_seed=seed)
        return c
    Ts = sp.csr_matrix(T)
    S = None
    if op["S"] == "other":
        S = SparseAutocovMat(PT=sp.csr_matrix(np.diag(p1) @ T @ T), p1=p1.copy(), p2=p2 @ T)
    elif op["S"] == "scalar":
        PT = np.diag(p1) @ T
        PT = (PT + PT.T) / 2
        S = SparseAutocovMat(PT=sp.csr_matrix(PT), p1=1 / n, p2=1 / n, PT_symmetric=True)
    return SparseClustering(p1=p1, p2=p2, T=Ts, S=S, cluster_list=start, rnd_seed=seed)


def cov_of(op):
    """The covariance that is to be clustered, independently."""
    T, p1 = op["T"], op["p1"]
    n = T.shape[0]
    p2 = p1 @ T
    if op["S"] == "other":
        return np.diag(p1) @ T @ T - np.outer(p1, p2 @ T)
    if op["S"] == "scalar" and op["kind"] == "sparse":
        PT = np.diag(p1) @ T
        return (PT + PT.T) / 2 - 1.0 / n / n
    return np.diag(p1) @ T - np.outer(p1, p2)


def once(op, seed, noise=0.0, rng=None):
    """Partition of a single Louvain run with this seed from singletons."""
    from flowstab.network_clustering import Clustering, SparseClustering
    from flowstab.sparse_stoch_mat import SparseAutocovMat
    c = build_clust(dict(op, start=False))
    S = c._S
    if noise:
        if op["kind"] == "dense":
            S = S * (1 + noise * rng.rand(*S.shape))
        else:
            PT = S.PT.copy()
            PT.data = PT.data * (1 + noise * rng.rand(PT.data.size))
            S = SparseAutocovMat(PT=PT, p1=S.p1, p2=S.p2, PT_symmetric=S.PT_symmetric)
    cls = Clustering if op["kind"] == "dense" else SparseClustering
    d = cls(p1=c.p1, p2=c.p2, T=c.T, S=S, rnd_seed=seed)
    d.find_louvain_clustering(**limits(op))
    return C.key_of(d.partition.cluster_list)


def image(c):
    S = c._S
    return {"S": O.dense_autocov(S) if hasattr(S, "PT") else np.array(S), "T": dense(c.T).copy(),
            "p1": np.array(c.p1), "p2": np.array(c.p2), "part": C.key_of(c.partition.cluster_list)}


def ask(op):
    """Make the call; returns what judge needs."""
    what = op["op"]
    if what in ("expm", "subspace"):
        from flowstab.parallel_expm import compute_parallel_expm, compute_subspace_expm_parallel
        A = as_fmt(op["A"], op["fmt"], what)
        kw = dict(nproc=op["nproc"], thresh_ratio=op["thresh"], normalize_rows=op["norm"], verbose=op["verbose"])
        if what == "subspace" and op["labels"]:
            n, lab = labels(op["A"])
            kw.update(n_comp=n, comp_labels=np.array(lab))
        try:
            return ("val", (compute_parallel_expm if what == "expm" else compute_subspace_expm_parallel)(A, **kw)), A
        except Exception as e:
            return ("err", e), A
    if what in ("big", "lapl"):
        from flowstab.parallel_expm import compute_subspace_expm_parallel
        from flowstab.temporal_network import sparse_lapl_expm
        L = big_lapl(op)
        try:
            if what == "big":
                return ("val", compute_subspace_expm_parallel(-op["fact"] * L, nproc=op["nproc"])), L
            return ("val", sparse_lapl_expm(L, op["fact"], dense_expm=False, nproc=op["nproc"])), L
        except Exception as e:
            return ("err", e), L
    if what == "clust":
        from flowstab.network_clustering import run_multi_louvain
        from flowstab.parallel_clustering import compute_parallel_clustering
        shim.CL.weak = op["weak"]
        c = build_clust(op)
        if op.get("scale"):
            c.T = c.T * op["scale"]         # no stochastic matrix any more
        before = image(c)
        try:
            if op["multi"]:
                _, cl, st, sd = run_multi_louvain(c, op["repeat"], **limits(op))
                val = (cl, st, sd)
            else:
                val = compute_parallel_clustering(c, num_repeat=op["repeat"], nproc=op["nproc"],
                                                  verbose=op["verbose"], clust_verbose=2 * op["loud"],
                                                  print_num_loops=op["loud"], **limits(op))
            return ("val", val), (c, before)
        except Exception as e:
            return ("err", e), (c, before)
    if what == "nvi":
        from flowstab.parallel_clustering import compute_parallel_nvi
        try:
            if op["avg"] and op["form"]:
                from flowstab.network_clustering import norm_var_information
                forms = [give(p, op["form"], op["N"]) for p in op["parts"]]
                return ("val", [norm_var_information(x, y) for x, y in combinations(forms, 2)]), None
            if op["avg"]:
                from flowstab.network_clustering import avg_norm_var_information
                return ("val", avg_norm_var_information([[set(x) for x in p] for p in op["parts"]],
                                                        num_samples=op["samples"])), None
            # the same partition may be in the list several times as one object
            objs = {}
            lists = [p if p is None else
                     objs.setdefault(id(p), [set(x) for x in p]) if op.get("same") else [set(x) for x in p]
                     for p in op["parts"]]
            return ("val", compute_parallel_nvi(lists, op["N"],
                                                nproc=op["nproc"], verbose=op["verbose"],
                                                num_varinf_samples=op["samples"])), None
        except Exception as e:
            return ("err", e), None
    raise ValueError(what)


def labels(A):
    """Connected components by a search of our own, numbered by first node."""
    n = len(A)
    lab, k = [-1] * n, 0
    for i in range(n):
        if lab[i] >= 0:
            continue
        todo, lab[i] = [i], k
        while todo:
            x = todo.pop()
            for y in range(n):
                if lab[y] < 0 and (A[x, y] != 0 or A[y, x] != 0):
                    lab[y] = k
                    todo.append(y)
        k += 1
    return k, lab


# ---------------------------------------------------------------- judgement

def judge(op, val, aux, probe):
    what = op["op"]
    if what in ("expm", "subspace"):
        A = op["A"]
        need(O.differ(dense(aux), A, 1e-14, 1e-14) is None, "input", f"{what} changed its input")
        E = scipy.linalg.expm(A)
        if op["thresh"] is not None:
            lim = (E.max(0)[None, :] if what == "expm" else E.max()) / op["thresh"]
            if (np.abs(E - lim) < 1e-9 * np.abs(E).max()).any():
                probe("threshold_tie")
                return
            E = np.where(E < lim, 0.0, E)
        if op["norm"]:
            s = E.sum(1)
            E = E / np.where(s == 0, 1, s)[:, None]
        got = dense(val)
        d = O.differ(got, E, 1e-6, 1e-9)
        need(d is None, "expm", f"{what} nproc={op['nproc']} thresh={op['thresh']} norm={op['norm']}: {d}")
        return
    if what in ("big", "lapl"):
        L = aux.toarray()
        n, lab = sp.csgraph.connected_components(sp.csr_matrix(L), directed=False)
        got = val.toarray() if not hasattr(val, "tocsr") else val.tocsr().toarray()
        for c in range(n):
            ix = np.nonzero(lab == c)[0]
            if what == "big" or c % 7 == 0 or c == n - 1:
                E = scipy.linalg.expm(-op["fact"] * L[np.ix_(ix, ix)])
                d = O.differ(got[np.ix_(ix, ix)], E, 1e-6, 1e-9)
                need(d is None, "expm", f"{what}: component {c} of {n}, size {len(ix)}: {d}")
        s = got.sum(1)
        need(np.allclose(s, 1, atol=1e-8), "expm", f"{what}: rows do not sum to one: {s.min()} {s.max()}")
        return
    if what == "clust":
        c, before = aux
        d = O.differ(image(c), before, 1e-13, 1e-15)
        need(d is None, "input", f"the given clustering was changed: {d}")
        cl, st, sd = val
        m = op["repeat"]
        need(len(cl) == m and len(st) == m and len(sd) == m, "count",
             f"{len(cl)} partitions, {len(st)} stabilities, {len(sd)} seeds instead of {m}")
        S = cov_of(op)
        n = S.shape[0]
        rng = np.random.RandomState(5)
        for i, (parts, s, seed) in enumerate(zip(cl, st, sd)):
            need(O.is_partition(parts, n), "partition", f"result {i} is no partition of {n} nodes: {parts}")
            v = O.stability(S, parts)
            need(abs(v - float(s)) < 1e-9 + 1e-7 * abs(v), "stability",
                 f"result {i}: partition has stability {v}, returned {s}")
            if i < 3:
                key = once(op, seed)
                if key == C.key_of(parts):
                    probe("seed_reproduced")
                    continue
                keys = {key, once(op, seed, 1e-12, rng), once(op, seed, -1e-12, rng), once(op, seed, 1e-11, rng)}
                need(len(keys) > 1, "seed", f"seed {seed} gives {key}, returned {C.key_of(parts)}")
                probe("seed_not_robust")
        return
    if what == "nvi":
        parts, N = op["parts"], op["N"]
        m = len(parts)
        allv = [O.nvi(parts[i], parts[j], N) for i in range(m) for j in range(i + 1, m)]
        total = len(allv)
        k = total if op["samples"] is None or op["samples"] > total else op["samples"]
        if op["avg"] and op["form"]:
            d = O.differ(np.array(val, dtype=float), np.array(allv), 1e-8, 1e-10)
            need(d is None, "nvi", f"values of all pairs (form {op['form']}) differ: {d}")
            return
        if op["avg"]:
            val = float(val)
            if k == total:
                need(abs(val - np.mean(allv)) < 1e-9, "average", f"{val} instead of {np.mean(allv)}")
            elif comb(total, k) <= 3000:
                near = min((abs(val - sum(c) / k) for c in combinations(allv, k)))
                need(near < 1e-9, "average", f"{val} is not the average of {k} of {allv}")
            return
        need(len(val) == k, "count", f"{len(val)} values instead of {k} (samples={op['samples']}, {total} pairs)")
        if k == total:
            d = O.differ(np.array(val, dtype=float), np.array(allv), 1e-8, 1e-10)
            need(d is None, "nvi", f"values differ from the pairs in order: {d}")
        else:
            # an ordered subset of the pairs
            i = 0
            for x in val:
                while i < total and abs(allv[i] - float(x)) > 1e-9:
                    i += 1
                need(i < total, "nvi", f"{list(map(float, val))} is not an ordered subset of {allv}")
                i += 1


def session(ops):
    """Make the calls one after the other and judge each one."""
    counts = {}

    def probe(name):
        counts[name] = counts.get(name, 0) + 1
    for i, op in enumerate(ops):
        (status, val), aux = ask(op)
        shim.disarm()
        fired = shim.CL.call("point", "faults")
        if status == "err":
            must = op.get("bad") or fired
            need(must, "fails", f"call {i} ({op['op']}) fails without a fault: {val!r}")
            probe("call_failed")
        else:
            need(not op.get("bad"), "silent", f"call {i} ({op['op']}) cannot be computed but returns a result")
            try:
                judge(op, val, aux, probe)
            except Bad as b:
                raise Bad(b.cls, f"call {i} ({op['op']}): {b.msg}")
            probe("judged")
    return counts
