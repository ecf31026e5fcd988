"""Histories of Louvain clusterings under chosen random streams and interleavings."""
import contextlib
import io
import threading
import warnings

import numpy as np
import scipy.linalg
import scipy.sparse as sp

from . import clusterings as C
from . import libpar as L
from . import oracles as O
from . import shim
from .session import need

# ---------------------------------------------------------------- generation


def gen_problem(w, kind=None):
    """A covariance and how it is handed to the library, as plain numbers."""
    if kind is None:
        kind = w.weighted([4, 4, 2, 3, 1])
    if kind == 4:
        n = 2 + w.choose(4)
        T = np.tile([1.0 / n], (n, n))
        out = {"kind": ["dense", "sparse"][w.choose(2)], "T": T, "p1": np.ones(n) / n, "S": None}
        if w.flag(0.6):                    # almost no covariance
            T = T + [1e-3, 1e-4][w.choose(2)] * np.array([[w.choose(100) / 100.0 for _ in range(n)] for _ in range(n)])
            out["T"] = T / T.sum(1)[:, None]
            if out["kind"] == "sparse" and w.flag(0.6):
                out.update(S=out["T"] / n, scalar=True, bare=w.flag(0.5))
        return out
    if kind == 2:                          # any covariance, without a transition matrix
        n = 2 + w.choose(8)
        S = np.array([[(w.choose(2001) - 1000) / 400.0 for _ in range(n)] for _ in range(n)])
        if w.flag(0.5):
            S = S + S.T
        if w.flag(0.3):
            S = np.round(S)
        S = S / (n * n) * [1.0, 1e-3, 1e-4][w.choose(3, 0.7)]
        return {"kind": "free", "S": S, "cut": float(np.abs(S).max()) * [0.1, 0.4][w.choose(2)] if w.flag(0.2) else None}
    if kind == 3:
        return gen_static(w)
    big = w.flag(0.15)
    if big and w.flag(0.15):
        # many small groups with weak links: sums of the aggregated matrices are small
        n = 60 + w.choose(60)
        T = np.zeros((n, n))
        for i in range(n):
            T[i, (i + 1) % n] = T[(i + 1) % n, i] = [1.0, 0.05 + w.choose(30) / 100][i % 2]
        p1 = T.sum(1) / T.sum()
        T = T / T.sum(1)[:, None]
    elif big:
        # planted groups: several rounds of aggregation
        g, m = 3 + w.choose(4), 3 + w.choose(3)
        n = g * m
        T = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if i // m == j // m or w.flag(0.12):
                    T[i, j] = (10.0 if i // m == j // m else 1.0) + w.choose(100) / 50.0
        if w.flag(0.6):
            T = T + T.T
        p1 = T.sum(1) / T.sum()
        T = T / T.sum(1)[:, None]
    else:
        op = L.gen_clust(w, w, 14)
        T, p1 = op["T"], op["p1"]
    n = len(p1)
    out = {"kind": ["dense", "sparse"][kind], "T": T, "p1": p1, "S": None}
    if kind == 0 and w.flag(0.2):          # rows without any transition are allowed
        T = T.copy()
        T[w.choose(n)] = 0
        out["T"] = T
    if w.flag(0.25):                       # another covariance than that of T
        Q = T.T @ np.diag(p1)
        out["S"] = (Q + Q.T) / 2 if w.flag(0.5) else Q
        if kind == 1:
            out["bare"] = w.flag(0.3)      # no transition matrix given
            out["scalar"] = w.flag(0.4)    # uniform densities given as numbers
            if out["scalar"]:
                out["p1"] = np.ones(n) / n
    if kind == 0 and w.flag(0.2):          # small values are cut
        out["cut"] = float(np.abs(dense_S(out)).max()) * [0.03, 0.2][w.choose(2)]
    return out


def gen_static(w):
    n = 3 + w.choose(8)
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            if w.flag(0.35):
                A[i, j] = A[j, i] = [1.0, 1.0 + w.choose(5)][w.choose(2)]
    if A.sum() == 0:
        A[0, 1] = A[1, 0] = 1.0
    t = [1, 2, 0.5, 3][w.choose(4)]
    how = ["expm", "linear", "discrete"][w.choose(3)]
    if how == "linear":
        t = min(t, 1)
    if how == "discrete":
        t = max(1, int(t))
    return {"kind": ["static", "static_csr"][w.choose(2)], "A": A, "t": t, "how": how}


def size(p):
    return (p["A"] if "A" in p else p["S"] if p["kind"] == "free" else p["T"]).shape[0]


def gen_start(f, n):
    m = f.choose(4, 0.5)
    if m == 0:
        return None
    if m == 1:
        return ("list", [[i] for i in f.shuffled(range(n))])
    k = 1 + f.choose(n)
    cl = {}
    for i in range(n):
        cl.setdefault(f.choose(k), []).append(i)
    cl = [cl[c] for c in sorted(cl)]
    if m == 2:
        return ("list", cl)
    return ("dict", {i: 2 * c for c, nodes in enumerate(cl) for i in nodes})


def gen_ops(f, problems, n):
    out = []
    for _ in range(n):
        i = f.choose(len(problems))
        k = f.weighted([12, 6, 4, 2, 1])
        op = {"op": ["find", "again", "together", "multi", "parts"][k], "p": i, "q": f.choose(len(problems)),
              "start": gen_start(f, size(problems[i])), "seed": f.choose(2 ** 31, 0.1),
              "stream": f.choose(7), "progress": f.flag(0.3), "perturb": f.choose(3),
              "limits": [None, (1, 1000), (1000, 2), (2, 3), (1000, 1)][f.choose(5, 0.7)],
              "how": f.choose(2), "turns": [f.choose(2) for _ in range(24)], "repeat": 1 + f.choose(4)}
        out.append(op)
    return out


# ---------------------------------------------------------------- covariances

def dense_S(p):
    """The covariance, computed independently."""
    if p.get("cut"):
        S = np.array(dense_S(dict(p, cut=None)))
        S[np.abs(S) < p["cut"]] = 0
        return S
    if p["kind"] == "free":
        return p["S"]
    if p["kind"].startswith("static"):
        A = p["A"]
        n = A.shape[0]
        d = A.sum(1)
        B = A.copy()
        for i in range(n):
            if d[i] == 0:
                B[i, i] = 1.0
        W = B / B.sum(1)[:, None]
        pi = d / d.sum()
        if p["how"] == "expm":
            T = scipy.linalg.expm(-p["t"] * (np.eye(n) - W))
        elif p["how"] == "linear":
            T = np.eye(n) - p["t"] * (np.eye(n) - W)
        else:
            T = np.linalg.matrix_power(W, p["t"])
        return pi[:, None] * T - np.outer(pi, pi)
    T, p1 = p["T"], p["p1"]
    p2 = p1 @ T if not p.get("scalar") else p1
    if p["S"] is not None:
        return p["S"] - np.outer(p1, p2) if p["kind"] == "sparse" else p["S"]
    return p1[:, None] * T - np.outer(p1, p2)


def connected(p):
    """Pairs of nodes between which moves are considered."""
    n = size(p)
    if p["kind"] == "free":
        return np.ones((n, n), bool)
    if p["kind"].startswith("static"):
        M = dense_S(p)
        d = p["A"].sum(1)
        pi = d / d.sum()
        return None if p["how"] == "expm" else (M + np.outer(pi, pi)) > 1e-12
    if p["kind"] == "sparse" and p["S"] is not None:
        return p["S"] != 0
    return p["T"] > 0


def make(p, start=None, own=None, **kw):
    """The clustering; `own` keeps the caller's matrices, which are used again."""
    from flowstab.network_clustering import Clustering, SparseClustering, static_clustering
    from flowstab.sparse_stoch_mat import SparseAutocovMat
    own = {} if own is None else own

    def mine(name, fn):
        if name not in own:
            own[name] = fn()
        return own[name]
    if start is not None:
        if start[0] == "own":
            kw["cluster_list"] = start[1]
        elif start[0] == "owndict":
            kw["node_to_cluster_dict"] = start[1]
        elif start[0] == "list":
            kw["cluster_list"] = [set(c) for c in start[1]]
        else:
            kw["node_to_cluster_dict"] = dict(start[1])
    if p.get("cut"):
        kw["S_threshold"] = p["cut"]
    if p["kind"] == "free":
        return Clustering(S=mine("S", p["S"].copy), **kw)
    if p["kind"].startswith("static"):
        A = mine("A", lambda: sp.csr_matrix(p["A"]) if p["kind"] == "static_csr" else p["A"].copy())
        c = static_clustering(A, t=p["t"], linearized=p["how"] == "linear",
                              discrete_time_rw=p["how"] == "discrete")
        return c.__class__(p1=c.p1, p2=c.p2, T=c.T, S=c._S, **kw)
    p1 = mine("p1", p["p1"].copy)
    if p["kind"] == "sparse":
        T = mine("T", lambda: sp.csr_matrix(p["T"]))
        p2 = mine("p2", lambda: p["p1"] @ p["T"] if not p.get("scalar") else p["p1"].copy())
        if p["S"] is None:
            return SparseClustering(p1=p1, p2=p2, T=T, **kw)
        n = len(p1)
        PT = mine("PT", lambda: sp.csr_matrix(p["S"]))
        S = SparseAutocovMat(PT=PT, p1=1 / n if p.get("scalar") else p1, p2=1 / n if p.get("scalar") else p2,
                             PT_symmetric=bool((p["S"] == p["S"].T).all()))
        if p.get("bare"):
            return SparseClustering(S=S, **kw)
        return SparseClustering(p1=p1, p2=p2, T=T, S=S, **kw)
    return Clustering(p1=p1, p2=p["p1"] @ p["T"], T=mine("T", p["T"].copy),
                      S=None if p["S"] is None else mine("S", p["S"].copy), **kw)


class Stream(np.random.RandomState):
    """A random stream that visits nodes in a chosen way, and may yield to others."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, how, seed=None, turn=None):
        super().__init__(seed)
        self.how, self.turn, self.n = how, turn, 0

    def shuffle(self, x):
        if self.turn is not None:
            self.turn()
        self.n += 1
        h, n = self.how, len(x)
        if h == 0:
            super().shuffle(x)
        elif h == 1:
            pass
        elif h == 2:
            x[:] = x[::-1].copy()
        elif h == 3:
            x[:] = np.roll(x, self.n)
        elif h == 4:
            x[:] = np.concatenate([x[::2], x[1::2]])
        elif h == 5:
            x[:] = np.concatenate([x[n // 2:][::-1], x[:n // 2]])
        else:
            super().shuffle(x)
            x[:] = np.sort(x[:n // 2]).tolist() + x[n // 2:].tolist()

    def permutation(self, x):
        y = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(y)
        return y


# ------------------------------------------------------------------ session

class Session:
    def __init__(self, problems):
        self.ps = problems
        self.S = [dense_S(p) for p in problems]
        self.known = {}              # request -> partition
        self.counts = {}
        self.last = {}               # problem -> an object that has been used
        self.objs = [{} for p in problems]
        self.given = {}              # start -> the caller's own clusters, used again and again

    def probe(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def call(self, fn, *a, **kw):
        shim.CL.call("point", "op")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    v, err = fn(*a, **kw), None
            except (Exception, KeyboardInterrupt) as e:
                v, err = None, e
            finally:
                shim.disarm()
        fired = shim.CL.call("point", "faults")
        shim.disarm()
        return v, err, fired

    def quiet(self, fn, *a, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(*a, **kw)

    def make(self, p, start=None, **kw):
        own = [o for q, o in zip(self.ps, self.objs) if q is p]
        return self.quiet(make, p, self.own(start), own[0] if own else None, **kw)

    def own(self, start):
        if start is None:
            return None
        k = repr(start)
        if k not in self.given:
            self.given[k] = (start, ("own", [set(c) for c in start[1]]) if start[0] == "list"
                             else ("owndict", dict(start[1])))
        return self.given[k][1]

    def unchanged(self, what):
        for start, (_, v) in self.given.values():
            want = [set(c) for c in start[1]] if start[0] == "list" else dict(start[1])
            need(v == want, "changed", f"{what}: the caller's clusters {want} are now {v}")

        for p, own in zip(self.ps, self.objs):
            for k, v in own.items():
                want = p["S"] if k == "PT" else p[k] if k in p else None
                if want is not None:
                    v = np.asarray(O.plain(v))
                    need(v.shape == want.shape and (v == want).all(), "changed",
                         f"{what}: the caller's {k} {want.tolist()} is now {v.tolist()}")

    def start_value(self, i, start):
        return O.stability(self.S[i], self.clusters(size(self.ps[i]), start))

    @staticmethod
    def clusters(n, start):
        if start is None:
            return [{k} for k in range(n)]
        if start[0] == "list":
            return start[1]
        d = {}
        for k, c in start[1].items():
            d.setdefault(c, set()).add(k)
        return list(d.values())

    def views(self, c, i, what):
        n = size(self.ps[i])
        part = c.partition
        cl = [set(x) for x in part.cluster_list]
        need(O.is_partition(cl, n), "partition", f"{what}: {part.cluster_list} of {n} nodes")
        d = part.node_to_cluster_dict
        need(sorted(d) == list(range(n)) and all(k in cl[d[k]] for k in d), "views",
             f"{what}: clusters {cl} but nodes {d}")
        return cl

    def judge(self, c, i, lo, what, limits=None):
        S, n = self.S[i], size(self.ps[i])
        cl = self.views(c, i, what)
        val = O.stability(S, cl)
        scale = max(1e-12, np.abs(S).sum())
        need(abs(float(c.compute_stability()) - val) <= 1e-9 * scale + 1e-12, "stability",
             f"{what}: stability {c.compute_stability()}, the partition has {val}")
        slack = np.abs(S).sum() if negligible(self.ps[i], S) else 1e-9 * scale
        need(val >= lo - slack, "worse",
             f"{what}: stability {val} of {cl} is lower than {lo} of the start")
        e = O.differ(matrix(c), S, 1e-9, 1e-12)
        need(e is None, "changed", f"{what}: covariance of the clustering: {e}")
        self.probe("judged")
        return cl, val

    def merges(self, op, what):
        """Merging two connected clusters of the result does not help (no move is without gain here)."""
        p = generic(self.ps[op["p"]], op["seed"])
        if p is None:
            return
        S, con = dense_S(p), connected(p)
        if np.abs(S).max() < 2e-6 / len(S) ** 2:
            return
        c = self.make(p, op["start"], rnd_state=Stream(op["stream"], op["seed"]))
        self.quiet(c.find_louvain_clustering)
        cl = [set(x) for x in c.partition.cluster_list]
        need(O.is_partition(cl, len(S)), "partition", f"{what}: {cl} of {len(S)} nodes")
        if op["start"] is not None and C.key_of(cl) == C.key_of(self.clusters(len(S), op["start"])):
            return                       # the optimisation ends when no single node wants to leave the start
        for a in range(len(cl)):
            for b in range(a):
                x, y = sorted(cl[a]), sorted(cl[b])
                if con[np.ix_(x, y)].any() or con[np.ix_(y, x)].any():
                    g = S[np.ix_(x, y)].sum() + S[np.ix_(y, x)].sum()
                    need(g <= 1e-9 * np.abs(S).sum(), "optimum",
                         f"{what} with noise: merging {x} and {y} would add {g}")
        self.probe("optimum_judged")

    def progress(self, c, i, what):
        vals = [float(x) for x in c.stability_progress]
        scale = np.abs(self.S[i]).sum()
        for v, part in zip(vals, c.partition_progress):
            w = O.stability(self.S[i], part.cluster_list)
            need(abs(v - w) <= 1e-9 * scale + 1e-12, "progress", f"{what}: progress {v}, partition has {w}")
        zero = negligible(self.ps[i], self.S[i])
        need(zero or all(b >= a - 1e-9 * scale for a, b in zip(vals, vals[1:])), "progress",
             f"{what}: stability decreases: {vals}")

    def same(self, key, cl, what):
        k = C.key_of(cl)
        if key in self.known:
            need(self.known[key] == k, "seed", f"{what}: {k}, the same request gave {self.known[key]} before")
            self.probe("repeated")
        self.known[key] = k

    def run(self, j, op):
        what = f"operation {j} ({op['op']}, {self.ps[op['p']]['kind']})"
        getattr(self, "do_" + op["op"])(op, what)
        self.unchanged(what)

    def opts(self, op):
        kw = {}
        if op["limits"]:
            kw["n_meta_iter_max"], kw["n_sub_iter_max"] = op["limits"]
        return kw

    def disturb(self, op):
        """Other users of random numbers."""
        if op["perturb"] == 1:
            np.random.seed(op["seed"] % 1000)
        elif op["perturb"] == 2:
            np.random.rand(3)

    def do_find(self, op, what):
        i, p = op["p"], self.ps[op["p"]]
        between = op["turns"][1]          # other users come before or after the creation
        if not between:
            self.disturb(op)
        kw = self.opts(op)
        if op["stream"]:
            c = self.make(p, op["start"], rnd_state=Stream(op["stream"], op["seed"]))
        elif op["how"]:
            c = self.make(p, op["start"], rnd_seed=op["seed"])
        else:
            c = self.make(p, op["start"])
            kw["rnd_seed"] = op["seed"]
        if between:
            self.disturb(op)
        lo = self.start_value(i, op["start"])
        self.views(c, i, what + " at the start")
        if op["progress"]:
            kw["save_progress"] = True
        _, err, fired = self.call(c.find_louvain_clustering, **kw)
        if err is not None:
            need(fired, "fails", f"{what} fails without a fault: {err!r}")
            self.views(c, i, what + " after an interrupt")
            self.probe("interrupted")
            self.last[i] = c
            return
        cl, val = self.judge(c, i, lo, what)
        if op["progress"]:
            self.progress(c, i, what)
        if not op["limits"] and op["turns"][2]:
            self.merges(op, what)
        key = (i, repr(op["start"]), op["stream"], op["seed"], repr(op["limits"]))
        self.same(key, cl, what)
        self.last[i] = c
        # the same request again
        if op["turns"][0]:
            self.disturb(dict(op, perturb=1 + op["turns"][1]))
            d = self.make(p, op["start"], **({"rnd_state": Stream(op["stream"], op["seed"])}
                                                   if op["stream"] else {"rnd_seed": op["seed"]}))
            self.quiet(d.find_louvain_clustering, **self.opts(op))
            self.same(key, self.judge(d, i, lo, what + " repeated")[0], what + " repeated")

    def do_again(self, op, what):
        """Continue with an object that was used before."""
        i = op["p"]
        c = self.last.get(i)
        if c is None:
            return self.do_find(op, what)
        lo = O.stability(self.S[i], c.source_part.cluster_list if hasattr(c, "source_part")
                         else c.partition.cluster_list)
        _, err, fired = self.call(c.find_louvain_clustering, rnd_seed=op["seed"], **self.opts(op))
        if err is not None:
            need(fired, "fails", f"{what} fails without a fault: {err!r}")
            self.views(c, i, what + " after an interrupt")
            self.probe("interrupted")
            return
        self.judge(c, i, lo, what)

    def do_together(self, op, what):
        """Two clusterings advance in turns; each gives what it gives alone."""
        jobs = []
        for x, i in enumerate((op["p"], op["q"])):
            start = op["start"] if size(self.ps[i]) == size(self.ps[op["p"]]) else None
            jobs.append((i, start, (op["seed"] + 17 * x) % 2 ** 31))
        alone = []
        for i, start, seed in jobs:
            c = self.make(self.ps[i], start, rnd_state=Stream(0, seed))
            self.quiet(c.find_louvain_clustering)
            alone.append(C.key_of(c.partition.cluster_list))
        cs = []
        turns = Turns(op["turns"], len(jobs))
        for x, (i, start, seed) in enumerate(jobs):
            cs.append(self.make(self.ps[i], start,
                                 rnd_state=Stream(0, seed, lambda x=x: turns.give(x))))
        shim.CL.call("point", "op")
        shim.disarm()
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            errs = turns.go([c.find_louvain_clustering for c in cs])
        shim.CL.call("point", "faults")
        shim.disarm()
        need(not any(errs), "fails", f"{what}: {errs}")
        for x, (i, start, seed) in enumerate(jobs):
            cl, _ = self.judge(cs[x], i, self.start_value(i, start), f"{what} {x}")
            need(C.key_of(cl) == alone[x], "together", f"{what}: {C.key_of(cl)}, alone {alone[x]}")
        self.probe("switches_between_clusterings" if turns.switched else "together")

    def do_parts(self, op, what):
        """Partitions made from the same clusters, and clusterings that use them, are moved on their own."""
        from flowstab.network_clustering import Partition
        i = op["p"]
        n = size(self.ps[i])
        start = op["start"] or ("list", [[k] for k in range(n)])
        kind, v = self.own(start)
        name = "cluster_list" if kind == "own" else "node_to_cluster_dict"
        c = self.make(self.ps[i], start, rnd_seed=op["seed"])
        parts = [c.partition] + [Partition(n, **{name: v}) for _ in range(2)]
        model = [{k: j for j, x in enumerate(q.cluster_list) for k in x} for q in parts]
        for q in parts:
            need(O.is_partition(list(q.cluster_list), n), "partition", f"{what}: {q.cluster_list} from {v}")
        rng = np.random.RandomState(op["seed"])
        for step in range(2 + op["repeat"] * 3):
            x = rng.randint(len(parts))
            q, m = parts[x], model[x]
            if rng.rand() < 0.15:
                self.quiet(q.remove_empty_clusters)
            else:
                node, to = int(rng.randint(n)), int(rng.randint(len(q.cluster_list)))
                there = set(q.cluster_list[to])
                self.quiet(q.move_node, node, to)
                m[node] = m[min(there)] if there else n + step
            for y, (q, m) in enumerate(zip(parts, model)):
                w = f"{what}: partition {y} after step {step} on {x}"
                cl = [set(z) for z in q.cluster_list if z]
                need(O.is_partition(cl, n), "partition", f"{w}: {q.cluster_list} of {n} nodes")
                want = [[k for k in m if m[k] == z] for z in set(m.values())]
                need(C.key_of(cl) == C.key_of(want), "views", f"{w}: {cl}, it should be {want}")
                d = q.node_to_cluster_dict
                need(sorted(d) == list(range(n)) and all(k in q.cluster_list[d[k]] for k in d), "views",
                     f"{w}: clusters {q.cluster_list} but nodes {d}")
                need(q.get_num_clusters(non_empty=True) == len(cl), "views", f"{w}: {q.get_num_clusters(True)}")
                for H in (q.get_indicator(), q.get_indicator(sparse=False)):
                    H = np.asarray(O.plain(H))
                    want = np.zeros((n, len(q.cluster_list)))
                    for k in d:
                        want[k, d[k]] = 1
                    need(H.shape == want.shape and (H == want).all(), "views", f"{w}: indicator {H.tolist()}")
        self.quiet(parts[0].remove_empty_clusters)
        self.judge(c, i, -np.inf, what)
        self.probe("moved_by_hand")

    def do_multi(self, op, what):
        from flowstab.network_clustering import run_multi_louvain
        i, p = op["p"], self.ps[op["p"]]
        c = self.make(p, None, rnd_seed=op["seed"])
        r, err, fired = self.call(run_multi_louvain, c, op["repeat"])
        if err is not None:
            need(fired, "fails", f"{what} fails without a fault: {err!r}")
            self.probe("interrupted")
            return
        loops, cls, stabs, seeds = r
        need(len(loops) == len(cls) == len(stabs) == len(seeds) == op["repeat"], "multi",
             f"{what}: {len(loops)}, {len(cls)}, {len(stabs)}, {len(seeds)} results")
        need(len(set(seeds)) == op["repeat"], "multi", f"{what}: seeds {seeds}")
        n = size(p)
        scale = np.abs(self.S[i]).sum()
        for cl, v, seed in zip(cls, stabs, seeds):
            need(O.is_partition(cl, n), "partition", f"{what}: {cl} of {n} nodes")
            need(abs(O.stability(self.S[i], cl) - float(v)) <= 1e-9 * scale + 1e-12, "stability",
                 f"{what}: {v} for {cl}")
            d = self.make(p, None, rnd_seed=seed)
            self.quiet(d.find_louvain_clustering)
            need(C.key_of(d.partition.cluster_list) == C.key_of(cl), "seed",
                 f"{what}: seed {seed} gives {C.key_of(d.partition.cluster_list)}, not {C.key_of(cl)}")
        need(C.key_of(c.partition.cluster_list) == C.key_of([{k} for k in range(n)]), "changed",
             f"{what}: the given clustering has changed")


class Turns:
    """Exactly one thread runs; turns are given at every draw of random numbers."""

    def __init__(self, order, n):
        self.order, self.n, self.pos = order, n, 0
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.switched = 0
        self.done = threading.Semaphore(0)

    def give(self, me):
        nxt = self.order[self.pos % len(self.order)]
        self.pos += 1
        if nxt != me and nxt in self.alive:
            self.switched += 1
            self.locks[nxt].release()
            self.locks[me].acquire()

    def go(self, fns):
        errs = [None] * self.n

        def body(x):
            self.locks[x].acquire()
            try:
                fns[x]()
            except BaseException as e:
                errs[x] = repr(e)
            self.alive.discard(x)
            if self.alive:
                self.locks[min(self.alive)].release()
            else:
                self.done.release()
        ts = [threading.Thread(target=body, args=(x,), daemon=True) for x in range(self.n)]
        for t in ts:
            t.start()
        self.locks[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        return errs


def matrix(c):
    S = c._S
    return np.asarray(O.plain(S), dtype=float)


def negligible(p, S):
    """Zero up to the precision of the library: all nodes may then be put into one cluster."""
    if np.abs(S).max() < 1e-6 / len(S) ** 2:
        return True
    if p["kind"] != "sparse":
        return False
    PT = p["S"] if p["S"] is not None else p["p1"][:, None] * p["T"]
    return bool((np.abs(S) <= 1.1 * (1e-8 + 1e-5 * np.abs(PT - S))).all())


def generic(p, seed):
    """The problem with a little noise, so that no two moves are equally good."""
    if p["kind"].startswith("static"):
        return None
    rng = np.random.RandomState(seed % 2 ** 31)
    n = size(p)
    e = 1 + 1e-3 * rng.rand(n, n)
    if p["kind"] == "free":
        return dict(p, S=(p["S"] + 1e-3 / n ** 2 * rng.rand(n, n)))
    if p["kind"] == "sparse":
        PT = p["S"] if p["S"] is not None else p["p1"][:, None] * p["T"]
        return dict(p, S=PT * e)
    S = dense_S(p)
    return dict(p, S=S * e + 1e-4 * np.abs(S).max() * rng.rand(n, n))


def history(problems, ops):
    shim.disarm()
    s = Session(problems)
    for j, op in enumerate(ops):
        s.run(j, op)
    return s.counts
