"""Oracles: independent mathematics, reading of result files, comparison."""
import gzip
import os
import pickle

import numpy as np
import pandas as pd
import scipy.linalg
import scipy.sparse as sp

IGNORED = {"_compute_times", "inargs"}


# --------------------------------------------------------- reading and comparing

def plain(x):
    """Numbers, strings, dense arrays, lists and dicts only."""
    from flowstab.sparse_stoch_mat import SparseAutocovMat, SparseStochMat
    if isinstance(x, SparseStochMat):
        return np.asarray(x.tocsr().toarray(), dtype=float)
    if isinstance(x, SparseAutocovMat):
        return dense_autocov(x)
    if sp.issparse(x):
        return np.asarray(x.toarray(), dtype=float)
    if isinstance(x, np.ndarray):
        return np.asarray(x, dtype=float) if x.dtype.kind in "fiub" else x.tolist()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if k not in IGNORED}
    if isinstance(x, pd.DataFrame):
        return {"columns": [str(c) for c in x.columns], "index": plain(list(x.index)),
                **{str(c): plain(list(x[c])) for c in x.columns}}
    if isinstance(x, (pd.Series, pd.Index)):
        return plain(list(x))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    return x


def dense_autocov(S):
    n = S.PT.shape[0]
    PT = S.PT.toarray()
    p1 = np.asarray(S.p1, dtype=float) * np.ones(n)
    p2 = np.asarray(S.p2, dtype=float) * np.ones(n)
    return PT - np.outer(p1, p2)


def differ(a, b, rtol=1e-6, atol=1e-9, path=""):
    """None if equal up to rounding, else a description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            return f"{path}: {type(a).__name__} and {type(b).__name__}"
        if x.shape != y.shape:
            return f"{path}: shapes {x.shape} and {y.shape}"
        if x.size == 0:
            return None
        if np.isnan(x).any() != np.isnan(y).any():
            return f"{path}: nan"
        with np.errstate(all="ignore"):
            d = np.abs(x - y)
            bad = d > atol + rtol * max(np.nanmax(np.abs(x)), np.nanmax(np.abs(y)))
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), -1, d))), d.shape)
            return f"{path}{list(map(int, i))}: {x[i]!r} and {y[i]!r}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = sorted(map(str, a)), sorted(map(str, b))
        if ka != kb:
            return f"{path}: keys {ka} and {kb}"
        bm = {str(k): v for k, v in b.items()}
        for k, v in a.items():
            r = differ(v, bm[str(k)], rtol, atol, f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, rtol, atol, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return f"{path}: {a!r} and {b!r}"
    if a is None and b is None:
        return None
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} and {type(b).__name__}"
    try:
        return None if bool(a == b) else f"{path}: {str(a)[:60]} and {str(b)[:60]}"
    except Exception:
        return None


def read_result(path):
    """Content of a result file as a user of the library gets it."""
    from flowstab.temporal_network import ContTempNetwork
    name = os.path.basename(path)
    if "inter_trans_mat" in name:
        return plain(ContTempNetwork.load_inter_T(path))
    if "trans_mat" in name:
        return plain(ContTempNetwork.load_T(path))
    if name.endswith(".gz"):
        with gzip.open(path, "rb") as f:
            return plain(pickle.load(f))
    with open(path, "rb") as f:
        return plain(pickle.load(f))


def listing(d):
    """Names that look like results: not hidden, with a suffix of result files."""
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d)
                  if not f.startswith(".") and f.endswith((".pickle", ".gz", ".hickle")))


def read_dir(d):
    return {f: read_result(os.path.join(d, f)) for f in listing(d)}


# -------------------------------------------------------------- mathematics

def merged(events):
    """Overlapping contacts of a pair, in either direction, joined to one contact."""
    out = []
    for a, b, s, e in sorted(events, key=lambda ev: (ev[2], ev[3])):
        for x in out:
            if {x[0], x[1]} == {a, b} and s < x[3]:
                x[3] = max(x[3], e)
                break
        else:
            out.append([a, b, s, e])
    return [tuple(x) for x in out]


class DenseNet:
    """Random walk on a contact sequence, computed directly and densely."""

    def __init__(self, events):
        nodes = sorted({e[0] for e in events} | {e[1] for e in events})
        idx = {v: i for i, v in enumerate(nodes)}
        self.n = len(nodes)
        self.events = [(idx[a], idx[b], s, e) for a, b, s, e in events]
        self.times = sorted({e[2] for e in events} | {e[3] for e in events})
        self.A = []
        for k in range(len(self.times) - 1):
            t = self.times[k]
            A = np.zeros((self.n, self.n))
            for a, b, s, e in self.events:
                if s <= t < e:
                    A[a, b] = A[b, a] = 1.0
            self.A.append(A)

    def floor(self, t):
        """Index of the last event time not after t (the first one if none)."""
        k = 0
        for i, x in enumerate(self.times):
            if x <= t:
                k = i
        return k

    def walk(self, k):
        """Discrete-time transition matrix while A[k] holds."""
        A = self.A[k].copy()
        d = A.sum(1)
        for i in range(self.n):
            if d[i] == 0:
                A[i, i] = 1.0
        return A / A.sum(1)[:, None]

    def lap(self, k):
        return np.eye(self.n) - self.walk(k)

    unit = False                      # all steps have unit duration

    def tau(self, k):
        return 1.0 if self.unit else self.times[k + 1] - self.times[k]

    def inter(self, k, lam):
        return scipy.linalg.expm(-self.tau(k) * lam * self.lap(k))

    def stationary(self, k):
        """Each component mixes to its degree distribution."""
        A = self.A[k].copy()
        for i in range(self.n):
            if A[i].sum() == 0:
                A[i, i] = 1.0
        comp = list(range(self.n))
        changed = True
        while changed:
            changed = False
            for i in range(self.n):
                for j in range(self.n):
                    if A[i, j] and comp[i] != comp[j]:
                        m = min(comp[i], comp[j])
                        comp[i] = comp[j] = m
                        changed = True
        deg = (A > 0).sum(1).astype(float)
        P = np.zeros((self.n, self.n))
        for i in range(self.n):
            mem = [j for j in range(self.n) if comp[j] == comp[i]]
            tot = sum(deg[j] for j in mem)
            for j in mem:
                P[i, j] = deg[j] / tot
        return P

    def lin(self, k, lam, t_s):
        t = self.tau(k) * lam
        W = self.walk(k)
        if t <= 1:
            return (1 - t) * np.eye(self.n) + t * W
        Pi = self.stationary(k)
        if t < t_s:
            return ((t_s - t) * W + (t - 1) * Pi) / (t_s - 1)
        return Pi

    def step(self, k, lam, lin, t_s):
        return self.lin(k, lam, t_s) if lin else self.inter(k, lam)

    def steps(self, k0, k1, lam, lin=False, t_s=10.0):
        """Inter-event matrices of the window; identity for an empty one."""
        if k1 <= k0:
            return [np.eye(self.n)]
        return [self.step(k, lam, lin, t_s) for k in range(k0, k1)]

    @staticmethod
    def product(mats, reverse=False):
        T = np.eye(mats[0].shape[0])
        for M in (mats[::-1] if reverse else mats):
            T = T @ M
        return T

    def itpt(self, k0, k1, lam, lin=False, t_s=10.0, reverse=False, p1=None):
        """int T(t1,t) P(t)^-1 T(t1,t)^T dt over the window, and its duration."""
        ks = list(range(k0, k1))
        if reverse:
            ks = ks[::-1]
        T = np.eye(self.n)
        p1 = np.ones(self.n) / self.n if p1 is None else p1
        out = np.zeros((self.n, self.n))
        tot = 0.0
        for k in ks:
            T = T @ self.step(k, lam, lin, t_s)
            p = p1 @ T
            p[p == 0] = 1
            dt = self.times[k + 1] - self.times[k]
            out += (T / p[None, :]) @ T.T * dt
            tot += dt
        return out, tot

    def cov_integral(self, k0, k1, lam, lin=False, t_s=10.0, reverse=False):
        """Covariance integral with uniform initial distribution."""
        I, tot = self.itpt(k0, k1, lam, lin, t_s, reverse)
        p = 1.0 / self.n
        return I * p * p / tot - p * p

    def static(self, t0, t1):
        A = np.zeros((self.n, self.n))
        for a, b, s, e in self.events:
            d = min(e, t1) - max(s, t0)
            if s < t1 and e > t0:
                A[a, b] += d
                A[b, a] += d
        return A


class DenseInstNet(DenseNet):
    """Instantaneous events: each lasts until the next event time, all steps count as one."""
    unit = True

    def __init__(self, events):
        ts = sorted({e[2] for e in events})
        end = {t: ts[i + 1] if i + 1 < len(ts) else t + 1 for i, t in enumerate(ts)}
        super().__init__([(e[0], e[1], e[2], end[e[2]]) for e in events])


def sym_from_triu(M):
    return M + M.T - np.diag(np.diag(M))


def stability(S, clusters):
    """Sum of the covariance over pairs of nodes of the same cluster."""
    return float(sum(S[np.ix_(sorted(c), sorted(c))].sum() for c in clusters))


def is_partition(clusters, n):
    seen = sorted(x for c in clusters for x in c)
    return seen == list(range(n)) and all(len(c) > 0 for c in clusters)


def nvi(c1, c2, n):
    """Normalised variation of information of two partitions."""
    h = 0.0
    for a in c1:
        for b in c2:
            m = len(set(a) & set(b))
            if m:
                p, q, r = len(a) / n, len(b) / n, m / n
                h -= r * (np.log(r / p) + np.log(r / q))
    return h / np.log(n)
