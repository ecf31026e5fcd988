"""Histories of computations on one temporal network, judged against dense mathematics."""
import contextlib
import copy
import io
import os
import warnings

import numpy as np

from . import oracles as O
from . import shim
from . import workloads as W
from .session import Bad, need

KINDS = ["lapl", "inter", "lin", "T", "T_lin", "flow", "static", "save", "restart"]


# ---------------------------------------------------------------- generation

def gen_case(w):
    inst = w.flag(0.25)
    if inst:
        ev = gen_inst(w)
    else:
        ev = W.gen_events(w, 5, 9)
    merge = not inst and w.flag(0.15)
    raw = W.overlapping(w, ev) if merge else ev
    return {"inst": inst, "events": O.merged(raw) if merge else ev, "raw": raw, "merge": merge, "taus": W.gen_taus(w),
            "mixed": w.flag(0.4), "sparse": w.flag(0.5), "how": W.HOWS[w.choose(len(W.HOWS), 0.5)]}


def gen_inst(w):
    n = 3 + w.choose(3)
    times = []
    t = [0.0, 12.5][w.choose(2)]
    for _ in range(3 + w.choose(5)):
        times.append(t)
        t += [1.0, 0.5, 2.25][w.choose(3)]
    ev = [(i, i + 1, times[w.choose(len(times))], None) for i in range(n - 1)]
    for t in times:
        for _ in range(1 + w.choose(2)):
            a = w.choose(n)
            b = (a + 1 + w.choose(n - 1)) % n
            ev.append((a, b, t, None))
    ev.sort(key=lambda e: e[2])
    return ev


def gen_ops(f, case, n, narrow=False):
    net = dense(case)
    ts = net.times
    out = []
    # each history has its own mixture of operations and few different requests
    weights = [x * [1, 0.25, 3][f.choose(3)] for x in [4, 5, 4, 4, 3, 3, 1, 1.5, 1]]
    ntau, nts = [4, 2, 3][f.choose(3)], [3, 1, 2][f.choose(3)]
    pfix = [0.15, 0.0, 0.5][f.choose(3)]
    if narrow or f.flag(0.2):       # few requests, made again and again
        ntau, nts, pfix = 1, 1 + f.choose(2), 0.4
    for _ in range(n):
        i = f.choose(len(ts) - 1)
        j = i + 1 + f.choose(len(ts) - 1 - i)
        x = [0.0, 0.4, 0.8][f.choose(3, 0.5)]
        a = ts[i] + x * (ts[i + 1] - ts[i])
        b = ts[j] + (x * (ts[j + 1] - ts[j]) if j + 1 < len(ts) else [0.0, 3.0][f.choose(2, 0.8)])
        out.append({"op": KINDS[f.weighted(weights)],
                    "a": [None, a][f.choose(2)], "b": [None, b][f.choose(2)],
                    "tau": f.choose(ntau), "t_s": [10.0, 2.0, 4.5][f.choose(nts)],
                    "sparse": f.flag(0.5) if case["mixed"] else case["sparse"],
                    "dense": f.flag(0.5), "fix": f.flag(pfix), "adj": f.flag(0.3),
                    "rev": f.flag(0.5), "inter": f.flag(0.5), "csr": f.flag(0.3),
                    "tol": [None, 1e-10, 0.0137, 0.11][f.weighted([7, 1, 1, 1])],
                    "src": f.choose(3), "grid": f.choose(4),
                    "pts": [(f.choose(64), f.choose(3)) for _ in range(1 + f.choose(4))], "p1": f.flag(0.25),
                    "seed": f.choose(50)})
    return out


def windows(times, k0, k1, grid, rev):
    """The windows of the integrals for the times of a grid: up to the last event time passed."""
    ks = {min([k for k in range(k0, k1 + 1) if times[k] >= t] + [k1]) if rev else
          max([k for k in range(k0, k1 + 1) if times[k] <= t] + [k0]) for t in grid}
    return [(k, k1) for k in sorted(ks - {k1})[::-1]] if rev else [(k0, k) for k in sorted(ks - {k0})]


def dense(case):
    return (O.DenseInstNet if case["inst"] else O.DenseNet)(case["events"])


def make(case):
    if case["inst"]:
        return W.built(case["events"], case["how"], inst=True)
    return W.built(case["raw"], case["how"], merge_overlapping_events=case["merge"])


# ------------------------------------------------------------------ history

class Session:
    def __init__(self, case, name="data/net"):
        os.makedirs("data", exist_ok=True)
        self.name = name
        self.case, self.d = case, dense(case)
        self.net = make(case)
        self.counts = {}
        self.asked = {}              # entry -> list of options that may have produced it
        self.windows = []            # windows that may be current
        self.cache = {}
        self.refs = []               # rounded products
        self.stored = None           # what a restart has to bring back

    def probe(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def call(self, fn, *args, **kw):
        shim.CL.call("point", "op")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    val, err = fn(*args, **kw), None
            except (Exception, KeyboardInterrupt) as e:
                val, err = None, e
            finally:
                shim.disarm()
        fired = shim.CL.call("point", "faults")
        shim.disarm()
        return val, err, fired

    def window(self, a, b):
        k0 = self.d.floor(a) if a is not None else 0
        k1 = self.d.floor(b) if b is not None else len(self.d.times) - 1
        return k0, k1

    def lam(self, op):
        if op["tau"] == 3:
            return None, 1 / np.median(np.diff(self.d.times))
        return 1 / self.case["taus"][op["tau"]], 1 / self.case["taus"][op["tau"]]

    def step(self, k, lam, t_s, fix):
        """One inter-event matrix, computed independently."""
        key = (k, lam, t_s, fix)
        if key not in self.cache:
            unit, self.d.unit = self.d.unit, self.d.unit or fix
            self.cache[key] = self.d.inter(k, lam) if t_s is None else self.d.lin(k, lam, t_s)
            self.d.unit = unit
        return self.cache[key]

    def steps(self, win, lam, t_s, fix):
        return [self.step(k, lam, t_s, fix) for k in range(*win)]

    def products(self, win, lam, t_s, opts):
        if len(opts) > 3:
            return self.refs[opts[3]]
        fix, rev, inter = opts
        M = self.steps(win, lam, t_s, fix)
        if rev:
            M = M[::-1]
        T, out = np.eye(self.d.n), []
        for m in M:
            T = T @ m
            out.append(T)
        return out if inter else [T]

    # ------------------------------------------------------------ judging

    def current(self):
        n = self.net
        return (n._k_start_laplacians, n._k_stop_laplacians)

    def judge(self, what):
        """Everything the network shows is what one of the requests has asked for."""
        net, d = self.net, self.d
        if not hasattr(net, "laplacians"):
            need(not any(getattr(net, a, None) for a in ("inter_T", "inter_T_lin", "T", "T_lin")), "orphan",
                 f"{what}: transition matrices without Laplacians")
            return
        win = self.current()
        need(win in self.windows, "window", f"{what}: window {win}, asked for {self.windows}")
        need(net._t_start_laplacians == d.times[win[0]] and net._t_stop_laplacians == d.times[win[1]],
             "window", f"{what}: times {net._t_start_laplacians}, {net._t_stop_laplacians} of window {win}")
        self.same("laplacians", net.laplacians, [d.lap(k) for k in range(*win)], what)
        if hasattr(net, "adjacencies"):
            self.same("adjacencies", net.adjacencies, [d.A[k] for k in range(*win)], what)
        for lam, M in getattr(net, "inter_T", {}).items():
            self.entry(("inter", lam), M, lambda o: self.steps(win, lam, None, o), what)
        for lam, byts in getattr(net, "inter_T_lin", {}).items():
            for t_s, M in byts.items():
                self.entry(("lin", lam, t_s), M, lambda o: self.steps(win, lam, t_s, o), what)
        for lam, M in getattr(net, "T", {}).items():
            self.entry(("T", lam), M, lambda o: self.products(win, lam, None, o), what)
        for lam, byts in getattr(net, "T_lin", {}).items():
            for t_s, M in byts.items():
                self.entry(("T_lin", lam, t_s), M, lambda o: self.products(win, lam, t_s, o), what)

    def entry(self, key, got, make_want, what):
        ok = self.asked.get(key, [])
        need(ok, "invented", f"{what}: {key} was never asked for")
        M = got if isinstance(got, list) else [got]
        tol = max([o[1] for o in ok])
        errs = [O.differ(O.plain(M), O.plain(make_want(o[0])), max(1e-8, 100 * tol), max(1e-10, 100 * tol))
                for o in ok]
        need(any(e is None for e in errs), "matrix", f"{what}: {key} of window {self.current()}: {errs[-1]} "
                                                     f"(options {[o[0] for o in ok]})")
        self.asked[key] = [o for o, e in zip(ok, errs) if e is None]
        self.probe("matrices_judged")

    def same(self, name, got, want, what):
        e = O.differ(O.plain(list(got)), O.plain(want), 1e-9, 1e-10)
        need(e is None, "matrix", f"{what}: {name} of window {self.current()}: {e}")

    # --------------------------------------------------------- operations

    def ask(self, key, opts, tol=0.0):
        """A request that may or may not have been served yet."""
        self.asked.setdefault(key, []).append((opts, tol))

    def served(self, key, n=1):
        self.asked[key] = self.asked[key][-n:]

    def run(self, j, op):
        what = f"operation {j} ({op['op']})"
        getattr(self, "do_" + op["op"])(op, what)
        self.judge(what)

    def finish(self, err, fired, what):
        if err is not None:
            need(fired, "fails", f"{what} fails without a fault: {err!r}")
            self.probe("interrupted")
            return False
        self.probe("done")
        return True

    def new_window(self, win, ok):
        if ok:
            self.windows = [win]

    def do_lapl(self, op, what):
        win = self.window(op["a"], op["b"])
        self.windows.append(win)
        _, err, fired = self.call(self.net.compute_laplacian_matrices, t_start=op["a"], t_stop=op["b"],
                                  save_adjacencies=op["adj"])
        if self.finish(err, fired, what):
            self.windows = [win]
            need(hasattr(self.net, "laplacians") and self.current() == win, "window",
                 f"{what}: no Laplacians of window {win}")
            need(hasattr(self.net, "adjacencies") == op["adj"] or not op["adj"], "missing",
                 f"{what}: no adjacencies")
        else:
            self.windows = list(dict.fromkeys(self.windows))

    def implied(self, op):
        """Window of Laplacians that the operation has to compute itself."""
        if not hasattr(self.net, "laplacians"):
            win = self.window(op["a"], op["b"])
            self.windows.append(win)
            return win
        return None

    def do_inter(self, op, what):
        arg, lam = self.lam(op)
        win = self.implied(op)
        fix = op["fix"] and not self.case["inst"]
        kw = {"fix_tau_k": True} if fix else {}
        self.ask(("inter", lam), fix)
        _, err, fired = self.call(self.net.compute_inter_transition_matrices, lamda=arg, t_start=op["a"],
                                  t_stop=op["b"], use_sparse_stoch=op["sparse"], dense_expm=op["dense"], **kw)
        if self.finish(err, fired, what):
            if win:
                self.windows = [win]
            self.served(("inter", lam))
            need(lam in getattr(self.net, "inter_T", {}), "missing", f"{what}: nothing computed")
            self.asked = {k: v for k, v in self.asked.items()
                          if k[:2] != ("T", lam) or all(o[0][0] == fix for o in v)}    # else it has to go
            need(not (("T", lam) not in self.asked and lam in getattr(self.net, "T", {})), "stale",
                 f"{what}: product of other matrices is kept")

    def do_lin(self, op, what):
        arg, lam = self.lam(op)
        win = self.implied(op)
        fix = op["fix"] and not self.case["inst"]
        kw = {"fix_tau_k": True} if fix else {}
        key = ("lin", lam, op["t_s"])
        self.ask(key, fix)
        _, err, fired = self.call(self.net.compute_lin_inter_transition_matrices, lamda=arg, t_start=op["a"],
                                  t_stop=op["b"], t_s=op["t_s"], use_sparse_stoch=op["sparse"], **kw)
        if self.finish(err, fired, what):
            if win:
                self.windows = [win]
            self.served(key)
            need(op["t_s"] in getattr(self.net, "inter_T_lin", {}).get(lam, {}), "missing",
                 f"{what}: nothing computed")

    def do_T(self, op, what):
        _, lam = self.lam(op)
        known = lam in getattr(self.net, "inter_T", {})
        tol = op["tol"]
        if known:
            may = [o for o, _ in self.asked[("inter", lam)]]     # several after a failure
            coarse = (self.rounded(lam, op),) if tol and tol > 1e-9 else ()
            for o in may:
                self.ask(("T", lam), (o, op["rev"], op["inter"]) + coarse, 0.0 if coarse else tol or 0.0)
        _, err, fired = self.call(self.net.compute_transition_matrices, lamda=lam, reverse_time=op["rev"],
                                  save_intermediate=op["inter"], force_csr=op["csr"], tol=tol)
        if not known:
            need(err is not None, "order", f"{what}: products without inter-event matrices")
            return
        if self.finish(err, fired, what):
            self.served(("T", lam), len(may))
            need(lam in getattr(self.net, "T", {}), "missing", f"{what}: nothing computed")
            need(isinstance(self.net.T[lam], list) == op["inter"], "missing",
                 f"{what}: save_intermediate={op['inter']} gives {type(self.net.T[lam])}")

    def rounded(self, lam, op):
        """The product that a new network makes of the same inter-event matrices when it has to round."""
        ref = make(self.case)
        ref.inter_T = {lam: copy.deepcopy(self.net.inter_T[lam])}
        with contextlib.redirect_stdout(io.StringIO()):
            ref.compute_transition_matrices(lamda=lam, reverse_time=op["rev"], save_intermediate=op["inter"],
                                            force_csr=op["csr"], tol=op["tol"])
        T = ref.T[lam]
        self.refs.append(O.plain(T if isinstance(T, list) else [T]))
        return len(self.refs) - 1

    def do_T_lin(self, op, what):
        _, lam = self.lam(op)
        t_s = op["t_s"]
        known = t_s in getattr(self.net, "inter_T_lin", {}).get(lam, {})
        key = ("T_lin", lam, t_s)
        if known:
            may = [o for o, _ in self.asked[("lin", lam, t_s)]]
            for o in may:
                self.ask(key, (o, op["rev"], op["inter"]))
        _, err, fired = self.call(self.net.compute_lin_transition_matrices, lamda=lam, t_s=t_s,
                                  reverse_time=op["rev"], save_intermediate=op["inter"])
        if not known:
            need(err is not None, "order", f"{what}: products without inter-event matrices")
            return
        if self.finish(err, fired, what):
            self.served(key, len(may))
            need(t_s in getattr(self.net, "T_lin", {}).get(lam, {}), "missing", f"{what}: nothing computed")
            need(isinstance(self.net.T_lin[lam][t_s], list) == op["inter"], "missing",
                 f"{what}: save_intermediate={op['inter']} gives {type(self.net.T_lin[lam][t_s])}")

    def do_static(self, op, what):
        d = self.d
        a = op["a"] if op["a"] is not None else d.times[0]
        b = op["b"] if op["b"] is not None else max(e[3] for e in d.events)
        A, err, fired = self.call(self.net.compute_static_adjacency_matrix, start_time=op["a"],
                                  end_time=op["b"])
        if self.finish(err, fired, what):
            e = O.differ(O.plain(A), d.static(a, b), 1e-9, 1e-9)
            need(e is None, "static", f"{what} {a}..{b}: {e}")

    def do_save(self, op, what):
        state = (hasattr(self.net, "laplacians"), list(self.windows), copy.deepcopy(self.asked), self.shown())
        _, err, fired = self.call(self.net.save, self.name)
        if self.finish(err, fired, what):
            self.stored = state
        elif self.stored is None:
            need(not os.path.exists(self.name + ".pickle"), "failed", f"{what}: a failed save leaves a file")

    def do_restart(self, op, what):
        """The process ends; another one goes on with what was saved, or from the events."""
        if self.stored is None:
            self.net = make(self.case)
            self.asked, self.windows = {}, []
            self.probe("new_network")
            return
        net, err, fired = self.call(type(self.net).load, self.name)
        if not self.finish(err, fired, what):
            return
        self.net = net
        lapl, self.windows, self.asked, shown = copy.deepcopy(self.stored)
        need(hasattr(net, "laplacians") == lapl and self.shown() == shown, "restart",
             f"{what}: {self.shown()} instead of {shown}")
        self.probe("restarted")

    def shown(self):
        n = self.net
        return {a: sorted(map(float, getattr(n, a, {}))) for a in ("inter_T", "inter_T_lin", "T", "T_lin")}

    def do_flow(self, op, what):
        """Flow integral from the matrices that are there."""
        from flowstab.network_clustering import FlowIntegralClustering
        net, d = self.net, self.d
        _, lam = self.lam(op)
        lin = op["fix"]
        t_s = op["t_s"] if lin else None
        have = getattr(net, "inter_T_lin", {}).get(lam, {}).get(t_s) if lin else \
            getattr(net, "inter_T", {}).get(lam)
        if not have:
            return
        o = self.asked[("lin", lam, t_s) if lin else ("inter", lam)]
        if len({x[0] for x in o}) != 1:
            return
        fix = o[0][0]
        k0, k1 = self.current()
        rev = op["rev"]
        kw = {"time_list": list(net.times[k0:k1 + 1]), "reverse_time": rev}
        T = getattr(net, "T_lin", {}).get(lam, {}).get(t_s) if lin else getattr(net, "T", {}).get(lam)
        to = self.asked.get(("T_lin", lam, t_s) if lin else ("T", lam), [])
        if op["src"] == 1 and isinstance(T, list) and len(to) == 1 and to[0][0] == (fix, rev, True):
            kw["T_list"] = T
        elif op["src"] == 2:
            kw["T_inter_list"] = [np.asarray(O.plain(M)) for M in have]
        else:
            kw["T_inter_list"] = have
        p1 = None
        if op["p1"]:
            p1 = 1.0 + np.arange(d.n) % 3 - (op["seed"] % 3 == 0)      # also nodes where nobody starts
            if op["seed"] % 5 == 1 and d.n > 2:          # the first node has exactly its uniform share
                p1[0] = p1[1:].mean()
            p1 = p1 / p1.sum()
            kw["p1"] = p1.copy()
        wins = [(k0, k1)]
        if op["grid"] and k1 - k0 >= 2:
            km = (k0 + k1) // 2
            # a time inside an interval counts from the last event time passed
            x = 0.3 if op["grid"] == 2 else 0.0
            t = d.times[km] + (x * (d.times[km + 1] - d.times[km]) if not rev else
                               -x * (d.times[km] - d.times[km - 1]))
            kw["integral_time_grid"] = [d.times[k0], t, d.times[k1]]
            wins = [(km, k1), (k0, k1)] if rev else [(k0, km), (k0, k1)]
        if op["grid"] == 3:               # any times, also between events and outside of the window
            ts, tm = [], d.times
            for k, x in op["pts"]:
                k = k0 + k % (k1 - k0 + 1)
                h = (tm[k + 1] - tm[k] if k < k1 else 1.0) if x == 1 else \
                    (tm[k] - tm[k - 1] if k > k0 else 1.0) if x == 2 else 0.0
                ts.append(tm[k] + h * [0, 0.4, -0.4][x])
            ts = sorted(ts)[::-1 if op["seed"] % 2 else 1]
            kw["integral_time_grid"] = ts
            wins = windows(tm, k0, k1, ts, rev)
        fc, err, fired = self.call(FlowIntegralClustering, **kw)
        if not self.finish(err, fired, what):
            return
        need(len(fc.I_list) == len(wins), "integral", f"{what}: {len(fc.I_list)} integrals for {wins}")
        p = np.ones(d.n) / d.n if p1 is None else p1
        for I, (a, b) in zip(fc.I_list, wins):
            ks = list(range(a, b))[::-1 if rev else 1]
            T, tot, S = np.eye(d.n), 0.0, np.zeros((d.n, d.n))
            for k in ks:
                T = T @ self.step(k, lam, t_s, fix)
                pk = p @ T
                pk[pk == 0] = 1
                dt = d.times[k + 1] - d.times[k]
                S += (T / pk[None, :]) @ T.T * dt
                tot += dt
            S = p[:, None] * S * p[None, :] / tot - np.outer(p, p)
            e = O.differ(np.asarray(O.plain(I)), S, 1e-6, 1e-8)
            need(e is None, "integral", f"{what}: window {(a, b)} rev={rev}: {e}")
        self.probe("integrals_judged")
        if not wins:
            return
        if not fc.is_nparray and shim.without_compiled():
            return                        # sparse clusterings need the compiled functions
        k = op["seed"] // 2 % len(wins)
        _, err, fired = self.call(fc.find_louvain_clustering, k=k, rnd_seed=op["seed"])
        if not self.finish(err, fired, what):
            _, err, fired = self.call(fc.find_louvain_clustering, k=k, rnd_seed=op["seed"])
            if not self.finish(err, fired, what):
                return
        parts = [set(c) for c in fc.partition[k].cluster_list]
        need(O.is_partition(parts, d.n), "partition", f"{what}: {parts} of {d.n} nodes")
        S = np.asarray(O.plain(fc.I_list[k]), dtype=float)
        if op["p1"] == 0 and fc.is_nparray:
            from .clusterings import key_of
            from .guided import louvain
            a, b = wins[k]
            T = np.eye(d.n)
            for x in list(range(a, b))[::-1 if rev else 1]:
                T = T @ self.step(x, lam, t_s, fix)
            rng = np.random.RandomState(3)
            keys = set()
            for eps in (0, 1e-12, -1e-12, 1e-11):
                e = rng.rand(d.n, d.n) * eps
                keys.add(louvain(S * (1 + e + e.T), op["seed"], T))
            if len(keys) == 1:
                need(key_of(parts) in keys, "partition", f"{what}: partition {key_of(parts)} of integral {k}, "
                                                         f"seed {op['seed']} gives {keys}")
                self.probe("seed_reproduced")
        got = fc.clustering[k].compute_stability()
        e = O.differ(float(got), O.stability(S, parts), 1e-6, 1e-9)
        need(e is None, "stability", f"{what}: stability {e}")


def history(case, ops):
    s = Session(case)
    shim.disarm()
    for j, op in enumerate(ops):
        s.run(j, op)
    return s.counts
