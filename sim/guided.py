"""Histories of guided analyses (FlowStability and other state-tracked classes)."""
import contextlib
import io
import warnings

import numpy as np

from . import clusterings as C
from . import netops as N
from . import oracles as O
from . import shim
from . import workloads as W
from .session import Bad, need

STEPS = ["set_temporal_network", "compute_laplacian_matrices", "compute_inter_transition_matrices",
         "set_flow_clustering", "find_louvain_clustering"]
SHORT = {"lapl": STEPS[1], "inter": STEPS[2], "flow": STEPS[3], "louvain": STEPS[4]}
LEVEL_OF = {"temporal_network": 1, "t_start": 1, "t_stop": 1, "time_scale": 2, "time_direction": 3}


# ---------------------------------------------------------------- generation

def gen_case(w):
    """Networks and values that one history uses."""
    inst = [w.flag(0.15) for _ in range(2)]
    nets = [N.gen_inst(w) if i else W.gen_events(w, 5, 8) for i in inst]
    return {"nets": nets, "inst": inst, "taus": W.gen_taus(w),
            "sparse": [w.flag(0.5) for _ in nets]}


def gen_window(f, case, net):
    """Two times with at least one event interval between them, or None for the ends."""
    t = list(dense(case, net).times)
    a = f.choose(len(t) - 1)
    b = a + 1 + f.choose(len(t) - 1 - a)
    mid = [0.0, 0.37][f.choose(2, 0.6)]
    lo = t[a] + mid * (t[a + 1] - t[a])
    hi = t[b] + (mid * (t[b + 1] - t[b]) if b + 1 < len(t) else 0)
    return [None, lo][f.choose(2)], [None, hi][f.choose(2)]


def gen_scale(f, case):
    k = f.choose(8)
    t = case["taus"]
    i = f.choose(3)
    if k == 0:
        return ("value", t[i])
    if k == 1:
        # None: the median time between events
        return ("list", [t[i], None if f.flag(0.3) else t[(i + 1) % 3]])
    if k == 2:
        return ("iter", [t[i], t[(i + 1) % 3]])
    if k == 3:
        return ("array", [t[i]])
    if k == 4:
        return ("logspace", [0, 1, 2])
    if k == 5:
        return ("int", 1 + f.choose(4))
    if k == 6:
        return ("tuple", [t[(i + 2) % 3], t[i]])
    return ("set", t[i])


def gen_ops(f, case, n, wild):
    """`wild`: how often operations are out of order or invalid."""
    ops = []
    net = 0
    for _ in range(n):
        if ops and f.flag(0.12):
            # the same request once more
            ops.append(dict(ops[-1]))
            continue
        m = f.weighted([10, 2, 2, 2, 2, 1 + 3 * wild, 2 * wild, 1])
        if m == 0:
            op = {"op": "advance", "lin": f.flag(0.3), "t_s": [10.0, 3.0][f.choose(2)], "seed": f.choose(50),
                  "grid": f.choose(3), "scale": gen_scale(f, case) if f.flag(0.3) else None, "k": f.choose(2),
                  "arg": ["lamda", "time_scale"][f.choose(2)] if f.flag(0.1) else None,
                  "tau": case["taus"][f.choose(3)], "fix": f.flag(0.15), "other": f.flag(0.1)}
        elif m == 1:
            net = f.choose(len(case["nets"]))
            op = {"op": "net", "net": net, "how": f.choose(3)}
        elif m == 2:
            a, b = gen_window(f, case, net)
            op = {"op": "window", "a": a, "b": b, "which": f.choose(3)}
        elif m == 3:
            op = {"op": "scale", "scale": gen_scale(f, case)}
        elif m == 4:
            op = {"op": "dir", "dir": [0, 1, -1][f.choose(3)]}
        elif m == 5:
            op = {"op": list(SHORT)[f.choose(4)], "lin": f.flag(0.3), "t_s": [10.0, 3.0][f.choose(2)],
                  "seed": f.choose(50), "grid": f.choose(3), "k": f.choose(2),
                  "arg": ["lamda", "time_scale"][f.choose(2)] if f.flag(0.25) else None,
                  "tau": case["taus"][f.choose(3)], "fix": f.flag(0.15), "other": f.flag(0.1)}
        elif m == 6:
            op = {"op": "bad", "what": f.choose(12)}
        else:
            op = {"op": "same_net"}
        ops.append(op)
    return ops


def gen_redo(f, case):
    """An analysis that has reached its end and is then changed; the step that
    follows may fail half-way and is asked for again.  The third value is the
    number of the call that may fail."""
    plain = lambda op, **kw: dict({"op": op, "lin": False, "t_s": 10.0, "seed": f.choose(50), "grid": 0, "scale": None,
                                   "k": 0, "arg": None, "tau": case["taus"][0], "fix": False, "other": False}, **kw)
    t = case["taus"]
    lin, fix = f.flag(0.3), f.flag(0.3)
    scales = [t[i] for i in [(0, 1), (1, 0, 2), (2, 1)][f.choose(3)]]
    start = {"net": 0, "scale": ("list", scales), "a": None, "b": None, "dir": [0, 1, -1][f.choose(3)]}
    ops = [plain("advance", lin=lin, fix=fix, grid=g) for g in (0, 0, f.choose(3), 0)]
    calls = 1 + len(ops)
    m = f.choose(6)
    if m == 0:
        a, b = gen_window(f, case, 0)
        ops.append({"op": "window", "a": a, "b": b, "which": f.choose(3)})
    elif m == 1:
        ops.append({"op": "scale", "scale": ("list", scales[::-1] + [9.0])})
    elif m == 2:
        ops.append({"op": "dir", "dir": [0, 1, -1][f.choose(3)]})
    step = list(SHORT)[0 if m == 0 else [1, 1, 1, 2, 3][f.choose(5)]]
    new = plain(step, lin=lin != f.flag(0.2), fix=fix != f.flag(0.6), other=f.flag(0.2), grid=f.choose(3),
                t_s=[10.0, 3.0][f.choose(2)])
    ops.append(new)
    # the same request, the former one, or the next step
    again = [0, 0, 1, 2][f.choose(4)]
    if again == 0:
        ops.append(dict(new))
    elif again == 1:
        ops.append(plain(step, lin=lin, fix=fix))
    ops += [dict(new, op="advance", seed=f.choose(50)) for _ in range(4)]
    return start, ops, calls


def gen_start(f, case):
    """Arguments of the constructor."""
    a, b = gen_window(f, case, 0)
    return {"net": 0 if f.flag(0.5) else None, "scale": gen_scale(f, case) if f.flag(0.5) else None,
            "a": a, "b": b, "dir": [None, 0, 1, -1][f.choose(4)]}


# ---------------------------------------------------------------- helpers

def scale_value(spec):
    kind, v = spec
    if kind == "iter":
        return iter(list(v))
    if kind == "array":
        return np.array(v)
    if kind == "tuple":
        return tuple(v)
    return v


def scale_list(spec):
    kind, v = spec
    if kind == "logspace":
        return [float(x) for x in np.logspace(start=v[0], stop=v[1], num=v[2])]
    return list(v) if isinstance(v, list) else [v]


def dense(case, i):
    return (O.DenseInstNet if case["inst"][i] else O.DenseNet)(case["nets"][i])


def make(case, i):
    if case["inst"][i]:
        from flowstab.temporal_network import ContTempInstNetwork
        s, t, a, _ = map(list, zip(*case["nets"][i]))
        return ContTempInstNetwork(source_nodes=s, target_nodes=t, starting_times=a)
    return W.make_net(case["nets"][i])


class Model:
    """What the user has asked for and how far the analysis is."""

    def __init__(self):
        self.level = 0
        self.isset = {k: False for k in LEVEL_OF}
        self.net = None               # index of the events in the case
        self.obj = None
        self.a = self.b = None
        self.scales = None
        self.dir = None
        self.approx = None            # t_s or None, of the last inter-transition step
        self.fix = False              # all intervals count as one unit of time
        self.grid = 0
        self.seeds = []
        self.k = 0

    def setting(self, name, ok=True):
        self.isset[name] = ok
        self.level = min(self.level, LEVEL_OF[name])

    def missing(self, level=None):
        lv = self.level if level is None else level
        return sorted(n for n, x in LEVEL_OF.items() if x <= lv and not self.isset[n])

    def allowed(self, step):
        i = STEPS.index(step)
        return self.level >= i and not self.missing(i)

    def window(self, case):
        net = dense(case, self.net)
        k0 = net.floor(self.a) if self.a is not None else 0
        k1 = net.floor(self.b) if self.b is not None else len(net.times) - 1
        return net, k0, k1

    def usable(self, case):
        if self.net is None:
            return True
        _, k0, k1 = self.window(case)
        return k0 < k1


def results_of(fs):
    return {d: {k: id(v) for k, v in getattr(fs, "flow_clustering_" + d).items()}
            for d in ("forward", "backward")}


def snapshot(fs):
    return (fs.state.current, results_of(fs), id(fs.temporal_network), fs.t_start, fs.t_stop,
            list(fs.time_scale), fs.time_direction)


def call(fn, *args, **kw):
    """(status, value, warned): status ok, or the exception."""
    shim.CL.call("point", "op")
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                val = fn(*args, **kw)
            st = "ok"
        except (Exception, KeyboardInterrupt) as e:
            st, val = "err", e
        finally:
            shim.disarm()
    fired = shim.CL.call("point", "faults")
    shim.disarm()
    return st, val, [str(x.message) for x in rec], fired


# ---------------------------------------------------------------- histories

class History:
    def __init__(self, case, start, judge_state, judge_results):
        from flowstab.flow_stability import FlowStability, States
        self.case, self.jst, self.jres = case, judge_state, judge_results
        self.States = list(States)
        self.m = m = Model()
        self.counts = {}
        kw = {}
        if start["net"] is not None:
            m.net, m.obj = start["net"], make(case, start["net"])
            kw["temporal_network"] = m.obj
        if start["scale"] is not None and start["scale"][0] not in ("logspace",):
            kw["time_scale"] = scale_value(start["scale"])
            m.scales = scale_list(start["scale"])
        if m.net is None or self.fits(start["a"], start["b"], m.net):
            kw["t_start"], kw["t_stop"] = start["a"], start["b"]
            m.a, m.b = start["a"], start["b"]
        if start["dir"] is not None:
            kw["time_direction"] = m.dir = start["dir"]
        st, val, _, fired = call(FlowStability, **kw)
        if st == "err":
            need(fired, "fails", f"constructor fails: {val!r}")
            raise Stop
        self.fs = val
        m.level = 1 if m.net is not None else 0
        m.isset.update(temporal_network=m.net is not None, t_start=True, t_stop=True,
                       time_scale=m.scales is not None, time_direction=m.dir is not None)
        self.state("a new analysis")

    def probe(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def fits(self, a, b, net):
        d = dense(self.case, net)
        k0 = d.floor(a) if a is not None else 0
        k1 = d.floor(b) if b is not None else len(d.times) - 1
        return k0 < k1

    def state(self, what):
        if not self.jst:
            return
        fs, m = self.fs, self.m
        cur = self.States.index(fs.state.current)
        need(cur == m.level, "state", f"after {what}: state {fs.state.current}, expected "
                                      f"{self.States[m.level]}")
        miss, nxt = fs.state.next
        want = m.missing()
        if m.level < 4:
            need(sorted(miss) == want, "missing", f"after {what}: missing {sorted(miss)}, expected {want}")
            need(nxt == STEPS[m.level], "next", f"after {what}: next step {nxt}, expected {STEPS[m.level]}")
        else:
            need(not miss, "missing", f"after {what}: missing {miss} for the last step")
            need(nxt == STEPS[4], "next", f"after {what}: next step {nxt}")
        self.probe("states")

    def step(self, name, kw, what):
        """One step of the analysis; judged by the model."""
        fs, m = self.fs, self.m
        if name == STEPS[1] and not m.usable(self.case):
            return "skipped"
        legal = m.allowed(name)
        before = snapshot(fs)
        st, val, warned, fired = call(getattr(fs, name), **kw)
        if not legal:
            if self.jst:
                need(st == "ok" and val is None and warned, "refuse",
                     f"{what}: {name} is not refused with a warning in {before[0]} (missing {m.missing()}): "
                     f"{st} {val!r} {warned}")
                need(snapshot(fs) == before, "refuse", f"{what}: refused {name} changes the analysis")
                self.probe("refused")
            elif st == "ok" and val is fs:
                # the analysis says that it is ready for this: see C12 for whether
                # it should; its results have to be right all the same
                self.probe("trusted")
                return "done"
            elif not (st == "ok" and val is None):
                raise Stop           # see C12
            return "refused"
        if st == "err":
            need(fired, "fails", f"{what}: {name} fails without a fault: {val!r}")
            self.probe("step_failed")
            if self.jst:
                now = snapshot(fs)
                if "time_scale" in kw or "lamda" in kw:
                    self.after_scale_arg(kw)
                else:
                    need(now == before, "failed", f"{what}: failed {name} changes {diff(before, now)}")
            elif "time_scale" in kw or "lamda" in kw:
                self.after_scale_arg(kw)
            return "failed"
        need(val is fs, "refuse", f"{what}: {name} is refused although everything is ready "
                                  f"(state {before[0]}, warnings {warned})")
        return "done"

    def after_scale_arg(self, kw):
        """The step may or may not have come to the change of the time scale."""
        m = self.m
        new = [kw["time_scale"]] if "time_scale" in kw else [1 / kw["lamda"]]
        if list(self.fs.time_scale) == new:
            m.scales = new
            m.setting("time_scale")

    def advance(self, op, name):
        m = self.m
        kw = {}
        if name == STEPS[2]:
            if op["lin"]:
                kw = {"linear_approx": True, "t_s": op["t_s"]}
            elif m.net is not None:
                kw = {"use_sparse_stoch": self.case["sparse"][m.net] != op["other"]}
            if op["fix"] and m.net is not None and not self.case["inst"][m.net]:
                kw["fix_tau_k"] = True
            if op.get("arg"):
                kw[op["arg"]] = op["tau"] if op["arg"] == "time_scale" else 1 / op["tau"]
        elif name == STEPS[3] and op["grid"] and m.net is not None and m.usable(self.case):
            net, k0, k1 = m.window(self.case)
            if k1 - k0 >= 2:
                t = net.times
                g = [t[k0], t[(k0 + k1) // 2], t[k1]]
                if op["grid"] == 2:               # a time between two events too
                    g.insert(1, t[k0] + 0.3 * (t[k0 + 1] - t[k0]))
                kw = {"integral_time_grid": g[::-1 if op["seed"] % 2 else 1]}
        elif name == STEPS[4]:
            kw = {"rnd_seed": op["seed"]}
            if m.grid:
                kw["k"] = op["k"]
        r = self.step(name, kw, op["op"])
        if r != "done":
            if r == "failed" and name == STEPS[4]:
                m.seeds.append((op["seed"], kw.get("k", 0)))
            return r
        if name == STEPS[2] and op.get("arg"):
            m.scales = [op["tau"]] if op["arg"] == "time_scale" else [1 / (1 / op["tau"])]
            m.setting("time_scale")
        if name == STEPS[2]:
            m.approx = op["t_s"] if op["lin"] else None
            m.fix = "fix_tau_k" in kw
        if name == STEPS[3]:
            m.grid = kw.get("integral_time_grid", 0)
            m.seeds = []
        if name == STEPS[4]:
            m.k = kw.get("k", 0)
            m.seeds.append((op["seed"], m.k))
        m.level = STEPS.index(name) + 1
        if m.level == 5:
            self.final()
        return r

    def run(self, op):
        fs, m, case = self.fs, self.m, self.case
        what = op["op"]
        if what in SHORT:
            self.advance(op, SHORT[what])
        elif what == "advance":
            miss = m.missing()
            level = m.level
            if not self.jst:
                # do what the analysis announces
                level = self.States.index(fs.state.current)
                miss = list(fs.state.missing_parameters) if level < 4 else []
            if level == 0 or "temporal_network" in miss:
                self.run({"op": "net", "net": 0 if m.net is None else m.net, "how": 0})
            elif "time_scale" in miss:
                self.run({"op": "scale", "scale": op["scale"] or ("value", case["taus"][0])})
            elif "time_direction" in miss:
                self.run({"op": "dir", "dir": [0, 1, -1][op["seed"] % 3]})
            elif not m.usable(case):
                self.run({"op": "window", "a": None, "b": None, "which": 2})
            else:
                self.advance(op, STEPS[min(level, 4)])
        elif what == "net":
            obj = make(case, op["net"])
            if op["how"] == 2 and not case["inst"][op["net"]]:
                s, t, a, b = map(list, zip(*case["nets"][op["net"]]))
                st, val, _, fired = call(fs.set_temporal_network, source_nodes=s, target_nodes=t,
                                         starting_times=a, ending_times=b)
                obj = fs.temporal_network
            else:
                st, val, _, fired = call(setattr, fs, "temporal_network", obj)
            if st == "err":
                need(fired, "fails", f"setting the network fails: {val!r}")
                self.probe("step_failed")
            else:
                m.net, m.obj = op["net"], obj
                m.setting("temporal_network")
                m.level = max(m.level, 1)
        elif what == "same_net":
            if m.net is None:
                return
            fs.temporal_network = fs.temporal_network
            m.setting("temporal_network")
            m.level = max(m.level, 1)
        elif what == "window":
            if op["which"] != 1:
                fs.t_start = m.a = op["a"]
                m.setting("t_start")
            if op["which"] != 0:
                fs.t_stop = m.b = op["b"]
                m.setting("t_stop")
        elif what == "scale":
            kind, v = op["scale"]
            if kind == "logspace":
                fs.set_time_scale(start=v[0], stop=v[1], num=v[2])
            elif kind == "set":
                fs.set_time_scale(v)
            else:
                mine = scale_value(op["scale"])
                if isinstance(mine, list):
                    mine = list(mine)
                fs.time_scale = mine
                if isinstance(mine, list):
                    mine[:] = [97.0]          # the list of the caller, used for something else
                elif isinstance(mine, np.ndarray):
                    mine[:] = 97.0
            m.scales = scale_list(op["scale"])
            m.setting("time_scale")
            number = lambda xs: [x if x is None else float(x) for x in xs]
            got = number(fs.time_scale)
            need(got == number(m.scales) == number(fs.time_scale), "scale",
                 f"time scales {got} instead of {m.scales}")
        elif what == "dir":
            fs.time_direction = op["dir"]
            m.dir = op["dir"]
            m.setting("time_direction")
        elif what == "bad":
            self.bad(op["what"])
        self.state(what)
        if not self.jst and m.level < 5:
            self.final()              # the analysis may claim to be at its end

    def bad(self, k):
        """Invalid or empty inputs."""
        fs, m = self.fs, self.m

        def refused(name, value, errs):
            before = snapshot(fs)
            try:
                setattr(fs, name, value)
            except errs:
                need(snapshot(fs) == before, "invalid", f"refused {name}={value!r} changes the analysis")
            else:
                raise Bad("invalid", f"{name}={value!r} is accepted")
        if k == 0:
            fs.temporal_network = None
            m.net = m.obj = None
            m.setting("temporal_network", False)
        elif k == 1:
            fs.temporal_network = "no network"
            m.net = m.obj = None
            m.setting("temporal_network", False)
            need(fs.temporal_network is None, "invalid", "a string is kept as the network")
        elif k == 2:
            fs.time_scale = None
            m.scales = None
            m.setting("time_scale", False)
        elif k == 3:
            refused("time_scale", -1.0, ValueError)
        elif k == 4:
            refused("time_scale", [1.0, 0], ValueError)
        elif k == 5:
            refused("time_scale", "fast", TypeError)
        elif k == 6:
            refused("time_direction", 2, AssertionError)
        elif k == 7:
            fs.set_time_scale()
            m.scales = None
            m.setting("time_scale", False)
        elif k >= 10:
            self.no_result()
        elif k == 8:
            refused("time_direction", "forward", AssertionError)
        else:
            refused("time_scale", object(), TypeError)

    def no_result(self):
        """A clustering that cannot be set up: nothing of it may be used."""
        fs, m = self.fs, self.m
        if not m.allowed(STEPS[3]) or self.States.index(fs.state.current) < 3:
            return
        n = len(m.window(self.case)[0].A[0])
        before = snapshot(fs)
        st, val, _, fired = call(fs.set_flow_clustering, p1=np.ones(n + 1) / (n + 1))
        if st == "err":
            need(snapshot(fs) == before, "failed", f"failed set_flow_clustering changes {diff(before, snapshot(fs))}")
            return
        left = [x for r in (fs.flow_clustering_forward, fs.flow_clustering_backward) for x in r.values() if x is not None]
        need(not left, "invalid", f"results of a distribution with too many nodes: {left}")
        need(self.States.index(fs.state.current) <= 4, "state", "at the end without any result")
        st, val, warned, fired = call(fs.find_louvain_clustering)
        need(st == "ok" and val is None and warned, "refuse",
             f"find_louvain_clustering is not refused although there are no results: {st} {val!r}")
        st, val, warned, fired = call(fs.set_flow_clustering)
        if st == "err":
            need(fired, "fails", f"set_flow_clustering fails: {val!r}")
            raise Stop
        need(val is fs, "refuse", "set_flow_clustering cannot be repeated")
        m.grid, m.seeds, m.level = 0, [], 4
        self.probe("no_result")

    def follow(self):
        """Do what the analysis itself announces until it has ended."""
        from flowstab.flow_stability import States
        fs, case = self.fs, self.case
        if not self.m.usable(case):
            fs.t_start = fs.t_stop = None
        for i in range(12):
            if fs.state.current == States.FINAL:
                self.probe("followed")
                return
            miss, nxt = fs.state.next
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                fs.help()
            for name in list(miss) + [nxt]:
                need(name in out.getvalue(), "help", f"help() does not mention {name}")
            if miss:
                for name in miss:
                    v = {"temporal_network": lambda: make(case, 0), "t_start": lambda: None,
                         "t_stop": lambda: None, "time_scale": lambda: case["taus"][0],
                         "time_direction": lambda: [0, 1, -1][(self.m.level + i) % 3]}
                    need(name in v, "announce", f"announces {name} as missing in {fs.state.current}")
                    setattr(fs, name, v[name]())
                if "temporal_network" in miss:
                    fs.t_start = fs.t_stop = None
                continue
            kw = {}
            if nxt == STEPS[0]:
                kw = {"events_table": make(case, 0).events_table}
                fs.t_start = fs.t_stop = None
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                with contextlib.redirect_stdout(io.StringIO()):
                    r = getattr(fs, nxt)(**kw)
            need(r is fs, "announce", f"the announced step {nxt} is refused in {fs.state.current}: "
                                      f"{[str(x.message) for x in rec]}")
        raise Bad("progress", f"the end is not reached by following the announcements ({fs.state.current})")

    # ------------------------------------------------------------ results

    def final(self):
        """The analysis says that everything is computed: results of the current settings?"""
        fs, m, case = self.fs, self.m, self.case
        if not self.jres:
            return
        if self.States.index(fs.state.current) != 5:
            return
        if m.net is None or not m.scales or m.dir is None or not m.usable(case):
            raise Stop               # see C12
        net, k0, k1 = m.window(case)
        net.unit = net.unit or m.fix
        for d, rev in (("forward", False), ("backward", True)):
            got = getattr(fs, "flow_clustering_" + d)
            used = m.dir >= 0 if not rev else m.dir <= 0
            want = set(m.scales) if used else set()
            need(set(got) == want, "scales", f"{d} results for {list(got)}, time scales {list(want)}, "
                                             f"direction {m.dir}")
            for ts, fc in got.items():
                need(fc is not None and fc.reversed_time == rev, "direction", f"{d} result of {ts}: {fc}")
                wins = N.windows(net.times, k0, k1, m.grid, rev) if m.grid else [(k0, k1)]
                lam = 1 / np.median(np.diff(net.times)) if ts is None else 1 / ts
                need(len(fc.I_list) == len(wins), "integral", f"{d} {ts}: {len(fc.I_list)} integrals for {wins}")
                for I, (a, b) in zip(fc.I_list, wins):
                    W_ = net.cov_integral(a, b, lam, m.approx is not None, m.approx or 10.0, rev)
                    e = O.differ(np.asarray(O.plain(I)), W_, 1e-6, 1e-8)
                    need(e is None, "integral", f"{d} integral of time scale {ts}, window {m.a}..{m.b}, "
                                                f"t_s {m.approx}: {e}")
                a, b = wins[m.k if m.grid else 0]
                T = net.product(net.steps(a, b, lam, m.approx is not None, m.approx or 10.0), rev)
                self.partition(fc, d, ts, net.n, T)
        self.probe("final_judged")

    def partition(self, fc, d, ts, n, T):
        m = self.m
        need(m.k in fc.partition, "partition", f"{d} {ts}: no partition of integral {m.k}")
        S = np.asarray(O.plain(fc.I_list[m.k]), dtype=float)
        parts = [set(c) for c in fc.partition[m.k].cluster_list]
        need(O.is_partition(parts, n), "partition", f"{d} {ts}: {parts} of {n} nodes")
        key = C.key_of(parts)
        rng = np.random.RandomState(3)
        robust = True
        for seed, k in m.seeds[::-1]:
            if k != m.k:
                continue
            keys = set()
            for eps in (0, 1e-12, -1e-12, 1e-11):
                e = rng.rand(n, n) * eps
                keys.add(louvain(S * (1 + e + e.T), seed, T))
            if key in keys:
                self.probe("seed_reproduced")
                return
            robust = robust and len(keys) == 1
        need(not robust, "partition", f"{d} {ts}: partition {key} is not that of the seeds {m.seeds}")
        self.probe("seed_not_robust")


def louvain(S, seed, T):
    from flowstab.network_clustering import Clustering
    n = S.shape[0]
    p = np.ones(n) / n
    c = Clustering(p1=p, p2=p, T=T, S=S, rnd_seed=seed)
    with contextlib.redirect_stdout(io.StringIO()):
        c.find_louvain_clustering(rnd_seed=seed)
    return C.key_of(c.partition.cluster_list)


def diff(a, b):
    names = ["state", "results", "network", "t_start", "t_stop", "time_scale", "time_direction"]
    return [n for n, x, y in zip(names, a, b) if x != y]


class Stop(Exception):
    """The history cannot go on (says nothing about the property)."""


def analysis(case, start, ops, judge_state, judge_results, follow):
    shim.disarm()
    try:
        h = History(case, start, judge_state, judge_results)
        for op in ops:
            h.run(op)
        if follow:
            h.follow()
    except Stop:
        return {"stopped": 1}
    return h.counts


# ------------------------------------------------------- other tracked classes

def gen_toy(w):
    """A state-tracked class: a chain of steps and inputs that take the state back."""
    n = 2 + w.choose(4)
    return {"n": n, "props": [(1 + w.choose(n), w.flag(0.6)) for _ in range(1 + w.choose(4))]}


def gen_toy_ops(f, toy, n):
    out = []
    for _ in range(n):
        k = f.weighted([5, 3, 1])
        out.append((["step", "set", "fail"][k], f.choose(2), f.choose(toy["n"]) if k != 1
                    else f.choose(len(toy["props"])), f.choose(4)))
    return out


def toy_class(toy):
    from flowstab.state_tracking import OrderedEnum, StateMeta
    St = OrderedEnum("St", {f"S{i}": i for i in range(toy["n"] + 1)})
    states = list(St)
    ns = {"__qualname__": "Toy", "__doc__": "toy"}

    def __init__(self):
        self.log = []
        for j in range(len(toy["props"])):
            setattr(self, f"_p{j}", None)
    ns["__init__"] = __init__
    for j, (lv, ign) in enumerate(toy["props"]):
        def get(self, j=j):
            return getattr(self, f"_p{j}")
        get.__name__ = f"p{j}"

        def put(self, value, j=j):
            if value == "bad":
                raise ValueError(value)
            setattr(self, f"_p{j}", value)
        put.__name__ = f"p{j}"
        ns[f"p{j}"] = StateMeta.register(next_state=states[lv], ignore_none=ign)(property(get, put))
    for i in range(toy["n"]):
        def run(self, fail=False, i=i):
            if fail:
                raise MemoryError("step")
            self.log.append(i)
            return self
        run.__name__ = f"m{i}"
        ns[f"m{i}"] = StateMeta.register(minimal_state=states[i], next_state=states[i + 1])(run)
    return StateMeta("Toy", (), ns, states=St), states


def toys(toy, ops):
    """Two instances, used alternately, against a model of each."""
    cls, states = toy_class(toy)
    objs = [cls(), cls()]
    lv, isset, logs = [0, 0], [[False] * len(toy["props"]) for _ in objs], [[], []]
    vals = [0, None, "bad", "x"]
    for j, (what, who, i, v) in enumerate(ops):
        o, ps = objs[who], isset[who]
        miss = [k for k, (l, _) in enumerate(toy["props"]) if l <= i and not ps[k]] if what != "set" else []
        if what == "set":
            val = vals[v]
            try:
                setattr(o, f"p{i}", val)
            except ValueError:
                pass
            else:
                need(val != "bad", "toy", "an invalid input is accepted")
                l, ign = toy["props"][i]
                ps[i] = not (ign and val is None)
                lv[who] = min(lv[who], l)
        else:
            legal = lv[who] >= i and not miss
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                try:
                    r = getattr(o, f"m{i}")(fail=what == "fail")
                except MemoryError:
                    need(legal and what == "fail", "toy", f"operation {j}: step {i} runs in state {lv[who]}, "
                                                          f"missing {miss}")
                    r = "failed"
            if not legal:
                need(r is None and rec, "toy", f"operation {j}: step {i} not refused in state {lv[who]}, "
                                               f"missing {miss}")
            elif r != "failed":
                need(r is o, "toy", f"operation {j}: step {i} refused in state {lv[who]}")
                lv[who] = i + 1
                logs[who].append(i)
        for x, obj in enumerate(objs):
            need(obj.state.current == states[lv[x]], "toy", f"operation {j} {ops[j]}: object {x} in state "
                                                            f"{obj.state.current}, expected {lv[x]}")
            need(obj.log == logs[x], "toy", f"operation {j}: object {x} ran {obj.log} instead of {logs[x]}")
            m, nxt = obj.state.next
            want = sorted(f"p{k}" for k, (l, _) in enumerate(toy["props"]) if l <= lv[x] and not isset[x][k])
            need(sorted(m) == want, "toy", f"operation {j}: missing {m} instead of {want}")
            need(nxt == f"m{min(lv[x], toy['n'] - 1)}", "toy", f"operation {j}: next {nxt} in state {lv[x]}")
    return {"toy_operations": len(ops)}
