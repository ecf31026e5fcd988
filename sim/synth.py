"""Synthetic contact sequences under chosen random draws."""
import contextlib
import io
import threading
import warnings

import numpy as np

from . import shim
from .louvain import Turns
from .session import need

METHODS = ["random_uniform", "random_uniform_within_group", "block_probs", "block_probs_mod"]
TINY = 1e-9


# ---------------------------------------------------------------- generation

def gen_matrix(w, g):
    """Probabilities of meetings between groups; rows of zeros are groups that meet nobody."""
    P = np.array([[[0.0, 1.0, 0.3, 4.0][w.choose(4)] for _ in range(g)] for _ in range(g)])
    return P


def normalised(P):
    s = P.sum(1)
    return P / np.where(s == 0, 1, s)[:, None]


def gen_times(w, kind, unit):
    """Location and scale before and after half of the time span."""
    out = []
    for _ in range(2):
        if kind == 1:                 # regular: (almost) no randomness in time
            out.append(((0.3 + w.choose(12) / 7.0) * unit, TINY * unit))
        else:
            out.append((w.pick([0.0, 0.1, 0.5, 1.0], 0.6) * unit, w.pick([1.0, 0.5, 0.2, 3.0]) * unit))
    if w.flag(0.6):
        out[1] = out[0]
    return out


def gen_sim(w):
    n = 1 + w.choose(10, 0.05)
    g = 1 + w.choose(min(n, 4))
    groups = list(range(g)) + [w.choose(g) for _ in range(n - g)]
    groups = w.shuffled(groups)
    kind = w.choose(3)
    span = [20.0, 5.0, 60.0][w.choose(3)]
    unit = span / [4.0, 8.0, 2.0][w.choose(3)]
    sp = {"n": n, "g": g, "groups": groups, "order": w.shuffled(range(n)) if w.flag(0.4) else list(range(n)),
          "t0": [0.0, 3.0, -7.5, 1000.0][w.choose(4)], "span": span, "m": 1 + w.choose(3, 0.6),
          "method": METHODS[w.choose(4)], "kind": kind, "mod": w.flag(0.4)}
    same = w.flag(0.5)
    ac, it = gen_times(w, kind, unit), gen_times(w, kind, unit * w.pick([1.0, 0.2, 3.0]))
    sp["activ"] = [ac if same else gen_times(w, kind, unit) for _ in range(n)]
    sp["inter"] = [it if same else gen_times(w, kind, unit) for _ in range(n)]
    if not sp["mod"]:
        for l in (sp["activ"], sp["inter"]):
            for i in range(n):
                l[i] = [l[i][0], l[i][0]]
    sp["P"] = [gen_matrix(w, g) for _ in range(2)]
    sp["as_list"] = w.flag(0.5)
    return sp


def gen_ops(f, k, n):
    out = []
    for _ in range(n):
        out.append({"p": f.choose(k), "q": f.choose(k), "seed": 1 + f.choose(10 ** 6), "exp": f.choose(7),
                    "pick": f.choose(6), "stop": f.choose(300) if f.flag(0.15) else None,
                    "how": f.weighted([5, 2, 2]), "states": f.flag(0.25), "turns": [f.choose(2) for _ in range(40)],
                    "net": f.flag(0.7), "legacy": f.flag(0.3), "verbose": f.flag(0.1)})
    return out


# --------------------------------------------------------------------- seam

class Stop(MemoryError):
    pass


class Never(Exception):
    pass


class Draws(np.random.RandomState):
    """All random numbers of the simulation: plain for a while, extreme for a while."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, seed, exp, pick, stop=None, turn=None, most=30000):
        super().__init__(seed)
        self.how_exp, self.how_pick, self.stop, self.turn = exp, pick, stop, turn
        self.n, self.most, self.row, self.before, self.extreme = 0, most, 0, None, 0

    def tick(self):
        if self.turn is not None:
            self.turn()
        self.n += 1
        if self.stop is not None and self.n > self.stop:
            self.stop = None
            raise Stop("simulated")
        if self.n > self.most:
            raise Never(f"{self.n} random numbers drawn")

    def one_exp(self):
        x = super().standard_exponential()
        u = super().random_sample()
        h = self.how_exp if self.n < 150 else 0
        if h:
            self.extreme += 1
        if h == 1:
            return round(2 * x) / 2.0
        if h == 2:
            return 0.0 if u < 0.5 else x
        if h == 3:
            return 1e-300 if u < 0.4 else 1e-12 if u < 0.6 else x
        if h == 4:
            return 30.0 if u < 0.15 else x
        if h == 5:
            return [0.0, 1e-9, x, 35.0, 1.0][int(5 * u)]
        if h == 6:
            return 1.0
        return x

    def standard_exponential(self, size=None):
        self.tick()
        if size is None or size == ():
            return self.one_exp()
        return np.array([self.one_exp() for _ in range(int(np.prod(size)))]).reshape(size)

    def exponential(self, scale=1.0, size=None):
        return scale * self.standard_exponential(size)

    def choice(self, a, size=None, replace=True, p=None):
        self.tick()
        honest = super().choice(a, size=size, replace=replace, p=p)
        if size is not None:
            return honest
        items = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        ok = np.arange(len(items)) if p is None else np.flatnonzero(np.asarray(p) > 0)
        h = self.how_pick if self.row < 40 and self.n < 4000 else 0
        self.row = self.row + 1 if h else 0
        if h == 1:
            return items[ok[0]]
        if h == 2:
            return items[ok[-1]]
        if h == 3 and self.before is not None and self.before in items[ok]:
            return items[list(items).index(self.before)]
        if h == 4:
            self.before = items[ok[self.n % len(ok)]]
            return self.before
        if h == 5 and p is not None:
            return items[ok[int(np.argmin(np.asarray(p)[ok]))]]
        self.before = honest
        return honest


NAMES = ["choice", "standard_exponential", "exponential"]


@contextlib.contextmanager
def seam(current):
    """NumPy's and SciPy's global random numbers come from current()."""
    from scipy.stats import expon

    class Front(np.random.RandomState):
        pass
    for name in NAMES:
        setattr(Front, name, lambda self, *a, _n=name, **k: getattr(current(), _n)(*a, **k))
    front = Front(0)
    old = {n: getattr(np.random, n) for n in NAMES}
    was = expon.random_state
    try:
        for n in NAMES:
            setattr(np.random, n, getattr(front, n))
        expon.random_state = front
        yield
    finally:
        for n in NAMES:
            setattr(np.random, n, old[n])
        expon.random_state = was


# ------------------------------------------------------------------- checks

def half(sp):
    return sp["t0"] + sp["span"] / 2


def at(pair, sp, t):
    return pair[0] if t < half(sp) else pair[1]


def make(sp):
    from flowstab.synth_temp_network import Individual, SynthTempNetwork
    ind = []
    for i in range(sp["n"]):
        kw = {}
        for name, l in (("inter", sp["inter"]), ("activ", sp["activ"])):
            if sp["mod"]:
                kw[name + "_distro_mod_func"] = (lambda t, pair=l[i]: at(pair, sp, t))
            else:
                kw[name + "_distro_loc"], kw[name + "_distro_scale"] = l[i][0]
        ind.append(Individual(i, group=sp["groups"][i], **kw))
    kw = {"num_interactions_per_activation": sp["m"], "next_event_method": sp["method"]}
    if sp["method"] == "block_probs":
        kw["inter_group_probs"] = sp["P"][0].tolist() if sp["as_list"] else sp["P"][0].copy()
    if sp["method"] == "block_probs_mod":
        Q = [normalised(P) for P in sp["P"]]
        kw["block_prob_mod_func"] = lambda t: at(Q, sp, t).copy()
    return SynthTempNetwork([ind[i] for i in sp["order"]], t_start=sp["t0"], t_end=sp["t0"] + sp["span"], **kw)


def allowed(sp, i, j, t):
    a, b = sp["groups"][i], sp["groups"][j]
    if sp["method"] == "random_uniform":
        return True
    if sp["method"] == "random_uniform_within_group":
        return a == b
    P = sp["P"][0] if sp["method"] == "block_probs" else at(sp["P"], sp, t)
    return P[a, b] > 0


def plan(sp):
    """Activations and durations when time has no randomness: (individual, start, end)."""
    out = []
    t1 = sp["t0"] + sp["span"]
    for i in range(sp["n"]):
        t = sp["t0"]
        while True:
            t = t + at(sp["activ"][i], sp, t)[0]
            if t >= t1 + 1e-6 * sp["span"]:
                break
            out.append((i, t, t + at(sp["inter"][i], sp, t)[0]))
    return out


def blurred(sp, pl):
    """Is a time of the plan so close to a change of parameters that it could fall on either side?"""
    e = 1e-6 * sp["span"]
    return any(abs(t - half(sp)) < e for _, t, _ in pl) and (sp["mod"] or sp["method"] == "block_probs_mod")


def free_partners(sp):
    """Can every activation find all its partners?"""
    busy = 0
    for i in range(sp["n"]):
        d = max(x[0] for x in sp["inter"][i])
        a = min(x[0] for x in sp["activ"][i])
        busy = max(busy, sp["m"] * (int(d / a + 1e-6) + 2))
    if sp["method"] == "random_uniform":
        return sp["n"] - 1 >= busy
    sizes = [sp["groups"].count(g) for g in range(sp["g"])]
    return min(sizes) - 1 >= busy


class Session:
    def __init__(self, sims):
        self.sims = sims
        self.known = {}
        self.counts = {}

    def probe(self, name, v=1):
        self.counts[name] = self.counts.get(name, 0) + v

    def rows(self, s):
        cols = [s.indiv_sources, s.indiv_targets, s.start_times, s.end_times]
        need(len({len(c) for c in cols}) == 1, "columns", f"{[len(c) for c in cols]} sources, targets, starts, ends")
        return [(int(a), int(b), float(c), float(d)) for a, b, c, d in zip(*cols)]

    def judge(self, sp, s, what, complete):
        ev = self.rows(s)
        n, t0, t1 = sp["n"], sp["t0"], sp["t0"] + sp["span"]
        eps = 1e-9 * (abs(t0) + sp["span"])
        last = {}
        for x, (i, j, a, b) in enumerate(ev):
            w = f"{what}: contact {x} ({i}, {j}, {a}, {b})"
            need(0 <= i < n and 0 <= j < n and i != j, "pair", f"{w} of {n} individuals")
            need(allowed(sp, i, j, a), "groups", f"{w} between groups {sp['groups'][i]} and {sp['groups'][j]} "
                                                f"({sp['method']})")
            need(a <= b, "reversed", w)
            need(t0 <= a < t1, "span", f"{w} starts outside of {t0} to {t1}")
            need(x == 0 or ev[x - 1][3] <= b, "order", f"{w} follows one that ends at {ev[x - 1][3]}")
            need(b <= t1 or x == len(ev) - 1, "late", f"{w} ends after {t1} and is not the last")
            loc, scale = at(sp["inter"][i], sp, a)
            need(b - a >= loc - eps, "duration", f"{w} is shorter than {loc}")
            if scale <= TINY * sp["span"]:
                need(b - a <= loc + 100 * scale + eps, "duration", f"{w} is longer than {loc}")
            if (i, j) in last:
                need(last[i, j] <= a, "overlap", f"{w}: the previous one of the pair ends at {last[i, j]}")
            last[i, j] = b
        self.activations(sp, ev, what, eps)
        if complete and sp["kind"] == 1:
            self.planned(sp, ev, what)
        self.probe("contacts", len(ev))
        return ev

    def activations(self, sp, ev, what, eps):
        """Contacts of an individual start at its activations, at most m at a time."""
        for i in range(sp["n"]):
            starts = sorted(e[2] for e in ev if e[0] == i)
            if min(x[0] for x in sp["activ"][i]) <= 0:
                continue
            before, k = sp["t0"], sp["m"]
            for a in starts:
                if a == before:
                    k += 1
                    need(k <= sp["m"], "activation", f"{what}: {i} starts {k} contacts at {a}")
                else:
                    low = min(at(sp["activ"][i], sp, before)[0], min(x[0] for x in sp["activ"][i])) \
                        if sp["mod"] else sp["activ"][i][0][0]
                    need(a - before >= low - eps, "activation",
                         f"{what}: {i} is active at {before} and again at {a}, less than {low} later")
                    before, k = a, 1

    def planned(self, sp, ev, what):
        pl = plan(sp)
        if blurred(sp, pl):
            return
        t1, e = sp["t0"] + sp["span"], 1e-6 * sp["span"]
        got = {}
        for i, j, a, b in ev:
            got.setdefault(i, []).append((a, b))
        full = free_partners(sp) and (sp["method"] != "block_probs_mod" or all((P.sum(1) > 0).all() for P in sp["P"])) \
            and (sp["method"] != "block_probs" or (sp["P"][0].sum(1) > 0).all())
        for i, a, b in pl:
            near = [x for x in got.get(i, []) if abs(x[0] - a) < e]
            for x in near:
                got[i].remove(x)
            need(len(near) <= sp["m"], "planned", f"{what}: {len(near)} contacts of {i} at {a}")
            if full and b < t1 - e:
                need(len(near) == sp["m"], "planned",
                     f"{what}: {len(near)} of {sp['m']} contacts of {i} at {a} (until {b})")
                self.probe("planned_contacts")
        rest = {i: l for i, l in got.items() if l}
        need(not rest, "planned", f"{what}: contacts without an activation {rest}")

    def states(self, sp, s, ev, what):
        """Saved states show the contacts in progress."""
        ts = [x for e in ev for x in e[2:]]
        if len(set(ts)) != len(ts) or not ev:
            return
        A = s.all_states
        for t, M in A.items():
            M = M.toarray()
            need(set(np.unique(M)) <= {0, 1}, "states", f"{what}: state {M} at {t}")
            if t >= ev[-1][3]:
                continue
            for i, j, a, b in ev:
                if a <= t < b:
                    need(M[i, j] == 1, "states", f"{what}: contact {(i, j, a, b)} is not in the state at {t}")
            for i, j in zip(*M.nonzero()):
                if not any((i, j) == e[:2] and e[2] <= t < e[3] for e in ev):
                    need(not any((i, j) == e[:2] and e[2] > t for e in ev), "states",
                         f"{what}: state at {t} shows a contact of {(i, j)} that is not recorded")
        for t, M in s.saved_states.items():
            need(t in A and (M != A[t]).nnz == 0, "states", f"{what}: saved state at {t} is no state")
        need(set(x for x in ts if x <= s.t) <= set(A), "states", f"{what}: a contact changes without a saved state")
        self.probe("states", len(A))

    def network(self, s, ev, what):
        from flowstab.temporal_network import ContTempNetwork
        if not ev:
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            net = ContTempNetwork(source_nodes=s.indiv_sources, target_nodes=s.indiv_targets,
                                  starting_times=s.start_times, ending_times=s.end_times)
        lab = net.node_to_label_dict
        t = net.events_table
        back = (lambda x: lab[x]) if lab is not None else (lambda x: x)
        got = sorted((int(back(a)), int(back(b)), float(c), float(d)) for a, b, c, d in
                     zip(t["source_nodes"], t["target_nodes"], t["starting_times"], t["ending_times"]))
        need(got == sorted(ev), "network", f"{what}: {len(got)} events in the network, {len(ev)} contacts; "
                                           f"{set(got) ^ set(ev)}")
        need(net.num_nodes == len({x for e in ev for x in e[:2]}), "network", f"{what}: {net.num_nodes} nodes")
        need(self.rows(s) == ev, "network", f"{what}: the contacts have changed")
        self.probe("networks")

    def generate(self, sp, op, what):
        d = Draws(op["seed"], op["exp"], op["pick"], op["stop"])
        s = make(sp)
        err = None
        with seam(lambda: d), contextlib.redirect_stdout(io.StringIO()):
            try:
                s.run(save_all_states=op["states"], save_dt_states=op["states"], dt=sp["span"] / 7,
                      verbose=11 if op["verbose"] else False)
            except (Exception, KeyboardInterrupt) as e:
                err = e
        need(not isinstance(err, Never), "ends", f"{what} does not end: {err}")
        need(err is None or isinstance(err, Stop), "fails", f"{what} fails: {err!r}")
        if err is not None:
            self.probe("interrupted")
        if d.extreme:
            self.probe("extreme_draws", d.extreme)
        ev = self.judge(sp, s, what, err is None)
        if err is None and op["states"] and op["exp"] == 0:     # without ties
            self.states(sp, s, ev, what)
        return s, ev, err

    def run(self, j, op):
        what = f"simulation {j}"
        sp = self.sims[op["p"]]
        if op["how"] == 2:
            return self.together(op, what)
        if op["legacy"] and op["how"] == 0:
            return self.plain_seed(sp, op, what)
        s, ev, err = self.generate(sp, op, what)
        if op["net"]:
            self.network(s, ev, what)
        key = (op["p"], op["seed"], op["exp"], op["pick"], op["stop"])
        if key in self.known or op["how"] == 1:
            was = self.known.get(key, ev)
            if op["how"] == 1:
                was = self.generate(sp, dict(op, states=False, verbose=False), what + " repeated")[1]
            need(was == ev, "repeated", f"{what}: the same draws give other contacts")
            self.probe("repeated")
        self.known[key] = ev

    def plain_seed(self, sp, op, what):
        """The documented way to repeat a simulation: the seed of NumPy."""
        got = []
        for x in range(2):
            np.random.seed(op["seed"])
            s = make(sp)
            with contextlib.redirect_stdout(io.StringIO()):
                s.run()
            got.append(self.judge(sp, s, what, True))
        need(got[0] == got[1], "repeated", f"{what}: the same seed gives other contacts")
        if op["net"]:
            self.network(s, got[1], what)
        self.probe("seeded")

    def together(self, op, what):
        """Two simulations advance in turns."""
        sims = [self.sims[op["p"]], self.sims[op["q"]]]
        alone = [self.generate(sp, dict(op, seed=op["seed"] + x, stop=None, states=False, verbose=False), what)[1]
                 for x, sp in enumerate(sims)]
        turns = Turns(op["turns"], 2)
        ds = [Draws(op["seed"] + x, op["exp"], op["pick"], None, lambda x=x: turns.give(x)) for x in range(2)]
        who = {}
        ss = [make(sp) for sp in sims]

        def body(x):
            def go():
                who[threading.get_ident()] = x
                ss[x].run()
            return go
        with seam(lambda: ds[who[threading.get_ident()]]), contextlib.redirect_stdout(io.StringIO()):
            errs = turns.go([body(0), body(1)])
        need(not any(errs), "fails", f"{what}: {errs}")
        for x, sp in enumerate(sims):
            ev = self.judge(sp, ss[x], f"{what} {x}", True)
            need(ev == alone[x], "together", f"{what}: contacts differ from those of the simulation alone")
        if turns.switched:
            self.probe("switches_between_simulations", turns.switched)


def history(sims, ops):
    shim.disarm()
    s = Session(sims)
    for j, op in enumerate(ops):
        shim.CL.call("point", "op")
        shim.disarm()
        s.run(j, op)
        shim.CL.call("point", "faults")
        shim.disarm()
    return s.counts
