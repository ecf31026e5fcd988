"""Independent objects of the library, used in turns."""
import contextlib
import io
import warnings

import numpy as np

from . import clusterings as C
from . import guided as G
from . import louvain as V
from . import netops as N
from . import shim
from .session import need


def gen_member(w, f, kind, like=None, common=False):
    n = 4 + f.choose(9)
    if kind == 4:
        return {"kind": 4, "seed": w.choose(1000), "ops": [{"op": "draw", "how": f.choose(3)} for _ in range(n)]}
    if kind == 0:
        case = N.gen_case(w)
        if like is not None and not case["inst"] and not like["case"]["inst"] and w.flag(0.5):
            case = dict(like["case"])           # the same network, twice
        return {"kind": 0, "case": case, "ops": N.gen_ops(f, case, n + 6, f.flag(0.5))}
    if kind == 1:
        case = G.gen_case(w)
        if like is not None and w.flag(0.3):
            case = like["case"]
        return {"kind": 1, "case": case, "start": G.gen_start(f, case), "ops": G.gen_ops(f, case, 2 * n, f.choose(2, 0.7)),
                "state": f.flag(0.5)}
    ps = [V.gen_problem(w) for _ in range(1 + w.choose(2))]
    if common:
        ps = [p for p in ps if not p["kind"].startswith("static")] or [V.gen_problem(w, 0)]
    if kind == 3:
        return {"kind": 3, "ps": ps, "ops": gen_plain(f, ps, n)}
    return {"kind": 2, "ps": ps, "ops": [dict(o, op="find" if o["op"] == "together" else o["op"])
                                         for o in V.gen_ops(f, ps, n)]}


def gen_plain(f, ps, n):
    """Clusterings that are made in one turn and used in later ones."""
    out, made, seeds = [], 0, []
    for _ in range(n):
        if not made or f.flag(0.45):
            seeds.append(f.choose(6) if f.flag(0.8) else None)       # its seed, or one given later
            out.append({"op": "new", "p": f.choose(len(ps)), "seed": seeds[-1]})
            made += 1
        else:
            c = f.choose(made)
            if f.flag(0.2) or seeds[c] is None:
                seeds[c] = f.choose(6)
                out.append({"op": "find", "c": c, "seed": seeds[c], "limit": f.flag(0.1)})
            else:
                out.append({"op": "find", "c": c, "seed": None, "limit": f.flag(0.1)})
    return out


def gen(w, f):
    """Members and the order in which they take their turns."""
    kinds = [w.weighted([4, 4, 2, 3])]
    kinds.append(kinds[0])
    if w.flag(0.4):
        # exponentials of sparse matrices may draw from the common stream (inside SciPy), Louvain may not
        kinds.append(w.choose(4) if kinds[0] < 3 else 4 - w.choose(4, 0.5))
    out = []
    for k in kinds:
        out.append(gen_member(w, f, k, out[0] if out and k == kinds[0] else None, 4 in kinds))
    turns = []
    left = [len(m["ops"]) for m in out]
    burst = 1 + f.choose(4)
    while any(left):
        ok = [x for x in range(len(out)) if left[x]]
        i = ok[f.choose(len(ok))]
        k = min(left[i], 1 + f.choose(burst))
        turns += [i] * k
        left[i] -= k
    return out, turns


class Guided:
    def __init__(self, m):
        self.gone = False
        self.counts = {}
        try:
            self.h = G.History(m["case"], m["start"], m["state"], True)
            self.counts = self.h.counts
        except G.Stop:
            self.gone = True

    def run(self, j, op):
        if self.gone:
            return
        try:
            self.h.run(op)
        except G.Stop:
            self.gone = True


class Plain:
    """What each operation gives; compared with the same operations done alone."""

    def __init__(self, m):
        self.m, self.cs, self.log, self.counts = m, [], [], {}

    def run(self, j, op):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op["op"] == "new":
                c = V.make(self.m["ps"][op["p"]], None, rnd_seed=op["seed"])
                self.cs.append(c)
            else:
                c = self.cs[op["c"]]
                kw = {"n_sub_iter_max": 2} if op["limit"] else {}
                c.find_louvain_clustering(rnd_seed=op["seed"], **kw)
        self.log.append((C.key_of(c.partition.cluster_list), round(float(c.compute_stability()), 9)))

    def alone(self, i):
        other = Plain(self.m)
        for j, op in enumerate(self.m["ops"]):
            other.run(j, op)
        for j, (x, y) in enumerate(zip(self.log, other.log)):
            need(x == y, "alone", f"member {i}, operation {j} ({self.m['ops'][j]}): {x}, alone {y}")
        self.counts["alone"] = len(self.log)


class User:
    """Somebody who uses the common random numbers; his stream must be his own."""

    def __init__(self, m):
        np.random.seed(m["seed"])
        self.mine = np.random.RandomState(m["seed"])
        self.counts = {}

    def run(self, j, op):
        how = ["random_sample", "randint", "permutation"][op["how"]]
        args = [(), (1000,), (5,)][op["how"]]
        got, want = getattr(np.random, how)(*args), getattr(self.mine, how)(*args)
        need(np.array_equal(got, want), "stream", f"draw {j} of a user of numpy.random gives {got}, alone {want}")
        self.counts["draws"] = self.counts.get("draws", 0) + 1


def history(members, turns):
    shim.disarm()
    ss = []
    for m in members:
        ss.append({0: lambda: N.Session(m["case"], f"data/net{len(ss)}"), 1: lambda: Guided(m), 2: lambda: V.Session(m["ps"]),
                   3: lambda: Plain(m), 4: lambda: User(m)}[m["kind"]]())
    pos = [0] * len(ss)
    switches, last = 0, None
    for i in turns:
        op = members[i]["ops"][pos[i]]
        pos[i] += 1
        ss[i].run(pos[i], op)
        switches += last not in (None, i)
        last = i
    for i, s in enumerate(ss):
        if isinstance(s, Plain):
            s.alone(i)
    counts = {"turns_between_objects": switches}
    for s in ss:
        for k, v in s.counts.items():
            counts[k] = counts.get(k, 0) + v
    return counts
