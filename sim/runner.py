"""Seeded search over simulated runs, shrinking, replay files and evidence."""
import gc
import importlib
import json
import os
import select
import shutil
import signal
import socket
import sys
import tempfile
import time
import traceback

from . import kernel, shim, wire
from .choices import Choices

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = shim.real.monotonic


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls, msg, **data):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.data = cls, msg, data


class Context:
    """What a property module gets for one run."""

    def __init__(self, ch, scratch, cache, tier, configs=()):
        self.conf = None
        if configs:                      # optional dependencies that are missing on this machine
            self.conf = ([None] * 3 + list(configs))[ch.choose("config", 3 + len(configs))]
        self.ch, self.scratch, self.cache, self.tier = ch, scratch, cache, tier
        self.w = ch.sub("workload")
        self.f = ch.sub("faults")
        self.kernels = []
        self.probes = {}
        self.sim_time = 0.0
        self.info = {}
        self.nroot = 0

    def root(self):
        """A fresh empty directory for one simulated machine."""
        self.nroot += 1
        d = os.path.join(self.scratch, f"m{self.nroot}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def kernel(self, seed=1, root=None, ch=None):
        k = kernel.Kernel(ch or self.ch, root or self.root(), seed)
        k.conf = self.conf
        self.kernels.append(k)
        return k

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def close(self):
        for k in self.kernels:
            k.close()
        for d in os.listdir(self.scratch):
            shutil.rmtree(os.path.join(self.scratch, d), ignore_errors=True)


def load_prop(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def run_one(prop, ch, scratch, cache, tier, want_log=False):
    """One simulated run; returns a plain dict."""
    ctx = Context(ch, scratch, cache, tier, getattr(prop, "CONFIGS", ()))
    if ctx.conf:
        ctx.probe("without_" + ctx.conf)
    res = {"violation": None, "harness": None}
    try:
        prop.run(ctx)
    except Violation as v:
        res["violation"] = (v.cls, v.msg)
    except kernel.Stuck as e:
        res["violation"] = ("stuck", str(e))
    except Exception:
        res["harness"] = traceback.format_exc()
    finally:
        try:
            ctx.close()
        except Exception:
            res["harness"] = res["harness"] or traceback.format_exc()
    faults, steps, switches, t = {}, 0, 0, 0.0
    dig, inter = [], []
    for k in ctx.kernels:
        for n, c in k.fired.items():
            faults[n] = faults.get(n, 0) + c
        steps += k.steps
        switches += k.switches
        t += k.now
        if k.ch is ctx.ch:               # references are cached between runs
            dig.append(k.digest())
            inter.append(k.interleaving())
    res.update(faults=faults, steps=steps, switches=switches, sim_time=t,
               digest="-".join(dig), inter="-".join(inter), probes=ctx.probes,
               info=ctx.info, nonzero=ch.nonzero())
    if want_log:
        res["log"] = [" ".join(map(str, e)) for k in ctx.kernels for e in k.log]
    return res


def make_choices(pid, seed, index, group):
    ch = Choices(seed=f"{seed}/{pid}/{index}")
    # runs of one group share their workload (and so its reference results)
    import random
    from .choices import _seed_of
    ch.rngs["workload"] = random.Random(_seed_of(f"{seed}/{pid}/g{group}", "workload"))
    return ch


def _serve(sock, pid, tier, scratch):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    kernel.become_subreaper()
    os.makedirs(scratch, exist_ok=True)
    prop = load_prop(pid)
    cache = {}
    gc.collect()
    gc.freeze()                      # simulated processes call gc.collect() often
    if os.environ.get("SIM_QUIET", "1") == "1":
        dn = shim.real.os_open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    while True:
        try:
            msg = wire.recv(sock)
        except wire.Gone:
            os._exit(0)
        tag, spec, want_log = msg
        if spec[0] == "search":
            ch = make_choices(pid, spec[1], spec[2], spec[3])
        else:
            ch = Choices.from_nonzero(spec[1])
        res = run_one(prop, ch, scratch, cache, tier, want_log)
        while len(cache) > 6:
            cache.pop(next(iter(cache)))
        wire.send(sock, (tag, res))


class Servers:
    def __init__(self, pid, tier, n, base):
        self.socks, self.pids = [], []
        for i in range(n):
            a, b = socket.socketpair()
            child = os.fork()
            if child == 0:
                try:
                    a.close()
                    for s in self.socks:
                        s.close()
                    _serve(b, pid, tier, os.path.join(base, f"s{i}"))
                finally:
                    os._exit(1)
            b.close()
            self.socks.append(a)
            self.pids.append(child)
        self.idle = list(range(n))
        self.n = n

    def send(self, i, tag, spec, want_log=False):
        wire.send(self.socks[i], (tag, spec, want_log))

    def wait(self, timeout=None):
        r, _, _ = select.select(self.socks, [], [], timeout)
        out = []
        for s in r:
            i = self.socks.index(s)
            tag, res = wire.recv(s)
            out.append((i, tag, res))
        return out

    def close(self):
        for s in self.socks:
            s.close()
        for p in self.pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for p in self.pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            return tempfile.mkdtemp(prefix="fsim.", dir=d)
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


def batch(servers, specs, want_log=False, deadline=None):
    """Run specs in parallel, results in order."""
    out = [None] * len(specs)
    todo = list(range(len(specs)))[::-1]
    idle = list(range(servers.n))
    busy = 0
    while todo or busy:
        while todo and idle and not (deadline and _now() > deadline):
            j = todo.pop()
            servers.send(idle.pop(), j, specs[j], want_log)
            busy += 1
        if not busy:
            break
        for i, j, res in servers.wait():
            out[j] = res
            idle.append(i)
            busy -= 1
    return out


def flatten(nonzero):
    return [(s, i, v) for s in sorted(nonzero) for i, v in
            sorted(((int(a), b) for a, b in nonzero[s].items()))]


def unflatten(items):
    d = {}
    for s, i, v in items:
        d.setdefault(s, {})[str(i)] = v
    return d


def shrink(servers, nonzero, cls, budget_s=60.0):
    """Lower and remove decisions as long as the same violation class remains."""
    deadline = _now() + budget_s
    cur = flatten(nonzero)
    tried = 0

    def same(res):
        return res and res["violation"] and res["violation"][0] == cls

    def first(cands):
        nonlocal tried
        for k in range(0, len(cands), servers.n * 2):
            if _now() > deadline:
                return None
            part = cands[k:k + servers.n * 2]
            rs = batch(servers, [("replay", unflatten(c)) for c in part], deadline=deadline)
            tried += len(part)
            for c, r in zip(part, rs):
                if same(r):
                    got = flatten(r["nonzero"])
                    return got if len(got) <= len(c) else c
        return None

    # whole streams, then blocks, then single decisions
    changed = True
    while changed and _now() < deadline:
        changed = False
        streams = sorted({s for s, _, _ in cur})
        cands = [[x for x in cur if x[0] != s] for s in streams]
        got = first(cands)
        if got is not None and len(got) < len(cur):
            cur, changed = got, True
            continue
        size = max(1, len(cur) // 2)
        while size >= 1 and _now() < deadline:
            cands = [cur[:k] + cur[k + size:] for k in range(0, len(cur), size)]
            got = first(cands)
            if got is not None and len(got) < len(cur):
                cur, changed = got, True
                size = min(size, max(1, len(cur) // 2))
                continue
            if size == 1:
                break
            size = max(1, size // 2)
    # smaller values
    changed = True
    while changed and _now() < deadline:
        changed = False
        cands = []
        for k, (s, i, v) in enumerate(cur):
            for nv in sorted({1, v // 2, v - 1}):
                if 0 < nv < v:
                    cands.append(cur[:k] + [(s, i, nv)] + cur[k + 1:])
        got = first(cands)
        if got is not None and sum(x[2] for x in got) < sum(x[2] for x in cur):
            cur, changed = got, True
    return unflatten(cur), tried


def replay_fresh(pid, tier, nonzero):
    """Replay in a fresh server process."""
    base = scratch_base()
    try:
        sv = Servers(pid, tier, 1, base)
        try:
            return batch(sv, [("replay", nonzero)], want_log=True)[0]
        finally:
            sv.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)


def known_findings(pid):
    """Listed findings of this property: {violation class or key: text}."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("finding:") and f"property={pid} " in ln:
                    key = ln.split("key=", 1)[1].split(None, 1)
                    out.append((key[0], key[1] if len(key) > 1 else ""))
    return out


def check(pid, tier, seed, nservers=None, runs=None, cap_s=None, quiet=False):
    """Search; returns exit status."""
    prop = load_prop(pid)
    t0 = _now()
    n = nservers or min(8, os.cpu_count() or 1)
    total = runs or prop.RUNS[tier]
    group = getattr(prop, "GROUP", 1)
    cap = cap_s or (240.0 if tier == "quick" else 3600.0)
    base = scratch_base()
    servers = Servers(pid, tier, n, base)
    findings = known_findings(pid)
    known_hit = {}
    stats = {"runs": 0, "faults": {}, "steps": 0, "switches": 0, "sim_time": 0.0, "probes": {}}
    inter, nontrivial = set(), set()
    samples, harness, unrepro = [], [], []
    violation = None
    ngroups = (total + group - 1) // group
    queue = list(range(ngroups))[::-1]
    digests = {}
    work = {}                        # server -> list of run indices left in its group

    def feed(i):
        if _now() - t0 > cap:
            return False
        if not work.get(i):
            if queue:
                g = queue.pop()
                work[i] = list(range(g * group, min(total, (g + 1) * group)))
            else:
                # take over half of the longest list
                most = max(work, key=lambda x: len(work[x]), default=None)
                if most is None or len(work[most]) < 1:
                    return False
                h = len(work[most]) // 2
                work[i] = work[most][h:]
                work[most] = work[most][:h]
        j = work[i].pop(0)
        servers.send(i, j, ("search", seed, j, j // group))
        return True

    try:
        busy = set(i for i in range(n) if feed(i))
        first_bad = []
        while busy:
            for i, j, r in servers.wait():
                stats["runs"] += 1
                for k, c in r["faults"].items():
                    stats["faults"][k] = stats["faults"].get(k, 0) + c
                for k, c in r["probes"].items():
                    stats["probes"][k] = stats["probes"].get(k, 0) + c
                stats["steps"] += r["steps"]
                stats["switches"] += r["switches"]
                stats["sim_time"] += r["sim_time"]
                inter.add(r["inter"])
                if r["faults"] or r["switches"] or r["probes"].get("nontrivial"):
                    nontrivial.add(r["inter"] + json.dumps(r["info"], sort_keys=True, default=str))
                digests[j] = r["digest"]
                if len(samples) < 5 and (r["faults"] or r["switches"] or r["info"]):
                    samples.append({"run": j, "seed": f"{seed}/{pid}/{j}", "faults": r["faults"],
                                    "steps": r["steps"], "switches": r["switches"],
                                    "info": r["info"], "log_digest": r["digest"]})
                if r["harness"]:
                    harness.append((j, r["harness"]))
                if r["violation"]:
                    key = next((k for k, _ in findings if r["violation"][0] == k), None)
                    if key:
                        known_hit[key] = known_hit.get(key, 0) + 1
                    else:
                        first_bad.append((j, r))
                busy.discard(i)
                if not first_bad and feed(i):
                    busy.add(i)
        if first_bad:
            for j, r in sorted(first_bad, key=lambda x: x[0])[:3]:
                violation = settle(pid, tier, seed, servers, j, r)
                if violation:
                    break
                unrepro.append({"run": j, "violation": r["violation"]})
        # determinism: repeat some runs and compare their event logs
        nrep = min(len(digests), 8 if tier == "quick" else 40)
        mism = 0
        if not violation and nrep:
            js = sorted(digests)[:: max(1, len(digests) // nrep)][:nrep]
            rs = batch(servers, [("search", seed, j, j // group) for j in js])
            mism = sum(1 for j, r in zip(js, rs) if r and r["digest"] != digests[j])
    finally:
        servers.close()
        shutil.rmtree(base, ignore_errors=True)
    wall = _now() - t0
    if unrepro and not violation:
        sys.stderr.write(f"{pid}: not reproducible: {unrepro}\n")
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0,
        "level": prop.LEVEL, "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": stats["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE + " A run is non-trivial if a fault fired, a process was preempted "
                    "or its workload exercised the property; runs are distinct by the "
                    "digest of their interleaving (who did which operation in which order) and workload.",
            "samples": samples,
            "seeds": f"{seed}/{pid}/0 .. {seed}/{pid}/{total - 1}",
            "runs_per_hour": int(stats["runs"] / wall * 3600) if wall else 0,
            "simulated_steps": stats["steps"],
            "simulated_time_s": round(stats["sim_time"], 3),
            "process_switches": stats["switches"],
            "faults_injected": dict(sorted(stats["faults"].items())),
            "distinct_interleavings": len(inter),
            "probes": dict(sorted(stats["probes"].items())),
            "determinism_reruns": nrep if not violation else 0,
            "determinism_mismatches": mism if not violation else 0,
            "harness_errors": len(harness),
            "not_reproducible": unrepro,
            "planned_runs": total,
            "known_findings_hit": known_hit,
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
        },
        "assumptions": prop.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, text in findings:
        print(f"KNOWN-FINDING: property={pid} {text}")
    if violation:
        print(f"{pid}: {violation['message']}")
        print(f"VIOLATION property={pid} replay={violation['path']}", flush=True)
        return 1
    if harness:
        sys.stderr.write(f"{pid}: {len(harness)} runs ended in an error of the harness, e.g.\n"
                         f"run {harness[0][0]}: {harness[0][1]}\n")
        if len(harness) > 0.5 * max(1, stats["runs"]):
            return 2
    if stats["runs"] == 0:
        return 2
    print(f"{pid}: held in {stats['runs']} simulated runs ({len(nontrivial)} distinct non-trivial, "
          f"{sum(stats['faults'].values())} faults, {stats['steps']} steps) in {wall:.0f} s")
    return 0


def settle(pid, tier, seed, servers, j, r):
    """Shrink a violation, replay it in a fresh process, write the replay file."""
    cls = r["violation"][0]
    again = replay_fresh(pid, tier, r["nonzero"])
    if not (again["violation"] and again["violation"][0] == cls):
        return None
    small, tried = shrink(servers, again["nonzero"], cls,
                          float(os.environ.get("SIM_SHRINK_S", 20.0 if cls == "stuck" else 45.0)))
    final = replay_fresh(pid, tier, small)
    if not (final["violation"] and final["violation"][0] == cls):
        small, final = again["nonzero"], again
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}-{j}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": f"{seed}/{pid}/{j}",
                   "violation": final["violation"], "choices": small,
                   "faults": final["faults"], "info": final["info"],
                   "log_digest": final["digest"], "shrink_runs": tried,
                   "unshrunk_choices": sum(len(m) for m in r["nonzero"].values()),
                   "shrunk_choices": sum(len(m) for m in small.values()),
                   "trace": final.get("log", [])[:4000]}, f, indent=1, default=str)
    return {"path": path, "message": f"{final['violation'][0]}: {final['violation'][1]}"[:2000]}


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    r = replay_fresh(rec["property"], rec.get("tier", "quick"), rec["choices"])
    same = r["violation"] and r["violation"][0] == rec["violation"][0]
    print(f"recorded: {rec['violation']}")
    print(f"replayed: {r['violation']} log {'identical' if r['digest'] == rec['log_digest'] else 'differs'}")
    if r["harness"]:
        print(r["harness"])
    if same:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0 if not r["violation"] else 1
