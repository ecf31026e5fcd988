"""C17: independent analyses do not disturb each other."""
import os

from props import c02, c04
from props.c12 import drive
from sim import apart
from sim import clusterings as C
from sim import oracles as O
from sim import scenario as S
from sim import workloads as W
from sim.kernel import Fault
from sim.runner import Violation

RUNS = {"quick": 500, "thorough": 16000}
GROUP = 2
LEVEL = "exploration"
RULE = ("Each run either executes 2-3 generated analyses with related names (prefixes of one another) at the same "
        "time in shared directories, each in one of the three stages, some of them twice at the same time, one of "
        "them killed, stalled or hit by errors (its workers may survive it), next to the files of analyses that do "
        "not run, and compares the files of each with those of the analysis alone; or takes turns between "
        "operations on 2-3 independent networks, guided analyses or clusterings, with interrupts, and compares "
        "each with its own reference.")
REAL = ["the three scripts", "flowstab.temporal_network", "flowstab.network_clustering", "flowstab.flow_stability",
        "flowstab.state_tracking", "flowstab.sparse_stoch_mat", "compiled extensions", "NumPy, SciPy, pandas"]
STUB = ["multiprocessing.Pool, ProcessPoolExecutor (simulated processes)", "file system calls", "clocks", "entropy"]
ASSUMPTIONS = ["fork start method", "names do not contain the pattern _tau_w..._int...",
               "each analysis has its own network file"]
FAMILIES = [["net", "net2", "net_b"], ["a", "ab", "a_b"], ["tempnet", "tempnet_tau", "tempnet_tau_w"],
            ["x", "clusters_x", "tmpclusters_x"], ["n_int", "n", "n_int000000"], ["b.c", "b", "bxc"]]


def run(ctx):
    if ctx.w.flag(0.5):
        return jobs(ctx)
    members, turns = apart.gen(ctx.w, ctx.f)
    ctx.info = {"kinds": [m["kind"] for m in members], "turns": len(turns)}
    drive(ctx, apart.history, (members, turns), len(turns), 0.5, 4, (2, 6, 20, 60))


def jobs(ctx):
    w, f = ctx.w, ctx.f
    names = w.shuffled(FAMILIES[w.choose(len(FAMILIES))])[:2 + w.choose(2)]
    same12 = w.flag(0.2)
    sets = []
    for i, name in enumerate(names):
        events, o, p, n = S.gen_for_stage2(w, small=True)
        if i and w.flag(0.6):
            o["taus"] = list(sets[0]["o"]["taus"])
        o["name"] = p["name"] = name
        p.update(intermediate=p["intermediate"] and w.flag(0.5), verbose=False)
        q = W.gen_stage3(w, name)
        stage = [0, 1, 2, 3][w.weighted([1, 3, 4, 2])]
        if i == 0 and stage == 0:
            stage = 2
        sets.append({"events": events, "o": o, "p": p, "n": n, "q": q, "stage": stage, "i": i})
    k = ctx.kernel(seed=1 + f.choose(1000))
    S.knobs(k, f)
    S.dirs(k.root, "s1", "s2", "s3")
    out2 = "s1" if same12 else "s2"
    still = {}                      # files that nobody may touch
    for s in sets:
        place(ctx, k, s, still, out2)
    def make(s, tag):
        ncpu = 1 + f.choose(3)
        a = {1: (W.S1, W.argv_stage1(s["o"], datadir=f"data{s['i']}", ncpu=ncpu)),
             2: (W.S2, W.argv_stage2(s["p"], savedir=out2, ncpu=ncpu)),
             3: (W.S3, W.argv_stage3(s["q"], nproc=ncpu))}[s["stage"]]
        return S.job(f"{s['i']}{tag}", *a)
    run_ = [s for s in sets if s["stage"]]
    js = {}
    for s in run_:
        for t in range(1 + f.choose(2, 0.65)):
            j = make(s, "ab"[t])
            js[j.name] = (s, j)
    victim = None
    if f.flag(0.6):
        victim = sorted(js)[f.choose(len(js))]
        for _ in range(1 + f.choose(2)):
            cls = ["any", "write", "create", "replace", "take", "result", "read", "stat"][f.choose(8)]
            kind = ["killjob", "kill", "mem", "intr", "stall", "eio"][f.choose(6)]
            most = {"any": 200, "write": 25, "read": 40, "stat": 40}.get(cls, 8)
            k.faults.append(Fault(cls, f.choose(max(2, most // [1, 3, 10][f.choose(3)])), kind, f.choose(48), victim))
    ctx.info = {"names": names, "stages": [s["stage"] for s in sets], "jobs": len(js), "victim": victim}
    todo = f.shuffled([j for _, j in js.values()])
    if f.flag(0.3):
        k.run(todo, drain=not f.flag(0.5))
    else:                           # the jobs do not start at the same moment
        cut = 1 + f.choose(len(todo))
        k.run(todo[:cut], drain=not f.flag(0.5))
        k.run(todo[cut:], drain=not f.flag(0.5))
    k.faults = []
    for name, (s, j) in sorted(js.items()):
        if name != victim and (not j.ok or j.hung):
            raise Violation("fails", f"job of {s['o']['name']} (stage {s['stage']}) fails next to others: "
                                     f"{(j.payload or 'killed')[-600:]}")
    if victim is not None and not js[victim][1].ok:
        s = js[victim][0]
        ctx.probe("victim_failed")
        S.run_clean(ctx, k, [make(s, "z")], "job run again")
    elif victim is not None and sum(k.fired.values()):
        # an error may have been confined to one slice or file
        S.run_clean(ctx, k, [make(js[victim][0], "z")], "job run again")
    look(ctx, k, sets, still, out2)


def place(ctx, k, s, still, out2):
    st = s["stage"]
    ev, o, p, q = s["events"], s["o"], s["p"], s["q"]
    first = S.stage1_files(ctx, ev, o)
    if st in (0, 1):
        W.write_net(ev, o, k.root, f"data{s['i']}")
        s["ref"] = S.cached(ctx, ("r1", ev, sorted(o.items())), lambda: c04.loaded(ctx, first))
    if st != 1:
        keep(k, still, "s1", first)
    if st == 2:
        s["ref"] = c02.reference(ctx, ev, o, p, s["n"])[0]
    if st in (0, 3):
        files, _ = S.stage2_files(ctx, ev, o, dict(p, intermediate=False))
        names = sorted(files)[:4]
        s["raws"] = C.raw_integrals({m: files[m] for m in names})
        keep(k, still, "s2", {m: files[m] for m in names})


def keep(k, still, d, files):
    S.put_files(os.path.join(k.root, d), files)
    still.update({f"{d}/{m}": b for m, b in files.items()})


def look(ctx, k, sets, still, out2):
    for path, data in still.items():
        try:
            with open(os.path.join(k.root, path), "rb") as fh:
                now = fh.read()
        except FileNotFoundError:
            raise Violation("removed", f"{path} of an analysis that had it from before is gone")
        if now != data:
            raise Violation("overwritten", f"{path} of an analysis that had it from before has changed")
    want = {"s1": set(), "s2": set(), "s3": set()}
    for path in still:
        want[path[:2]].add(path[3:])
    for s in sets:
        st, name = s["stage"], s["o"]["name"]
        if st == 3:
            for m in s["raws"]:
                r = "clusters_" + m
                want["s3"].add(r)
                full = os.path.join(k.root, "s3", r)
                if not os.path.exists(full):
                    raise Violation("missing", f"{name}: no {r}")
                C.result_ok(full, s["raws"][m], s["q"], f"{name}: {r}", ctx.cache.setdefault("seeds", {}), ctx.probe)
        elif st:
            d = "s1" if st == 1 else out2
            want[d] |= set(s["ref"])
            for m in sorted(s["ref"]):
                full = os.path.join(k.root, d, m)
                if not os.path.exists(full):
                    raise Violation("missing", f"{name}: no {m}")
                e = O.differ(O.read_result(full), s["ref"][m], 1e-6)
                if e:
                    raise Violation("content", f"{name}: {m} differs from that of the analysis alone: {e}")
    for d in want:
        more = [m for m in O.listing(os.path.join(k.root, d)) if m not in want[d]
                and "temp_integration" not in m and not m.startswith("tmpclusters_")]
        if more:
            raise Violation("extra", f"{d} has files of no analysis: {sorted(more)[:4]}")
    ctx.probe("nontrivial")
