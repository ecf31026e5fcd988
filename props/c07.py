"""C07: the staged pipeline computes the same analysis as the mathematics."""
import os

import numpy as np

from sim import clusterings as C
from sim import oracles as O
from sim import scenario as S
from sim import workloads as W
from sim.runner import Violation
from props import c06

RUNS = {"quick": 360, "thorough": 12000}
GROUP = 2
CONFIGS = ["mkl"]        # optional dependencies that may be missing
LEVEL = "exploration"
RULE = ("Each run generates a contact sequence, one of the ways to build the network from it, and options of the "
        "three stages, runs the stages one after the other in one simulated machine (batches, several workers, "
        "seeded schedules, stalls, clocks and directory orders, with results of another analysis and leftovers "
        "in the directories), and compares every slice matrix, product, integral, adjacency and clustering with "
        "a dense computation on the contact list.")
REAL = ["the three scripts", "flowstab.temporal_network", "flowstab.network_clustering",
        "flowstab.sparse_stoch_mat", "flowstab.helpers", "compiled extensions", "NumPy, SciPy, pandas"]
STUB = ["multiprocessing.Pool, ProcessPoolExecutor (simulated processes)", "file system calls", "clocks",
        "entropy"]
ASSUMPTIONS = ["positive durations; overlapping contacts of the same pair are merged on construction",
               "agreement up to the requested tolerance for small entries",
               "waiting times stay distinct in the file names"]


def net_of(events, how, perm, csv, merge=False):
    """Build the network in one of the documented ways; returns it with the contacts by node index."""
    import pandas as pd
    from flowstab.temporal_network import ContTempNetwork
    label = {"lists": lambda x: x, "table": lambda x: x, "csv": lambda x: x,
             "strings": lambda x: "abcdefghij"[(x * 7 + 3) % 10] + str(x), "sparse_ids": lambda x: 10 * x + 5,
             "instant": lambda x: x}[how]
    ev = [(label(a), label(b), s, e) for a, b, s, e in events]
    if how in ("table", "csv", "strings") and perm:
        ev = [ev[i] for i in perm]
    if how == "lists":
        net = W.make_net(ev, merge_overlapping_events=merge)
    else:
        df = pd.DataFrame(ev, columns=["source_nodes", "target_nodes", "starting_times", "ending_times"])
        if how == "csv":
            df.to_csv(csv, index=False)
            net = ContTempNetwork(events_table=csv, merge_overlapping_events=merge)
        elif how in ("strings", "sparse_ids"):
            s, t, a, b = map(list, zip(*ev))
            net = ContTempNetwork(source_nodes=s, target_nodes=t, starting_times=a, ending_times=b,
                                  relabel_nodes=True, merge_overlapping_events=merge)
        else:
            net = ContTempNetwork(events_table=df, merge_overlapping_events=merge)
    net._compute_time_grid()
    if merge:
        events = O.merged(events)
    back = {v: k for k, v in net.node_to_label_dict.items()}
    try:
        by_index = [(int(back[label(a)]), int(back[label(b)]), s, e) for a, b, s, e in events]
    except KeyError as e:
        raise Violation("labels", f"node {e} of the contacts is not in the labels {net.node_to_label_dict}")
    if sorted({e[0] for e in by_index} | {e[1] for e in by_index}) != list(range(net.num_nodes)):
        raise Violation("labels", f"labels {net.node_to_label_dict} for {net.num_nodes} nodes")
    if merge:
        t = net.events_table
        cols = ("source_nodes", "target_nodes", "starting_times", "ending_times")
        got = sorted((tuple(sorted((int(a), int(b)))), s, e) for a, b, s, e in zip(*(t[c] for c in cols)))
        want = sorted((tuple(sorted(x[:2])), *x[2:]) for x in by_index)
        if got != want or O.differ(list(t["durations"]), list(t["ending_times"] - t["starting_times"])):
            raise Violation("merged", f"contacts {events} are merged to {got}")
    return net, by_index


def save_net(net, o, d):
    os.makedirs(d, exist_ok=True)
    if o["from_net"]:
        net.time_slices_bounds = W.slice_bounds(list(net.times), dict(o, from_net=False))
        net.save(os.path.join(d, "net"),
                 attributes_list=["node_to_label_dict", "events_table", "times", "time_grid", "num_nodes",
                                  "_overlapping_events_merged", "is_directed", "time_slices_bounds"])
    else:
        net.save(os.path.join(d, "net"))


class Content(dict):
    """Content of a result file."""

    def __missing__(self, key):
        raise Violation("content", f"a result file has no {key!r}")


def content(files):
    return {n: Content(v) if isinstance(v, dict) else v for n, v in files.items()}


def expect(cls, name, got, want, tol, what):
    try:
        got = np.asarray(got, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation(cls, f"{name}: {what} is no array: {e}")
    d = O.differ(got, np.asarray(want, dtype=float), tol, tol)
    if d:
        raise Violation(cls, f"{name}: {what} differs from the direct computation: {d}")


def check_slices(d, net, o, bounds, ctx):
    got = content(S.load_all(d, "first stage"))
    tol = 1e-6 + 200 * o["tol"]
    want = W.names_stage1(o, len(bounds) - 1)
    lost = sorted(want - set(got))
    if lost:
        raise Violation("missing", f"first stage leaves no {lost[:3]}")
    for k in range(len(bounds) - 1):
        if k in o["skip"]:
            continue
        k0, k1 = net.floor(bounds[k]), net.floor(bounds[k + 1])
        if o["static"]:
            n = f"{o['name']}_static_adjacency_int{k:06d}.pickle"
            expect("static", n, got.pop(n), net.static(bounds[k], bounds[k + 1]), 1e-9, "adjacency")
        for tau in o["taus"]:
            lam = 1 / tau
            base = f"{o['name']}_tau_w{tau:.3e}_int{k:06d}_"
            for lin in [x for x, on in ((False, o["expm"]), (True, o["lin"])) if on]:
                ls = "_lin" if lin else ""
                mats = net.steps(k0, k1, lam, lin, o["t_s"])

                def window(n, r):
                    ts = net.times[k0:k1 + 1]
                    expect("window", n, r["times_k_start_to_k_stop+1"], ts, 1e-12, "list of times")
                    expect("window", n, [r["_t_start_laplacians"], r["_t_stop_laplacians"]],
                           [net.times[k0], net.times[k1]], 1e-12, "time window")
                    if r["num_nodes"] != net.n:
                        raise Violation("window", f"{n}: {r['num_nodes']} nodes instead of {net.n}")

                def value(r, key):
                    v = list(r[key].values())[0] if len(r[key]) == 1 else None
                    if v is None or O.differ(float(list(r[key])[0]), lam, 1e-9):
                        raise Violation("rate", f"{base}: rates {list(r[key])} instead of {lam}")
                    if lin:
                        if list(v) != [o["t_s"]]:
                            raise Violation("rate", f"{base}: t_s {list(v)} instead of {o['t_s']}")
                        v = v[o["t_s"]]
                    return v
                if o["inter"]:
                    n = base + ls + "_inter_trans_mat" + (".gz" if o["comp_inter"] else ".pickle")
                    r = got.pop(n)
                    window(n, r)
                    v = value(r, "inter_T" + ls)
                    if len(v) != len(mats):
                        raise Violation("length", f"{n}: {len(v)} matrices for {len(mats)} steps")
                    for i, (a, b) in enumerate(zip(v, mats)):
                        expect("inter", n, a, b, tol, f"matrix {i}")
                    ctx.probe("matrices", len(v))
                if o["slice_trans"]:
                    for rev in (False, True):
                        rs = "_reversed" if rev else ""
                        n = base + rs + ls + "_trans_mat" + (".pickle.gz" if o["comp_slice"] else ".pickle")
                        r = got.pop(n)
                        window(n, r)
                        v = value(r, "T" + ls)
                        if isinstance(v, list):
                            raise Violation("length", f"{n}: a list of {len(v)} matrices")
                        expect("product", n, v, net.product(mats, rev), tol, "product")
                        ctx.probe("products")
                        if o["flow_int"]:
                            n = base + rs + ls + "_flow_int.pickle"
                            if k1 > k0:
                                if n not in got:
                                    raise Violation("missing", f"no {n}")
                                expect("flow_int", n, got.pop(n),
                                       net.cov_integral(k0, k1, lam, lin, o["t_s"], rev), tol, "integral")
                            else:
                                got.pop(n, None)
    if got:
        raise Violation("extra", f"first stage leaves {sorted(got)[:3]}")


def check_integrals(d, net, o, p, bounds, ctx):
    got = {n: v for n, v in content(S.load_all(d, "second stage")).items() if "temp_integration" not in n}
    tol = 1e-6 + 1000 * o["tol"] + 10 * (p["rtol"] or 0)
    n = len(bounds) - 1
    grid = W.grid_stage2(p, n)
    for tau in o["taus"]:
        for kind in p["kinds"]:
            for a, b in W.pairs_stage2(p, grid):
                name = f"{o['name']}_tau_w{tau:.3e}_PT_{'lin_' if kind == 'lin' else ''}{a:06d}_to_{b:06d}.pickle"
                lo, hi = min(a, b), min(max(a, b), n)
                k0, k1 = net.floor(bounds[lo]), net.floor(bounds[hi])
                I, tot = net.itpt(k0, k1, 1 / tau, kind == "lin", o["t_s"], reverse=a > b)
                if tot == 0:
                    if name in got:
                        raise Violation("extra", f"{name}: there is nothing to integrate")
                    continue
                if name not in got:
                    raise Violation("missing", f"second stage leaves no {name}")
                r = got.pop(name)
                expect("duration", name, r["integration_time"], tot, 1e-9, "integration time")
                M = r["ITPT"]
                expect("integral", name, O.sym_from_triu(np.triu(M)), I, tol, "integral")
                if np.abs(np.tril(M, -1)).max() > 0:
                    expect("integral", name, np.tril(M, -1), np.tril(I, -1), tol, "lower part")
                ctx.probe("integrals")
    if got:
        raise Violation("extra", f"second stage leaves {sorted(got)[:3]}")


def other_analysis(ctx, o, f):
    """Results of another network whose name has the name of this one as a prefix, or the reverse."""
    name = o["name"]
    names = [name + "2", name + "_b", "x" + name, name[:-1] or "q"]
    other = names[f.choose(len(names))]
    events = [(0, 1, 0.0, 2.0), (1, 2, 1.0, 4.0), (0, 2, 3.0, 5.0)]
    oo = dict(o, name="other", num_slices=3, slice_length=None, t0=None, tend=None, from_net=False,
              taus=[5.0], static=True, flow_int=False, slice_trans=True, inter=True, expm=True, lin=True,
              sparse=True, delta=False, dense=False, skip=[], comp_slice=False, comp_inter=False, tol=1e-8, t_s=10.0)
    files = S.stage1_files(ctx, events, oo)
    return {n.replace("other_", other + "_", 1): b for n, b in files.items()}


def own(root, d, mine):
    """Remove the files of the other analysis again, checking that nobody changed them."""
    for n, b in mine.items():
        path = os.path.join(root, d, n)
        if not os.path.exists(path):
            raise Violation("foreign", f"{n} of another analysis has disappeared")
        with open(path, "rb") as fh:
            if fh.read() != b:
                raise Violation("foreign", f"{n} of another analysis has changed")
        os.unlink(path)


def run(ctx):
    w, f = ctx.w, ctx.f
    events = W.gen_events(w, 6, 12)
    o = W.gen_stage1(w, events)
    chain = w.flag(0.65)
    if chain:
        o.update(inter=True, skip=[])
        o["delta"] = not o["sparse"]
    how = ["lists", "table", "csv", "strings", "sparse_ids"][w.choose(5)]
    merge = w.flag(0.25)
    if merge:
        events = W.overlapping(w, events)
    perm = w.shuffled(list(range(len(events)))) if w.flag(0.6) else None
    k = ctx.kernel(seed=1 + f.choose(1000))
    c06.disturb(k, f)
    S.dirs(k.root, "s1", "s2", "s3")
    obj, by_index = net_of(events, how, perm, os.path.join(ctx.root(), "events.csv"), merge)
    dense = O.DenseNet(by_index)
    if list(obj.times) != dense.times:
        raise Violation("times", f"times {list(obj.times)} instead of {dense.times}")
    save_net(obj, o, os.path.join(k.root, "data"))
    bounds = W.slice_bounds(dense.times, o)
    foreign = other_analysis(ctx, o, f) if f.flag(0.4) else {}
    S.put_files(os.path.join(k.root, "s1"), foreign)
    if f.flag(0.3):
        S.put_files(os.path.join(k.root, "s1"), {f".tmp_0123_{o['name']}_tau_w{o['taus'][0]:.3e}_int000000_"
                                                 "_inter_trans_mat.pickle": b"\x80\x04"})
    ncpu = 1 + f.choose(4)
    n = 1 + f.choose(3, 0.6)
    ctx.info = {"how": how, "ncpu": ncpu, "batches": n, "chain": chain, "foreign": len(foreign),
                "options": [x for x in ("expm", "lin", "slice_trans", "inter", "sparse", "delta", "dense",
                                        "flow_int", "static", "from_net") if o[x]]}
    ctx.probe("nontrivial")
    if merge:
        ctx.probe("overlapping_contacts")
    S.run_clean(ctx, k, [S.job(f"b{i}", W.S1, W.argv_stage1(o, ncpu=ncpu, batch=(i, n))) for i in range(n)],
                "first stage")
    if foreign and not chain:
        own(k.root, "s1", foreign)
    if not foreign or not chain:
        check_slices(os.path.join(k.root, "s1"), dense, o, bounds, ctx)
    if not chain:
        return
    p = W.gen_stage2(w, o, len(bounds) - 1)
    if foreign and f.flag(0.5):
        # integrals of the other analysis, too
        S.put_files(os.path.join(k.root, "s2"), {})
    S.run_clean(ctx, k, [S.job("i", W.S2, W.argv_stage2(p, ncpu=ncpu))], "second stage")
    if foreign:
        own(k.root, "s1", foreign)
        check_slices(os.path.join(k.root, "s1"), dense, o, bounds, ctx)
    check_integrals(os.path.join(k.root, "s2"), dense, o, p, bounds, ctx)
    ints = S.bytes_of(os.path.join(k.root, "s2"))
    raws = C.raw_integrals(ints)
    if len(raws) > 12 or not w.flag(0.4):
        return
    q = W.gen_stage3(w, o["name"])
    S.run_clean(ctx, k, [S.job("c", W.S3, W.argv_stage3(q, nproc=ncpu))], "third stage")
    d3 = os.path.join(k.root, "s3")
    got = [m for m in O.listing(d3) if not m.startswith("tmpclusters_")]
    if sorted(got) != sorted("clusters_" + m for m in raws):
        raise Violation("missing", f"results {sorted(got)} for integrals {sorted(raws)}")
    for m in got:
        C.result_ok(os.path.join(d3, m), raws[m[len("clusters_"):]], q, m, ctx.cache.setdefault("seeds", {}),
                    ctx.probe)
        ctx.probe("clusterings")
