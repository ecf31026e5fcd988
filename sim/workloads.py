"""Generated workloads: temporal networks and options of the three stages."""
import os


def gen_events(w, nmax=6, emax=14):
    """A small contact sequence without overlapping events on the same pair."""
    n = 3 + w.choose(nmax - 2)
    kind = w.choose(4)               # times: integers, eighths, floats, large offset
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    events = []
    # every node takes part in at least one event
    order = [(i, i + 1) for i in range(n - 1)]
    extra = [p for p in pairs if p not in order]
    for p in extra:
        if w.flag(0.35):
            order.append(p)
    for (a, b) in order:
        t = w.choose(24)
        reps = 1 + w.choose(3, 0.5)
        for _ in range(reps):
            if len(events) >= emax:
                break
            d = 1 + w.choose(10)
            s, e = t, t + d
            if w.flag(0.3):
                a, b = b, a
            events.append((a, b, s, e))
            t = e + w.choose(8)
    jit = [w.choose(1000) for _ in range(4)]
    out = []
    for k, (a, b, s, e) in enumerate(events):
        if kind == 0:
            f = float
        elif kind == 1:
            f = lambda x: x / 8.0
        elif kind == 2:
            # strictly monotone distortion: overlaps are unchanged
            f = lambda x: x * 0.37 + (x * x) * 1e-3 * (1 + jit[0] / 500.0) + jit[1] / 777.0
        else:
            f = lambda x: 1000.0 + x * (0.25 + jit[2] / 4000.0)
        out.append((a, b, f(s), f(e)))
    out.sort(key=lambda ev: (ev[2], ev[3]))
    return out


def overlapping(w, events):
    """Further contacts of pairs that are in contact already: inside, across the end, equal or chained."""
    out = list(events)
    for _ in range(1 + w.choose(3)):
        a, b, s, e = out[w.choose(len(out))]
        m = w.choose(4)
        d = e - s
        x, y = [(s + d * 0.25, e - d * 0.25), (s + d * 0.5, e + d * 0.75), (s, e), (s, e + d * 0.5)][m]
        if w.flag(0.5):
            a, b = b, a
        out.append((a, b, x, y))
    out.sort(key=lambda ev: (ev[2], ev[3]))
    return out


def make_net(events, cls=None, **kw):
    from flowstab.temporal_network import ContTempNetwork
    s, t, a, b = map(list, zip(*events))
    return (cls or ContTempNetwork)(source_nodes=s, target_nodes=t, starting_times=a,
                                    ending_times=b, **kw)


HOWS = ["plain", "shuffled", "table", "kept", "labels", "named", "attrs", "own"]
TABLES = {}                          # tables of the caller, used for several networks


def built(events, how="plain", inst=False, **kw):
    """The same network, built in one of the ways the class offers; node i is always number i."""
    import pandas as pd
    from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork
    cls = ContTempInstNetwork if inst else ContTempNetwork
    ev = list(events)
    if how != "plain":
        m = len(ev) // 2
        ev = ev[m:][::-1] + ev[:m]
    if how in ("labels", "named"):
        ev = [(f"n{a:03d}", f"n{b:03d}", s, e) for a, b, s, e in ev]
    if how == "kept":
        kw["reset_event_table_index"] = False
    if how == "attrs" and not inst:
        kw["extra_attrs"] = {"place": [f"at {x}" for x in ev]}
    nodes = sorted({x for e in ev for x in e[:2]})
    if how == "own":
        kw.update(relabel_nodes=False, node_to_label_dict={i: f"n{i:03d}" for i in nodes})
    s, t, a, b = map(list, zip(*ev))
    cols = {"source_nodes": s, "target_nodes": t, "starting_times": a}
    if not inst:
        cols["ending_times"] = b
    elif how in ("table", "kept", "named"):
        u = sorted(set(a))
        nxt = dict(zip(u, u[1:] + [u[-1] + 1]))
        cols["ending_times"] = [nxt[x] for x in a]
    if how in ("table", "kept", "named"):
        # rows in any order; a kept index has gaps and follows the starting times
        rank = {i: r for r, i in enumerate(sorted(range(len(ev)), key=lambda i: ev[i][2:4] if not inst else ev[i][2]))}
        index = [3 + 7 * rank[i] if how == "kept" else 50 - i for i in range(len(ev))]
        key = (how, inst, tuple(ev))
        df = TABLES.get(key)
        if df is None:
            df = TABLES[key] = pd.DataFrame(cols, index=index)
        net = cls(events_table=df, **kw)
    else:
        net = cls(**cols, **kw)
    from .session import need
    if how == "attrs" and not inst and not kw.get("merge_overlapping_events"):
        got = net.events_table
        for r in zip(got["source_nodes"], got["target_nodes"], got["starting_times"], got["ending_times"], got["place"]):
            need(r[4] == f"at {tuple(r[:4])}", "attrs", f"contact {r[:4]} has the attribute {r[4]!r}")
    if how == "own":
        need(net.node_to_label_dict == {i: f"n{i:03d}" for i in nodes}, "labels", f"labels {net.node_to_label_dict}")
    if how in ("labels", "named"):
        want = {i: x for i, x in enumerate(sorted(set(s) | set(t)))}
        need(net.node_to_label_dict == want, "labels", f"labels {net.node_to_label_dict} instead of {want}")
    return net


def slice_bounds(times, o):
    """Boundaries of the time slices that the first stage uses (documented rule)."""
    t0 = o["t0"] if o["t0"] is not None else times[0]
    tend = o["tend"] if o["tend"] is not None else times[-1]
    length = o["slice_length"]
    if length is None:
        length = (tend - t0) / o["num_slices"]
    out = [t0]
    t = t0
    while t < tend:
        t += length
        out.append(t)
    return out


TAUS = [1.0, 0.5, 2.0, 0.1, 3.0, 10.0, 1 / 3, 0.12345, 7.7, 100.0]


def gen_taus(w):
    """Three waiting times: apart, nearly equal, or very long."""
    first = w.choose(len(TAUS))
    taus = [TAUS[(first + 3 * i) % len(TAUS)] for i in range(3)]
    k = w.choose(3, 0.7)
    if k == 1:
        taus[1] = taus[0] * [1 + 4e-6, 1 + 3e-4][w.choose(2)]
    elif k == 2:
        taus[:2] = [1.25e8, 4e8]
    return taus


def gen_stage1(w, events, full=True):
    """Options of run_laplacians_transmats (supported combinations only)."""
    times = sorted({e[2] for e in events} | {e[3] for e in events})
    o = {"num_slices": [2, 1, 3, 4, 5][w.choose(5)], "slice_length": None, "t0": None, "tend": None,
         "from_net": False, "skip": []}
    span = times[-1] - times[0]
    m = w.choose(5, 0.5)
    if m == 1:
        o["slice_length"] = span / (1.3 + w.choose(3))
    elif m == 2:
        o["t0"] = times[w.choose(max(1, len(times) // 3))]
        o["tend"] = times[-1 - w.choose(max(1, len(times) // 3))]
    elif m == 3:
        o["t0"] = times[0] + span * 0.13
    elif m == 4:
        o["from_net"] = True
    k = 1 + w.choose(2)
    first = w.choose(len(TAUS))
    o["taus"] = [TAUS[(first + 3 * i) % len(TAUS)] for i in range(k)]
    both = w.choose(3)
    o["expm"] = both in (0, 1)
    o["lin"] = both in (0, 2)
    o["slice_trans"] = w.flag(0.7)
    o["inter"] = w.flag(0.75) or not o["slice_trans"]
    o["sparse"] = not w.flag(0.3)
    o["delta"] = not o["sparse"] and o["inter"]      # plain matrices are saved as differences
    o["dense"] = not o["sparse"] and w.flag(0.5)
    o["comp_slice"] = w.flag(0.25)
    o["comp_inter"] = w.flag(0.25)
    o["force_csr"] = w.flag(0.3)
    o["flow_int"] = o["slice_trans"] and w.flag(0.35)
    o["static"] = w.flag(0.3)
    o["t_s"] = [10.0, 2.0, 5.5][w.choose(3, 0.5)]
    o["tol"] = [1e-8, 1e-12, 1e-6][w.choose(3, 0.6)]
    if w.flag(0.15):
        o["skip"] = [w.choose(3)]
    o["name"] = ["tempnet", "net_b", "a", "tempnet2", "x_tau_y"][w.choose(5, 0.6)]
    return o


def argv_stage1(o, datadir="data", savedir="s1", ncpu=1, batch=None):
    a = ["--datadir", datadir, "--net_filename", "net", "--savedir", savedir,
         "--ncpu", str(ncpu), "--net_name", o["name"], "--t_s", repr(o["t_s"]),
         "--tol", repr(o["tol"]), "--num_slices", str(o["num_slices"])]
    if o["slice_length"] is not None:
        a += ["--slice_length", repr(o["slice_length"])]
    if o["t0"] is not None:
        a += ["--t0", repr(o["t0"])]
    if o["tend"] is not None:
        a += ["--tend", repr(o["tend"])]
    a += ["--tau_w_list"] + [repr(t) for t in o["taus"]]
    for key, opt, neg in (("expm", "--not_expm_transmat", True), ("lin", "--not_lin_transmat", True),
                          ("slice_trans", "--save_slice_trans", False),
                          ("comp_slice", "--compress_slice_trans", False),
                          ("force_csr", "--force_csr", False), ("inter", "--save_inter_T", False),
                          ("comp_inter", "--compress_inter_T", False),
                          ("delta", "--save_delta_inter_T", False),
                          ("sparse", "--not_use_sparse_stoch", True),
                          ("dense", "--use_dense_expm", False),
                          ("flow_int", "--save_flow_int", False),
                          ("static", "--save_static_adjacencies", False),
                          ("from_net", "--time_slices_from_net_file", False)):
        if bool(o[key]) != neg:
            a.append(opt)
    if o["skip"]:
        a += ["--intervals_to_skip"] + [str(k) for k in o["skip"]]
    if batch:
        a += ["--batch_num", str(batch[0]), "--total_num_batches", str(batch[1])]
    return a


def names_stage1(o, nslices):
    """Files that the first stage has to leave, by the documented names."""
    out = set()
    for k in range(nslices):
        if k in o["skip"]:
            continue
        if o["static"]:
            out.add(f"{o['name']}_static_adjacency_int{k:06d}.pickle")
        for tau in o["taus"]:
            base = f"{o['name']}_tau_w{tau:.3e}_int{k:06d}_"
            for on, lin in ((o["expm"], ""), (o["lin"], "_lin")):
                if not on:
                    continue
                if o["inter"]:
                    out.add(base + lin + "_inter_trans_mat" + (".gz" if o["comp_inter"] else ".pickle"))
                if o["slice_trans"]:
                    for rev in ("", "_reversed"):
                        ext = ".pickle.gz" if o["comp_slice"] else ".pickle"
                        out.add(base + rev + lin + "_trans_mat" + ext)
    return out


def write_net(events, o, root, datadir="data"):
    """Store the network where the first stage finds it (outside simulation)."""
    d = os.path.join(root, datadir)
    os.makedirs(d, exist_ok=True)
    net = make_net(events)
    net._compute_time_grid()
    if o.get("from_net"):
        net.time_slices_bounds = slice_bounds(list(net.times), dict(o, from_net=False))
        attrs = ["node_to_label_dict", "events_table", "times", "time_grid", "num_nodes",
                 "_overlapping_events_merged", "is_directed", "time_slices_bounds"]
        net.save(os.path.join(d, "net"), attributes_list=attrs)
    else:
        net.save(os.path.join(d, "net"))


def gen_stage2(w, o, nslices):
    """Options of run_cov_integrals for the files of a first stage."""
    p = {"t_s": o["t_s"], "tol": o["tol"], "name": o["name"]}
    m = w.choose(4, 0.4)
    p["int_length"] = p["int_list"] = p["num_points"] = None
    if m == 1 and nslices >= 2:
        p["int_length"] = 2
    elif m == 2 and nslices >= 2:
        inner = [k for k in range(1, nslices) if w.flag(0.5)]
        p["int_list"] = [0] + inner + [nslices]
    elif m == 3:
        p["num_points"] = 1 + w.choose(nslices)
    else:
        p["int_length"] = 1
    p["direction"] = ["both", "forward", "backward"][w.choose(3, 0.5)]
    p["only"] = ["", "--only_from_start_and_finish", "--only_from_start", "--only_from_finish",
                 "--only_one_interval"][w.choose(5, 0.5)]
    kind = []
    if o["expm"]:
        kind.append("expm")
    if o["lin"]:
        kind.append("lin")
    p["kinds"] = kind
    if len(kind) == 2:
        k = w.choose(3)
        if k:
            p["kinds"] = [kind[k - 1]]
    p["intermediate"] = w.flag(0.4)
    p["rtol"] = [None, 1e-9][w.choose(2, 0.7)]
    p["verbose"] = w.flag(0.15)
    return p


def grid_stage2(p, nslices):
    if p["int_list"]:
        return list(p["int_list"])
    step = p["int_length"]
    if step is None:
        step = nslices // p["num_points"]
    return list(range(0, nslices + 1, step))


def argv_stage2(p, datadir="s1", savedir="s2", ncpu=1):
    a = ["--datadir", datadir, "--savedir", savedir, "--ncpu", str(ncpu), "--net_name", p["name"],
         "--t_s", repr(p["t_s"]), "--tol", repr(p["tol"]), "--time_direction", p["direction"]]
    if p["int_length"] is not None:
        a += ["--int_length", str(p["int_length"])]
    if p["int_list"]:
        a += ["--int_list"] + [str(k) for k in p["int_list"]]
    if p["num_points"] is not None:
        a += ["--num_points", str(p["num_points"])]
    if p["only"]:
        a.append(p["only"])
    if p["kinds"] == ["expm"]:
        a.append("--only_expm_transmats")
    elif p["kinds"] == ["lin"]:
        a.append("--only_lin_transmats")
    if p["intermediate"]:
        a.append("--save_intermediate")
    if p["rtol"] is not None:
        a += ["--integral_rtol", repr(p["rtol"])]
    if p["verbose"]:
        a += ["--verbose", "--verbose_sparse_matmul", "--print_interval", "1"]
    return a


def pairs_stage2(p, grid):
    """(start, stop) grid points for which integrals are asked for."""
    out = []
    n = len(grid)
    fw, bw = p["direction"] in ("both", "forward"), p["direction"] in ("both", "backward")
    one = p["only"] == "--only_one_interval"

    def forward(i):
        return [(grid[i], grid[j]) for j in range(i + 1, n)][:1 if one else None]

    def backward(i):
        return [(grid[i], grid[j]) for j in range(i - 1, -1, -1)][:1 if one else None]

    if p["only"] == "--only_from_start":
        return forward(0)
    if p["only"] == "--only_from_finish":
        return backward(n - 1)
    if fw:
        for i in ([0] if p["only"] == "--only_from_start_and_finish" else range(n - 1)):
            out += forward(i)
    if bw:
        for i in ([n - 1] if p["only"] == "--only_from_start_and_finish" else range(1, n)):
            out += backward(i)
    return out


def gen_stage3(w, name):
    q = {"name": name, "repeat": 2 + w.choose(3), "nproc_clust": 1 + w.choose(3, 0.5),
         "tmp": w.flag(0.5), "samples": None, "static": False, "norm": True,
         "rtol": None, "verbose": w.flag(0.2), "comps": "", "norm_iter": 10, "caps": None}
    q["comps"] = ["", "separate", "largest"][w.choose(3, 0.5)]
    q["norm_iter"] = [10, 1, 0, 25][w.choose(4, 0.7)]
    q["caps"] = [None, (1, 1), (2, 1), (1, 100), (100, 2)][w.choose(5, 0.8)]
    m = w.choose(4, 0.6)
    if m == 1:
        q["samples"] = 1 + w.choose(4)
    elif m == 2:
        q["norm"] = False
    elif m == 3:
        q["rtol"] = 1e-9
    return q


def argv_stage3(q, datadir="s2", savedir="s3", nproc=1):
    a = ["--datadir", datadir, "--savedir", savedir, "--net_name", q["name"],
         "--nproc_files", str(nproc), "--nproc_clustering", str(q["nproc_clust"]),
         "--num_repeat", str(q["repeat"])]
    if q["tmp"]:
        a.append("--save_clustering_before_nvarinf")
    if q["samples"] is not None:
        a += ["--num_varinf_samples", str(q["samples"])]
    if not q["norm"]:
        a.append("--not_normalize_cov_mat")
    if q["rtol"] is not None:
        a += ["--integral_rtol", repr(q["rtol"])]
    if q["static"]:
        a.append("--compute_static_clustering")
    if q["comps"]:
        a.append({"separate": "--separate_comps", "largest": "--only_largest_comp"}[q["comps"]])
    if q["norm_iter"] != 10:
        a += ["--num_norm_iter", str(q["norm_iter"])]
    if q["caps"]:
        a += ["--n_meta_iter_max", str(q["caps"][0]), "--n_sub_iter_max", str(q["caps"][1])]
    if q.get("skip_flow"):
        a.append("--not_compute_clustering")
    if q.get("init_p1"):
        a += ["--init_p1", "--direction", q["init_p1"]]
    if q["verbose"]:
        a += ["--verbose", "1", "--clust_verbose", "2", "--print_num_loops"]
    return a


S1 = "flowstab.scripts.run_laplacians_transmats"
S2 = "flowstab.scripts.run_cov_integrals"
S3 = "flowstab.scripts.run_clusterings"
