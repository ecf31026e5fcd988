"""Sessions of library calls that run as one simulated process.

A session is a list of plain operations drawn by the scenario.  It keeps its own
record of what every file should contain and tells the kernel before and after
each save, so that the scenario can judge the files after a crash.
"""
import os
import pickle

import numpy as np

from . import oracles as O
from . import shim
from . import workloads as W

NET_ATTRS = ["events_table", "times", "time_grid", "num_nodes", "node_to_label_dict", "laplacians",
             "adjacencies", "inter_T", "inter_T_lin", "T", "T_lin", "_t_start_laplacians",
             "_k_start_laplacians", "_t_stop_laplacians", "_k_stop_laplacians",
             "_overlapping_events_merged", "is_directed", "num_events", "start_time", "end_time",
             "node_array", "delta_inter_T", "delta_inter_T_lin"]


class Bad(Exception):
    """The session has seen a violation."""

    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, msg


def need(ok, cls, msg):
    if not ok:
        raise Bad(cls, msg)


def image(net):
    """Everything of a network that saving and loading has to preserve."""
    return {a: O.plain(getattr(net, a)) for a in NET_ATTRS if hasattr(net, a)}


def guard(fn, *args):
    """Run a session; violations become the payload of the job."""
    try:
        return ("ok", fn(*args))
    except Bad as b:
        return ("bad", b.cls, b.msg)


def raw_bytes(path):
    """Content of a file without passing through the simulator."""
    try:
        with shim.real.open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def relevant(img, kind, lam, tol):
    """The part of a network image that a save of this kind stores."""
    if kind == "net":
        return img
    key = {"inter": "inter_T", "inter_lin": "inter_T_lin", "T": "T", "T_lin": "T_lin"}[kind]
    d = img[key] if lam is None else {lam: img[key][lam]}
    a, b = img["_k_start_laplacians"], img["_k_stop_laplacians"]
    return {key: d, "_k_start_laplacians": a, "_k_stop_laplacians": b,
            "_t_start_laplacians": img["_t_start_laplacians"],
            "_t_stop_laplacians": img["_t_stop_laplacians"], "num_nodes": img["num_nodes"],
            "times_k_start_to_k_stop+1": np.asarray(img["times"][a:b + 1], dtype=float)}


def tolerance(kind, opts):
    if kind == "net":
        return 1e-12
    # rounding is relative to the largest element, once per difference
    return 1e-7 + 40 * (opts["tol"] if opts["round"] else 0.0)


def file_of(kind, name, comp):
    if kind == "net":
        return name + ".pickle"
    return name + (".gz" if comp else ".pickle")


def do_save(net, kind, name, lam, opts):
    if kind == "net":
        return net.save(name)
    kw = {"lamda": lam, "compressed": opts["comp"], "tol": opts["tol"], "round_zeros": opts["round"]}
    if kind in ("inter", "inter_lin"):
        kw.update(save_delta=opts["delta"], replace_existing=opts["replace"])
    return {"inter": net.save_inter_T, "inter_lin": net.save_inter_T_lin, "T": net.save_T,
            "T_lin": net.save_T_lin}[kind](name, **kw)


def do_load(kind, name, cls=None):
    from flowstab.temporal_network import ContTempNetwork
    if kind == "net":
        net = (cls or ContTempNetwork).load(name)
        img = image(net)
        return net, img
    if kind in ("inter", "inter_lin"):
        return None, O.plain(ContTempNetwork.load_inter_T(name))
    return None, O.plain(ContTempNetwork.load_T(name))


def build(spec):
    """A network with the matrices a specification asks for."""
    net = W.built(spec["events"], spec.get("how", "plain"), merge_overlapping_events=spec.get("merge", False))
    lams = spec["lams"]
    if spec["lapl"]:
        net.compute_laplacian_matrices(t_start=spec["t0"], t_stop=spec["t1"],
                                       save_adjacencies=spec["adj"])
        for lam in lams:
            net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=spec["sparse"],
                                                  dense_expm=spec["dense"])
            net.compute_transition_matrices(lamda=lam, save_intermediate=False)
            net.compute_lin_inter_transition_matrices(lamda=lam, t_s=spec["t_s"],
                                                      use_sparse_stoch=spec["sparse"])
            net.compute_lin_transition_matrices(lamda=lam, t_s=spec["t_s"], save_intermediate=False)
            if spec["two_ts"]:
                net.compute_lin_inter_transition_matrices(lamda=lam, t_s=spec["t_s"] + 1.5,
                                                          use_sparse_stoch=spec["sparse"])
                net.compute_lin_transition_matrices(lamda=lam, t_s=spec["t_s"] + 1.5,
                                                    save_intermediate=False)
    return net


def saves(specs, ops):
    """Save, load and damage files.  Returns the number of operations judged."""
    nets = [build(s) for s in specs]
    shim.disarm()
    truth = {}                   # file -> (kind, content a load has to give, tolerance)
    damaged = set()
    judged = 0
    for op in ops:
        what = op["op"]
        kind, name = op["kind"], op["name"]
        if what == "save":
            net = nets[op["net"]]
            spec = specs[op["net"]]
            if kind != "net" and not spec["lapl"]:
                continue
            o = dict(op["opts"], delta=not spec["sparse"])
            lam = None if op["lam"] is None else spec["lams"][op["lam"] % len(spec["lams"])]
            path = file_of(kind, name, o["comp"])
            before = raw_bytes(path)
            img = image(net)
            want = relevant(img, kind, lam, o["tol"])
            tol = tolerance(kind, o)
            skip = kind in ("inter", "inter_lin") and before is not None and not o["replace"]
            if not skip:
                shim.point("saving", path, pickle.dumps((kind, want, tol)))
            try:
                do_save(net, kind, name, lam, o)
                ok, err = True, None
            except Exception as e:
                ok, err = False, e
            fired = bool(shim.CL.fired) or shim.CL.call("point", "load_fault")
            shim.disarm()
            if not skip:
                shim.point("saved", path, ok)
            need(ok or fired, "save", f"{path} cannot be saved: {err!r}")
            after = raw_bytes(path)
            added = image(net)
            for a in ("delta_inter_T", "delta_inter_T_lin"):
                added.pop(a, None)
                img.pop(a, None)
            d = O.differ(added, img, 1e-12, 1e-12)
            need(d is None, "changed", f"saving {kind} changed the network: {d}")
            if not ok:
                need(after == before, "lost", f"failed save of {path} ({err!r}) changed the file")
            else:
                if skip:
                    need(after == before, "replaced", f"{path} was replaced without being asked for")
                else:
                    need(after is not None, "silent", f"save of {path} returned but there is no file")
                    if kind == "net":
                        img2 = dict(img)
                        for a in ("delta_inter_T", "delta_inter_T_lin"):
                            if hasattr(net, a):
                                img2[a] = O.plain(getattr(net, a))
                        want = img2
                    truth[path] = (kind, want, tol)
                    damaged.discard(path)
            judged += 1
        elif what == "load":
            path = file_of(kind, name, op["opts"]["comp"])
            full = path if op["full"] or kind == "net" else name
            if full == name and kind != "net":
                # the extension is found by looking at the directory
                both = [p for p in (file_of(kind, name, False), file_of(kind, name, True)) if p in truth]
                if len(both) != 1:
                    continue
                path = both[0]
            try:
                net, got = do_load(kind, name if kind == "net" else full)
                err = None
            except Exception as e:
                got, err = None, e
            fired = bool(shim.CL.fired) or shim.CL.call("point", "load_fault")
            shim.disarm()
            if path not in truth:
                need(err is not None, "invented", f"loading {path}, which was never saved, gives data")
            elif path in damaged:
                need(err is not None, "damaged", f"loading the truncated {path} gives data")
            elif err is not None:
                need(fired, "load", f"{path} cannot be loaded: {err!r}")
            else:
                k, want, tol = truth[path]
                if k == kind or (k in ("inter", "inter_lin")) == (kind in ("inter", "inter_lin")) and kind != "net" and k != "net":
                    d = O.differ(got, want, tol, tol)
                    need(d is None, "roundtrip", f"{path} ({k}) loads as something else: {d}")
                    if kind == "net" and op["use"]:
                        spec = next(s for s in specs)
                        use_loaded(net, got)
                        shim.disarm()
            judged += 1
        elif what == "compute":
            again(nets[op["net"]], specs[op["net"]], op)
            shim.disarm()
        elif what == "truncate":
            path = file_of(kind, name, op["opts"]["comp"])
            data = raw_bytes(path)
            if data:
                shim.point("damaged", path)
                with shim.real.open(path, "wb") as fh:
                    fh.write(data[:len(data) * op["cut"] // 16])
                damaged.add(path)
    return judged


def again(net, spec, op):
    """Other matrices in the same network: another window, rate or approximation."""
    if not spec["lapl"]:
        return
    times = sorted(float(t) for t in net.times)
    a, b = sorted(x % len(times) for x in op["win"])
    if op["again"] < 2 and a < b:
        net.compute_laplacian_matrices(t_start=times[a], t_stop=times[b], save_adjacencies=spec["adj"])
    lams = spec["lams"] + ([1.7] if op["again"] == 2 else [])
    for lam in lams:
        net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=spec["sparse"],
                                              dense_expm=spec["dense"])
        net.compute_transition_matrices(lamda=lam, save_intermediate=False)
        for t_s in [spec["t_s"]] + ([spec["t_s"] + 2.25] if op["again"] in (1, 3) else []):
            net.compute_lin_inter_transition_matrices(lamda=lam, t_s=t_s, use_sparse_stoch=spec["sparse"])
            net.compute_lin_transition_matrices(lamda=lam, t_s=t_s, save_intermediate=False)


def use_loaded(net, img):
    """A loaded network computes what a new network with the same events computes."""
    from flowstab.temporal_network import ContTempNetwork
    t = img["events_table"]
    fresh = ContTempNetwork(source_nodes=[int(x) for x in t["source_nodes"]],
                            target_nodes=[int(x) for x in t["target_nodes"]],
                            starting_times=list(t["starting_times"]),
                            ending_times=list(t["ending_times"]))
    for x in (net, fresh):
        x.compute_laplacian_matrices()
        x.compute_inter_transition_matrices(lamda=0.7)
    for a in ("laplacians", "inter_T"):
        d = O.differ(O.plain(getattr(net, a)), O.plain(getattr(fresh, a)))
        need(d is None, "use", f"{a} computed on a loaded network differ: {d}")
