"""What a clustering result file has to satisfy, given its covariance integral."""
import os
import pickle

import numpy as np
import scipy.sparse as sp

from . import oracles as O
from .runner import Violation


def covariance(raw, q):
    """Dense P1 (int T P^-1 T^T dt / T) P1 of a stored integral as it is clustered, before
    p1 p1^T, and p1."""
    it = raw["integration_time"]
    if q.get("init_p1"):
        back = q["init_p1"] == "backward"
        M = raw["ITPTback" if back else "ITPT"]
        M = O.sym_from_triu(np.triu(np.asarray(M.toarray(), dtype=float))) / it
        p = raw["p2" if back else "p1"].toarray().squeeze()
    else:
        M = O.sym_from_triu(np.triu(np.asarray(raw["ITPT"].toarray(), dtype=float))) / it
        n = M.shape[0]
        M = M / n / n
        p = np.ones(n) / n
    if q["norm"]:
        for _ in range(q["norm_iter"]):
            s = M.sum(1)
            s[s == 0] = 1.0
            M = M * (p / s)[:, None]
            M = (M + M.T) / 2
    return M, p


def components(M):
    """Node lists of the connected components, in the order of their first nodes."""
    n, lab = sp.csgraph.connected_components(sp.csr_matrix(M != 0), directed=False)
    return [np.where(lab == c)[0] for c in range(n)]


def around(M, p, nodes):
    """Covariance and density with everything outside of `nodes` put together in node 0."""
    rest = np.setdiff1d(np.arange(len(p)), nodes)
    H = np.zeros((len(p), len(nodes) + 1))
    H[rest, 0] = 1
    H[nodes, 1 + np.arange(len(nodes))] = 1
    return H.T @ M @ H, H.T @ p


def louvain_once(M, p, seed, caps=None, noise=None):
    """One Louvain run of the library on the covariance M - p p^T."""
    from flowstab.network_clustering import SparseClustering
    from flowstab.sparse_stoch_mat import SparseAutocovMat
    if noise is not None:
        M = M * (1 + noise)
    S = SparseAutocovMat(PT=sp.csr_matrix(M), p1=p, p2=p, PT_symmetric=True)
    c = SparseClustering(p1=p, p2=p, T=S.PT, S=S, rnd_seed=seed)
    kw = dict(n_meta_iter_max=caps[0], n_sub_iter_max=caps[1]) if caps else {}
    c.find_louvain_clustering(verbose=0, **kw)
    return c.partition.cluster_list


def clusters_for(M, p, seed, q, noise=None):
    """The partition that a seed gives with the options q."""
    if q["comps"] != "separate":
        return key_of(louvain_once(M, p, seed, q["caps"], noise))
    out = []
    for nodes in components(M):
        if len(nodes) == 1:
            out.append({nodes[0]})
            continue
        Mc, pc = around(M, p, nodes)
        e = None if noise is None else noise[np.ix_(np.r_[nodes[0], nodes], np.r_[nodes[0], nodes])]
        part = louvain_once(Mc, pc, seed, q["caps"], e)
        parts = [[nodes[x - 1] for x in c if x > 0] for c in part]
        out += [c for c in parts if c]
    return key_of(out)


def key_of(clusters):
    return tuple(sorted(tuple(sorted(int(x) for x in c)) for c in clusters))


def robust_key(M, p, seed, q, cache):
    """Partition for this seed, or None if rounding errors can decide it."""
    k = (M.tobytes(), p.tobytes(), seed, q["comps"], q["caps"])
    if k not in cache:
        rng = np.random.RandomState(7)
        keys = set()
        for eps in (0, 1e-12, -1e-12, 1e-11):
            e = rng.rand(*M.shape) * eps
            keys.add(clusters_for(M, p, seed, q, e + e.T if eps else None))
        cache[k] = keys.pop() if len(keys) == 1 else None
        if len(cache) > 4000:
            cache.pop(next(iter(cache)))
    return cache[k]


def group_ok(seeds, stabs, counter, stab_of, repeat, n, what, best, avg_stab, avg_nclust, best_stab):
    """The part of the checks common to flow and static clusterings."""
    def bad(cls, msg):
        raise Violation(cls, f"{what}: {msg}")
    if len(seeds) != repeat or len(stabs) != repeat or sum(counter.values()) != repeat:
        bad("repetitions", f"{len(seeds)} seeds, {len(stabs)} stabilities, {sum(counter.values())} "
                           f"partitions instead of {repeat}")
    if len(set(seeds)) != repeat:
        bad("repetitions", f"repeated seeds {seeds}")
    for part in list(counter) + [best]:
        if not O.is_partition(part, n):
            bad("partition", f"not a partition of {n} nodes: {part}")
    vals = sorted(v for part, m in counter.items() for v in [stab_of(part)] * m)
    if O.differ(np.array(vals), np.array(sorted(stabs)), 1e-6, 1e-9):
        bad("stability", f"stabilities {sorted(stabs)} but the partitions have {vals}")
    if O.differ(float(best_stab), float(max(stabs)), 1e-6, 1e-9) or \
            O.differ(stab_of(best), float(max(stabs)), 1e-6, 1e-9) or key_of(best) not in counter:
        bad("best", f"best stability {best_stab}, best partition {stab_of(best)}, stabilities {stabs}")
    if O.differ(float(avg_stab), float(np.mean(stabs)), 1e-6, 1e-9):
        bad("average", f"average stability {avg_stab} of {stabs}")
    nc = sum(len(p) * m for p, m in counter.items()) / repeat
    if O.differ(float(avg_nclust), float(nc)):
        bad("average", f"average number of clusters {avg_nclust} instead of {nc}")


def nvi_ok(value, counter, repeat, n, samples, what):
    parts = [p for p, m in counter.items() for _ in range(m)]
    vals = [O.nvi(parts[i], parts[j], n) for i in range(repeat) for j in range(i)]
    total = len(vals)
    if samples is None or samples >= total:
        ok = not O.differ(float(value), float(np.mean(vals)), 1e-6, 1e-9)
    else:
        v = sorted(vals)
        lo, hi = np.mean(v[:samples]), np.mean(v[-samples:])
        ok = lo - 1e-9 <= value <= hi + 1e-9
    if not ok:
        raise Violation("nvarinf", f"{what}: variation of information {value}, pairs {vals}")


def result_ok(path, raw, q, what, cache, probe, nseeds=2):
    """Judge one result file against its integral `raw`."""
    try:
        with open(path, "rb") as f:
            r = pickle.load(f)
    except Exception as e:
        raise Violation("unreadable", f"{what}: cannot be loaded: {type(e).__name__}: {e}")
    try:
        content_ok(r, raw, q, what, cache, probe, nseeds)
    except (KeyError, TypeError, AttributeError) as e:
        if not isinstance(r, dict) or (isinstance(e, KeyError) and e.args and e.args[0] not in r
                                       and isinstance(e.args[0], str)):
            raise Violation("content", f"{what}: something is missing: {type(e).__name__}: {e}")
        raise


def content_ok(r, raw, q, what, cache, probe, nseeds):
    M, p = covariance(raw, q)
    N = len(p)
    if q["comps"]:
        comps = components(M)
        if r["ncomp"] != len(comps):
            raise Violation("components", f"{what}: {r['ncomp']} components instead of {len(comps)}")
        probe("several_components" if len(comps) > 1 else "one_component")
    if q["comps"] == "largest":
        nodes = max(comps, key=len)
        if list(r["largest_comp_nodes"]) != list(nodes):
            raise Violation("components", f"{what}: largest component {list(r['largest_comp_nodes'])} "
                                          f"instead of {list(nodes)}")
        M, p = around(M, p, nodes)
    if r["num_repeat"] != q["repeat"]:
        raise Violation("repetitions", f"{what}: num_repeat {r['num_repeat']}")
    if q.get("skip_flow"):
        if "clust_counter" in r:
            raise Violation("extra", f"{what}: clusterings that were not asked for")
        probe("no_flow_clustering")
    else:
        flow_ok(r, M, p, q, what, cache, probe, nseeds)
    if q.get("static"):
        static_ok(r, q, N, what)


def flow_ok(r, M, p, q, what, cache, probe, nseeds):
    S = M - np.outer(p, p)
    n = len(p)
    seeds, stabs = list(r["seeds"]), [float(x) for x in r["stabilites"]]
    stab_of = lambda part: O.stability(S, part)
    group_ok(seeds, stabs, r["clust_counter"], stab_of, q["repeat"], n, what, r["best_cluster"],
             r["avg_stab"], r["avg_nclust"], r["best_stab"])
    nvi_ok(r["nvarinf"], r["clust_counter"], q["repeat"], n, q["samples"], what)
    for s, v in list(zip(seeds, stabs))[:nseeds]:
        want = robust_key(M, p, s, q, cache)
        if want is None:
            probe("seed_not_robust")
            continue
        probe("seed_reproduced")
        if want not in r["clust_counter"] or O.differ(stab_of(want), v, 1e-6, 1e-9):
            raise Violation("seed", f"{what}: seed {s} gives {want} with {stab_of(want)}, "
                                    f"the file says {v} and {list(r['clust_counter'])[:3]}")


def static_ok(r, q, n, what):
    from flowstab.network_clustering import static_clustering
    A = q["static_A"]
    if "seeds_static" not in r:
        raise Violation("static", f"{what}: no static clustering")
    A = (A + A.T) / 2
    known = {}
    for s, v in zip(r["seeds_static"], r["stabilites_static"]):
        c = static_clustering(A, rnd_seed=s)
        kw = dict(n_meta_iter_max=q["caps"][0], n_sub_iter_max=q["caps"][1]) if q["caps"] else {}
        c.find_louvain_clustering(verbose=0, **kw)
        k = key_of(c.partition.cluster_list)
        known[k] = c.compute_stability()
        if k not in r["clust_counter_static"] or O.differ(float(v), float(known[k]), 1e-6, 1e-9):
            raise Violation("static", f"{what}: static seed {s} gives {k} with {known[k]}, not {v}")
    group_ok(list(r["seeds_static"]), [float(x) for x in r["stabilites_static"]],
             r["clust_counter_static"], lambda p: float(known.get(key_of(p), np.nan)), q["repeat"], n,
             what + " (static)", r["best_cluster_static"], r["avg_stab_static"],
             r["avg_nclust_static"], r["best_stab_static"])
    nvi_ok(r["nvarinf_static"], r["clust_counter_static"], q["repeat"], n, q["samples"], what + " (static)")


def raw_integrals(files):
    return {n: pickle.loads(b) for n, b in files.items()
            if n.endswith(".pickle") and "temp_integration" not in n and "static" not in n}
