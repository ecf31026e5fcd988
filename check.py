#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE

Decides one property by deterministic simulation; see DESIGN.md.
"""
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "MKL_CBWR": "COMPATIBLE", "OPENBLAS_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
       "PYTHONPYCACHEPREFIX": "/nonexistent/fsim"}
PY = "/opt/venv/bin/python"

if os.environ.get("SIM_ENV") != "1":
    env = dict(os.environ, **{k: v for k, v in ENV.items()
                              if not (k == "PYTHONHASHSEED" and os.environ.get("SIM_HASHSEED"))})
    if os.environ.get("SIM_HASHSEED"):
        env["PYTHONHASHSEED"] = os.environ["SIM_HASHSEED"]
    env["SIM_ENV"] = "1"
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != VERIF]
sys.path.insert(0, VERIF)


def setup():
    import contextlib
    import io as _io

    from sim import build
    src = build.source_dir(lambda m: print(m, file=sys.stderr))
    sys.path.insert(0, src)
    from sim import shim
    shim.install(os.path.join(src, "flowstab"))
    with contextlib.redirect_stdout(_io.StringIO()):
        import flowstab
        import flowstab.network_clustering
        import flowstab.parallel_clustering
        import flowstab.parallel_expm
        import flowstab.sparse_stoch_mat
        import flowstab.synth_temp_network
        import flowstab.temporal_network
        import hickle
        import psutil
        import pandas
        import scipy.sparse.csgraph
        import scipy.sparse.linalg
    if not flowstab.__file__.startswith(src):
        raise RuntimeError(f"imported flowstab from {flowstab.__file__}")
    import logging
    logging.getLogger("flowstab").setLevel(logging.CRITICAL)
    logging.getLogger().setLevel(logging.CRITICAL)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--servers", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one index in the foreground")
    ap.add_argument("--digests", type=int, help="print the log digests of the first N runs")
    ap.add_argument("--setup", action="store_true", help="build what is needed and import it once")
    a = ap.parse_args()
    setup()
    if a.setup:
        return 0
    from sim import runner
    if a.replay:
        return runner.replay(a.replay)
    pid = a.property.upper()
    if a.one is not None or a.digests is not None:
        import json
        import shutil
        from sim import kernel
        kernel.become_subreaper()
        prop = runner.load_prop(pid)
        base = runner.scratch_base()
        try:
            g = getattr(prop, "GROUP", 1)
            cache = {}
            for j in ([a.one] if a.one is not None else range(a.digests)):
                ch = runner.make_choices(pid, a.seed, j, j // g)
                r = runner.run_one(prop, ch, base, cache, a.tier, want_log=a.one is not None)
                if a.one is not None:
                    log = r.pop("log")
                    print("\n".join(log[-400:]))
                    print(r.pop("harness"))
                    print(json.dumps(r, indent=1, default=str))
                else:
                    print(j, r["digest"], r["violation"], (r["harness"] or "")[-300:])
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return 0
    return runner.check(pid, a.tier, a.seed, a.servers, a.runs, a.cap)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2                           # no answer
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
