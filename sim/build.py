"""Where to import flowstab from: /repo/src, with extensions of the current tree.

If /repo has extensions that match the sources (content hashes in
build/.vp_stamp, written by /opt/vp/build.sh), they are used.  Otherwise the
package is copied into /verif/.build/<hash>/ and its extensions are built
there; /repo is never written to.
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def _sources():
    """Files that decide what the extensions are, as in /opt/vp/build.sh."""
    out = []
    for top in ("setup.py", "pyproject.toml", "requirements", "tests/requirements.txt", "src"):
        full = os.path.join(REPO, top)
        if os.path.isfile(full):
            out.append(top)
        for d, dirs, files in os.walk(full):
            for f in files:
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    keep = []
    for f in out:
        b = os.path.basename(f)
        if re.match(r"_cython_.*\.(cpp|c)$", b):
            continue
        if re.search(r"\.(pyx|pxd|pxi|h|hpp|c|cpp|txt)$", b) or b in ("setup.py", "pyproject.toml"):
            keep.append(f)
    return sorted(keep)


def _hash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _ext_ok():
    src = os.path.join(REPO, "src")
    so = [f for f in os.listdir(src) if re.match(r"_cython_\w+\..*\.so$", f)]
    names = {f.split(".")[0] for f in so}
    want = {f[:-4] for f in os.listdir(os.path.join(src, "flowstab"))
            if re.match(r"_cython_\w+\.pyx$", f)}
    if not want or not want <= names:
        return False
    try:
        with open(os.path.join(REPO, "build", ".vp_stamp")) as f:
            stamp = {ln.split(None, 1)[1].strip(): ln.split()[0] for ln in f if ln.strip()}
    except OSError:
        return False
    now = {f: _hash(os.path.join(REPO, f)) for f in _sources()}
    rel = {f: h for f, h in now.items() if re.search(r"\.(pyx|pxd|pxi|h|hpp|c|cpp)$|setup\.py$", f)}
    return all(stamp.get(f) == h for f, h in rel.items()) and \
        not [f for f in stamp if re.search(r"\.(pyx|pxd|pxi|h|hpp|c|cpp)$", f) and f not in now]


def source_dir(log=None):
    """Directory to put first on sys.path."""
    if _ext_ok():
        return os.path.join(REPO, "src")
    h = hashlib.sha256()
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith((".so", ".pyc")) or re.match(r"_cython_.*\.cpp$", f):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + _hash(p).encode())
    h.update(_hash(os.path.join(REPO, "setup.py")).encode())
    dest = os.path.join(VERIF, ".build", h.hexdigest()[:16])
    done = os.path.join(dest, "done")
    if os.path.exists(done):
        return os.path.join(dest, "src")
    if log:
        log("building the extensions of the current tree in a scratch copy")
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    for old in os.listdir(base):
        old = os.path.join(base, old)
        try:
            if time.time() - os.path.getmtime(old) > 1800:
                shutil.rmtree(old, ignore_errors=True)
        except OSError:
            pass
    final, dest = dest, tempfile.mkdtemp(prefix="new.", dir=base)
    for f in ("setup.py", "pyproject.toml", "README.md", "COPYING", "COPYING.LESSER", "AUTHORS",
              "CHANGELOG.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), dest)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dest, "src"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "_cython_*.cpp"))
    if os.path.isdir(os.path.join(REPO, "requirements")):
        shutil.copytree(os.path.join(REPO, "requirements"), os.path.join(dest, "requirements"))
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="2.0.0")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=dest, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise RuntimeError("the extensions of /repo do not build")
    open(os.path.join(dest, "done"), "w").close()
    try:
        os.rename(dest, final)
    except OSError:                      # another check has built it meanwhile
        shutil.rmtree(dest, ignore_errors=True)
    return os.path.join(final, "src")
