#!/usr/bin/env python3
"""Mutation campaign: small automatic changes to the code under test, to see
which ones no check notices.  A tool for developing the checks, not a check.

mutate.py --work DIR --out FILE --n N [--seed S] [--only REGEX] [--scale F] [--servers K]

DIR gets a copy of /verif and of /repo; /repo is never changed.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TARGETS = [   # file, functions (regex), checks in order of trial
    ("scripts/run_laplacians_transmats.py", ".*", "C01 C07 C06"),
    ("scripts/run_cov_integrals.py", ".*", "C02 C07 C06"),
    ("scripts/run_clusterings.py", ".*", "C03 C07 C06"),
    ("helpers.py", ".*", "C05 C04 C01"),
    ("temporal_network.py", r"save|load|_inter_T|inflate|delta", "C05 C01 C02"),
    ("temporal_network.py", r"compute_|_get_closest|_compute|__init__|expm|lin_approx|set_to|update|_merge|get_",
     "C14 C13 C07 C08"),
    ("flow_stability.py", ".*", "C12 C13 C17"),
    ("state_tracking.py", ".*", "C12 C13 C17"),
    ("network_clustering.py", r"^(Partition|BaseClustering|Clustering|FlowIntegralClustering|SparseClustering|norm_var)",
     "C15 C13 C09 C03 C10"),
    ("parallel_expm.py", ".*", "C08 C11"),
    ("parallel_clustering.py", ".*", "C09 C10 C11"),
    ("synth_temp_network.py", ".*", "C16"),
    ("sparse_stoch_mat.py", ".*", "C14 C07 C15"),
]
RUNS = dict(C01=320, C02=480, C03=400, C04=560, C05=900, C06=480, C07=360, C08=900, C09=700, C10=1500, C11=1000,
            C12=2000, C13=900, C14=1200, C15=2400, C16=700, C17=500)


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, kind, qual):
        a, z = pos(n)
        out.append((qual, n.lineno, kind, a, z, new))

    def noisy(n):
        t = text(n)
        return bool(re.match(r"(print|logger|warnings|traceback|gc|sys\.std|parser|time\.|t0|tk|tl|t1)\b", t)) or \
            "time.time()" in t

    def walk(n, qual):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            qual = (qual + "." if qual else "") + n.name
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or noisy(n)):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign)) and noisy(n):
            return
        if isinstance(n, ast.If) and re.search(r"verbose|print_|log_message", text(n.test)):
            for c in n.orelse:
                walk(c, qual)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
                 ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            add(n, f"({text(n.left)} {m[type(n.ops[0])]} {text(n.comparators[0])})", "cmp", qual)
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                vs = [f"({text(v)})" for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + op.join(vs) + ")", "dropcond", qual)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not", qual)
        if isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 5:
            add(n, str(n.value + 1), "const+", qual)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool", qual)
        if isinstance(n, ast.BinOp):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            if type(n.op) in m and not isinstance(n.left, ast.Constant) or isinstance(n.op, (ast.Sub, ast.Div)):
                add(n, f"({text(n.left)} {m[type(n.op)]} {text(n.right)})", "arith", qual)
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "jump", qual)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delcall", qual)
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "delaug", qual)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delset", qual)
        if isinstance(n, ast.If):
            add(n.test, "True", "iftrue", qual)
            add(n.test, "False", "iffalse", qual)
        if isinstance(n, ast.Call):
            t = text(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                add(n, text(n.func.value), "nocopy", qual)
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "copy", "deepcopy", "abs", "list", "set") and \
                    len(n.args) == 1:
                add(n, f"({text(n.args[0])})", "unwrap", qual)
            for k in n.keywords:
                if k.arg and k.arg not in ("verbose", "log_message", "file", "help", "type", "default", "nargs",
                                           "action", "dtype", "format"):
                    parts = [text(a) for a in n.args] + [
                        (f"{q.arg}={text(q.value)}" if q.arg else f"**{text(q.value)}") for q in n.keywords if q is not k]
                    add(n, f"{text(n.func)}({', '.join(parts)})", "dropkw", qual)
        for f, c in ast.iter_fields(n):
            if f in ("decorator_list",) and isinstance(n, ast.ClassDef):
                continue
            if isinstance(c, ast.AST):
                walk(c, qual)
            elif isinstance(c, list):
                for x in c:
                    if isinstance(x, ast.AST):
                        walk(x, qual)
    walk(tree, "")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--work", default="/tmp/w/mut")
    ap.add_argument("--out", default="/tmp/w/mut.jsonl")
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default=".*")
    ap.add_argument("--scale", type=float, default=0.6)
    ap.add_argument("--servers", type=int, default=8)
    a = ap.parse_args()
    v, r = os.path.join(a.work, "verif"), os.path.join(a.work, "repo")
    shutil.rmtree(a.work, ignore_errors=True)
    os.makedirs(a.work)
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "replays", "evidence", ".build", "seeded"))
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    rng = random.Random(a.seed)
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["key"] for l in open(a.out)}
    pool = []
    for f, fn, checks in TARGETS:
        p = os.path.join(r, "src/flowstab", f)
        src = open(p).read()
        ss = [s for s in sites(src) if re.search(fn, s[0] or "module") and re.search(a.only, f + ":" + s[0])]
        rng.shuffle(ss)
        pool.append([(p, f, src, s, checks) for s in ss])
    env = dict(os.environ, SIM_REPO=r, SIM_SHRINK_S="0", VERIF_SEED=str(a.seed))
    n = 0
    while n < a.n and any(pool):
        for lst in pool:
            if not lst or n >= a.n:
                continue
            p, f, src, (qual, line, kind, x, z, new), checks = lst.pop()
            b = src.encode()
            old = b[x:z].decode()
            key = f"{f}:{qual}:{kind}:{x}:{new}"
            if key in done:
                continue
            mut = (b[:x] + new.encode() + b[z:])
            try:
                compile(mut, p, "exec")
            except SyntaxError:
                continue
            n += 1
            open(p, "wb").write(mut)
            t = time.time()
            res = []
            for c in checks.split():
                q = subprocess.run([PY, os.path.join(v, "check.py"), c, "--runs", str(int(RUNS[c] * a.scale)), "--servers",
                                    str(a.servers), "--cap", "200"], env=env, cwd=v, capture_output=True, text=True)
                res.append((c, q.returncode, (q.stdout + q.stderr)[-300:] if q.returncode else ""))
                if q.returncode == 1 or q.returncode == 2 and "Traceback" in q.stderr and "import" in q.stderr:
                    break
            open(p, "w").write(src)
            rec = dict(key=key, file=f, qual=qual, line=line, kind=kind, old=old[:300], new=new[:300],
                       caught=[c for c, rc, _ in res if rc == 1], res=res, s=round(time.time() - t))
            with open(a.out, "a") as o:
                o.write(json.dumps(rec) + "\n")
            print(("caught " + rec["caught"][0]) if rec["caught"] else "SURVIVED " + str([rc for _, rc, _ in res]), f, qual, line,
                  kind, old[:80].replace("\n", " "), "->", new[:80].replace("\n", " "), rec["s"], "s", flush=True)
    shutil.rmtree(a.work, ignore_errors=True)


main()
