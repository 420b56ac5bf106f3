"""Development helper: small automatic changes ("mutants") of the code under test, to find gaps.

python3 tools/mutate.py gen OUT.json N SEED [path prefix ...]   pick N mutants
python3 tools/mutate.py run OUT.json RESULT.json WORKERS         tests first, then the checks of the area
Works in scratch clones under /tmp; no check uses this file.
"""
import ast, json, os, random, shutil, subprocess, sys, threading, time
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MUT_REPO", "/repo")
VERIF = os.environ.get("MUT_VERIF", "/verif")
AREAS = [  # (path prefix, tests, properties)
    ("src/modssc/sampling", "tests/sampling", "S01 S02 S05 S04 S03 R02"),
    ("src/modssc/data_loader/catalog", "tests/data_loader", "R01 D05"),
    ("src/modssc/data_loader/providers", "tests/data_loader", "D02 D01 D05 R01"),
    ("src/modssc/data_loader/storage", "tests/data_loader", "D01 D06 D03 D02"),
    ("src/modssc/data_loader", "tests/data_loader", "D02 D05 D01 D04 D03 D06 R02 L01"),
    ("src/modssc/preprocess/steps", "tests/preprocess", "P04 P02 P03 P01 R01"),
    ("src/modssc/preprocess/cache", "tests/preprocess", "P01 P07 P03"),
    ("src/modssc/preprocess", "tests/preprocess", "P01 P02 P03 P05 P06 P07 P04 R01 R02"),
    ("src/modssc/graph/construction", "tests/graph", "G01 G02 G03 G04 G05 R02"),
    ("src/modssc/graph/featurization", "tests/graph", "G06 G07 R02"),
    ("src/modssc/graph/validation", "tests/graph", "T09 G03 G01"),
    ("src/modssc/graph", "tests/graph", "G04 G05 G07 G03 R02 T09 G01 G06"),
    ("src/modssc/views", "tests/views", "V01 R02"),
    ("src/modssc/data_augmentation", "tests/data_augmentation", "A01 A02 R01 R02"),
    ("src/modssc/evaluation", "tests/evaluation", "E01 L01"),
    ("src/modssc/hpo", "tests/hpo", "H01 H02 H03 B09"),
    ("src/modssc/supervised", "tests/supervised", "C01 C03 C02 C04 C05 C06 R01"),
    ("src/modssc/inductive/validation", "tests/inductive", "I06 I01"),
    ("src/modssc/inductive/adapters", "tests/inductive", "I06 I01 I09"),
    ("src/modssc/inductive/methods/helpers", "tests/inductive", "I07 I08 I10 I09 I05 I01 I02 I03 I04"),
    ("src/modssc/inductive", "tests/inductive", "I01 I08 I05 I10 I09 I03 I04 I02 I07 I06 R01"),
    ("src/modssc/transductive/methods/gnn", "tests/transductive", "T10 T08 T01 T04 T05 T09"),
    ("src/modssc/transductive", "tests/transductive", "T02 T06 T07 T01 T03 T04 T05 T09 T08 T10"),
    ("src/modssc/cli", "tests/cli", "L01"),
    ("bench", "", "B03 B08 B07 B10 B09 B05 B04 B11 B02 B01 B06"),
]


def area(f):
    for a in AREAS:
        if f.startswith(a[0]):
            return a
    return None


CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col  # noqa: E731
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))  # noqa: E731
    text = lambda n: raw[span(n)[0]:span(n)[1]].decode()  # noqa: E731
    out = []

    def add(a, b, new, kind, node):
        out.append({"a": a, "b": b, "new": new, "kind": kind, "line": node.lineno})

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.AnnAssign)):
            tgt = n.annotation if isinstance(n, ast.AnnAssign) else n
            skip.update(id(x) for x in ast.walk(tgt))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for part in [*n.decorator_list, n.returns, *[x.annotation for x in ast.walk(n.args) if isinstance(x, ast.arg)]]:
                if part is not None:
                    skip.update(id(x) for x in ast.walk(part))
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and "log" in ast.unparse(n.value.func).lower())):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = raw[a:b].decode()
            op = type(n.ops[0])
            if op in CMP and CMP[op][0] in mid:
                add(a, b, mid.replace(*CMP[op], 1), "cmp", n)
            elif op in (ast.In, ast.Is):
                add(*span(n), "not (" + text(n) + ")", "cmp", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            if BIN[type(n.op)][0] in mid and not isinstance(n.left, ast.Constant):
                add(a, b, mid.replace(*BIN[type(n.op)], 1), "bin", n)
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                keep = [text(v) for j, v in enumerate(n.values) if j != i]
                j = " and " if isinstance(n.op, ast.And) else " or "
                add(*span(n), "(" + j.join("(%s)" % k for k in keep) + ")", "bool", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(*span(n), "(" + text(n.operand) + ")", "not", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(*span(n), str(not n.value), "const", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(*span(n), str(n.value + 1), "const", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(*span(n), repr(n.value * 2 + 0.1), "const", n)
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and n.lineno == n.end_lineno or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(*span(n), "pass", "drop", n)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(*span(n), "pass", "drop", n)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "clone", "detach", "astype", "sort", "contiguous", "to") :
                add(*span(n), text(f.value), "unwrap", n)
            if isinstance(f, ast.Name) and f.id in ("sorted", "dict", "list", "set", "abs", "tuple", "max", "min") and len(n.args) >= 1 and not n.keywords:
                if f.id in ("max", "min"):
                    add(span(f)[0], span(f)[1], "min" if f.id == "max" else "max", "call", n)
                elif len(n.args) == 1:
                    add(*span(n), "(" + text(n.args[0]) + ")", "unwrap", n)
            if len(n.args) >= 2 and isinstance(f, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                a, b = n.args[0], n.args[1]
                if type(a) is type(b) and text(a) != text(b):
                    add(span(a)[0], span(b)[1], text(b) + raw[span(a)[1]:span(b)[0]].decode() + text(a), "swap", n)
            for kw in n.keywords:
                if kw.arg in ("dtype", "copy", "seed", "rng", "axis", "dim", "keepdims", "minlength", "kind", "sort_keys", "ensure_ascii", "default", "reduction", "generator", "random_state", "stable"):
                    s, e = off(kw.lineno, kw.col_offset), off(kw.end_lineno, kw.end_col_offset)
                    t = raw[e:e + 2].decode()
                    if t.startswith(","):
                        add(s, e + 1, "", "kw", n)
                    elif raw[s - 2:s] == b", ":
                        add(s - 2, e, "", "kw", n)
        elif isinstance(n, ast.If):
            add(*span(n.test), "not (" + text(n.test) + ")", "if", n)
            if not n.orelse:
                add(*span(n.test), "False and (" + text(n.test) + ")", "if", n)
        elif isinstance(n, ast.IfExp):
            add(*span(n.test), "not (" + text(n.test) + ")", "if", n)
    good = []
    for m in out:
        new = (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        m["diff"] = "-%s\n+%s" % (lines[m["line"] - 1].strip(), new.decode().splitlines()[m["line"] - 1].strip())
        good.append(m)
    return good


def gen(out, n, seed, prefixes):
    rng = random.Random(seed)
    files = []
    for root in ("src/modssc", "bench"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), REPO)
                if p.endswith(".py") and not p.endswith("__init__.py") and area(p) and (not prefixes or any(p.startswith(x) for x in prefixes)):
                    files.append(p)
    pool = {}
    for f in sorted(files):
        ms = mutants(open(os.path.join(REPO, f)).read())
        if ms:
            pool[f] = ms
    picked = []
    w = [len(pool[f]) ** 0.7 for f in pool]
    seen = set()
    while len(picked) < n:
        f = rng.choices(list(pool), w)[0]
        m = rng.choice(pool[f])
        if (f, m["a"], m["new"]) in seen:
            continue
        seen.add((f, m["a"], m["new"]))
        picked.append({"file": f, **m})
    json.dump(picked, open(out, "w"), indent=1)
    print(len(picked), "of", sum(map(len, pool.values())))


def sh(cmd, cwd, env=None, timeout=400):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


def run(src, dst, workers):
    todo = json.load(open(src))
    done = json.load(open(dst)) if os.path.exists(dst) else []
    key = lambda m: (m["file"], m["a"], m["new"])  # noqa: E731
    have = {key(m) for m in done}
    todo = [m for m in todo if key(m) not in have]
    lock = threading.Lock()

    def work(k):
        base = f"/tmp/mut/{os.path.basename(dst)}.{k}"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        repo, ver = base + "/repo", base + "/verif"
        subprocess.run(["git", "clone", "-q", REPO, repo], check=True)
        subprocess.run(["git", "clone", "-q", VERIF, ver], check=True)
        while True:
            with lock:
                if not todo:
                    break
                m = todo.pop()
            p = os.path.join(repo, m["file"])
            raw = open(p, "rb").read()
            open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
            env = {"PYTHONPATH": f"{repo}/src:{repo}", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
            _, tests, props = area(m["file"])
            t0 = time.time()
            res = "MISSED"
            rc = 0
            if tests:
                rc, out = sh(f"{PY} -m pytest -q --no-cov -x -p no:warnings -p no:cacheprovider {tests}", repo, env)
            if rc:
                res = "tests"
            else:
                for pr in props.split():
                    rc, out = sh(f"./run.sh {pr}", ver, {"VERIF_REPO": repo, "VERIF_SEED": "1", "VERIF_JOBS": os.environ.get("MUT_JOBS", "2")}, 900)
                    if rc == 1 and "VIOLATION" in out:
                        res = "caught " + pr
                        break
                    if rc:
                        res = f"error {pr} {rc}: {out[-300:]}"
                        break
                else:
                    if tests:
                        rc, out = sh(f"{PY} -m pytest -q --no-cov -x -p no:warnings -p no:cacheprovider tests", repo, env)
                        if rc:
                            res = "tests"
            open(p, "wb").write(raw)
            with lock:
                done.append({**m, "result": res, "secs": round(time.time() - t0)})
                json.dump(done, open(dst, "w"), indent=1)
                print(len(done), m["file"], m["line"], m["kind"], res[:80], flush=True)
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    from collections import Counter
    print(Counter(m["result"].split()[0] for m in done))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
    elif sys.argv[1] == "run":
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]))
    else:
        for m in json.load(open(sys.argv[2])):
            if m["result"].startswith(sys.argv[3]):
                print(f"## {m['file']}:{m['line']} {m['kind']} {m['result'][:100]}\n{m['diff']}")
