"""Mutation survey: which small changes pass the repository's tests, and which of these do the checks find?

python3 tools/mutate.py list DIR              all mutants of /repo's Python and Cython sources -> DIR/mutants.json
python3 tools/mutate.py test DIR WORKERS      runs the stable tests on each              -> DIR/tested.jsonl
python3 tools/mutate.py check DIR             runs the checks which fit on the survivors -> DIR/checked.jsonl
Scratch copies of /repo are made in DIR.  Nothing in /repo is changed.
"""
import ast, glob, json, os, re, shutil, subprocess, sys, threading, time, queue

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PY = "/opt/venv/bin/python"
REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SRC = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
TYPES = {"float64": ["float32"], "int64": ["int32"], "int32": ["int16", "uint16"], "uint8": ["int8"], "uint32": ["uint16"], "float32": ["float16"], "DTYPE_FILLNOFLAT": ["np.float32"]}


def mutants_py(path, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    raw = [l.encode() for l in lines]

    def pos(line, col):
        return starts[line - 1] + len(raw[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def src(n):
        a, b = span(n)
        return text[a:b]
    out = []

    def add(n, new, kind, at=None):
        a, b = at or span(n)
        if text[a:b] != new:
            out.append((a, b, new, kind, n.lineno))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip |= set(ast.walk(d))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and re.search(r"logger|logging|warnings", src(n.func)):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip |= set(ast.walk(n)) - {n}
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            if op in CMP:
                add(n, "%s %s %s" % (src(n.left), CMP[op], src(n.comparators[0])), "compare")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            add(n, repr(n.value + 1), "constant")
            if n.value:
                add(n, repr(type(n.value)(n.value * 0.999)) if isinstance(n.value, float) else repr(n.value - 1), "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), "constant")
        elif isinstance(n, ast.BinOp):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
            if new and not isinstance(n.left, ast.Constant) or new and isinstance(getattr(n.left, "value", None), (int, float)):
                add(n, "%s %s %s" % (src(n.left), new, src(n.right)), "arithmetic")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + j.join(src(v) for v in n.values) + ")", "boolean")
            for v in n.values:
                add(n, "(" + src(v) + ")", "boolean")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, src(n.operand), "not")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "condition")
            add(n.test, "False", "condition")
        elif isinstance(n, ast.Expr) and n not in doc and n.value not in skip:
            add(n, "pass", "statement")
        elif isinstance(n, (ast.AugAssign, ast.Raise)):
            add(n, "pass", "statement")
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            add(n, "pass", "statement")
        elif isinstance(n, ast.Attribute) and n.attr in TYPES:
            for t in TYPES[n.attr]:
                a, b = span(n)
                add(n, t, "type", (b - len(n.attr), b))
        if isinstance(n, ast.Call):
            f = src(n.func)
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    pre = text[:a].rstrip()
                    if pre.endswith(","):
                        out.append((len(pre) - 1, b, "", "argument", k.lineno))
            if f.endswith((".copy", ".astype", ".close", ".sort", ".flush")) or f in ("abs", "float", "int", "sorted", "list", "round", "str", "bool", "set"):
                if isinstance(n.func, ast.Attribute):
                    add(n, src(n.func.value), "call")
                elif n.args:
                    add(n, src(n.args[0]), "call")
            if f in ("min", "max", "np.min", "np.max", "np.amin", "np.amax"):
                add(n.func, f.replace("min", "MAX").replace("max", "min").replace("MAX", "max") if "min" in f else f.replace("max", "min"), "minmax")
    seen = set()
    for a, b, new, kind, line in out:
        t = text[:a] + new + text[b:]
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        yield dict(file=os.path.relpath(path, REPO), line=line, kind=kind, a=a, b=b, old=text[a:b], new=new)


def mutants_pyx(path, text):
    for m in re.finditer(r"(?<![<>=!])(<=|>=|<|>|==|!=)(?![<>=])|\b(and|or)\b|\bnp\.(u?int\d+|float\d+)_t|(?<![\w.])(\d+)(?![\w.])| ([+-]) |\bnot\b ", text):
        line = text.count("\n", 0, m.start()) + 1
        l = text.splitlines()[line - 1]
        if l.strip().startswith("#") or '"""' in l or text[:m.start()].count('"""') % 2 or "ctypedef" in l or "import" in l:
            continue
        old = m.group(0)
        for new in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "and": ["or"], "or": ["and"], " + ": [" - "], " - ": [" + "], "not ": [""],
                    "np.int32_t": ["np.int16_t"], "np.float64_t": ["np.float32_t"], "np.int64_t": ["np.int32_t"], "np.uint8_t": ["np.int8_t"], "np.float32_t": ["np.float64_t"]}.get(
                        old, [str(int(old) + 1)] if old.isdigit() else []):
            yield dict(file=os.path.relpath(path, REPO), line=line, kind="pyx", a=m.start(), b=m.end(), old=old, new=new)


def listing(d):
    out = []
    for p in sorted(glob.glob(REPO + "/malstroem/**/*.py", recursive=True)) + sorted(glob.glob(REPO + "/malstroem/**/*.pyx", recursive=True)):
        text = open(p).read()
        out += list(mutants_py(p, text) if p.endswith(".py") else mutants_pyx(p, text))
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(os.path.join(d, "mutants.json"), "w"))
    print(len(out), "mutants")


def apply(tree, m):
    p = os.path.join(tree, m["file"])
    text = open(os.path.join(REPO, m["file"])).read()
    open(p, "w").write(text[:m["a"]] + m["new"] + text[m["b"]:])


def revert(tree, m):
    shutil.copy2(os.path.join(REPO, m["file"]), os.path.join(tree, m["file"]))


def done(path):
    return {json.loads(l)["id"] for l in open(path)} if os.path.exists(path) else set()


def pick(ms, part, parts):
    # a fixed order in which neighbours are far from each other
    n = len(ms)
    step = next(s for s in range(int(n * 0.618) | 1, n) if all(s % q or n % q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43)) and __import__("math").gcd(s, n) == 1)
    return [ms[i * step % n] for i in range(n)][part::parts]


def testing(d, workers, limit):
    ms = pick(json.load(open(os.path.join(d, "mutants.json"))), 0, 1)
    out = os.path.join(d, "tested.jsonl")
    have = done(out)
    q = queue.Queue()
    for m in ms:
        if m["id"] not in have and not m["file"].endswith(".pyx"):
            q.put(m)
    stop = time.time() + limit
    lock = threading.Lock()

    def work(k):
        tree = os.path.join(d, "w%d" % k)
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, tree])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=tree)
        while time.time() < stop:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(tree, m)
            try:
                r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--basetemp", os.path.join(d, "t%d" % k)], cwd=tree, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 124
            revert(tree, m)
            with lock, open(out, "a") as f:
                f.write(json.dumps(dict(m, rc=rc)) + "\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


FIT = {"approx.py": "C13 C14 C32 C25 C20 C24", "bluespots.py": "C08 C06 C20 C24 C25", "dem.py": "C20 C24 C01 C33", "hyps.py": "C12 C13 C25 C24 C20", "io.py": "C15 C16 C30 C23 C17 C24 C28",
       "network.py": "C10 C32 C25 C28 C20", "rain.py": "C11 C32 C25 C24 C20", "streams.py": "C09 C25 C24 C33", "vector.py": "C17 C16 C30 C09 C24 C08",
       "algorithms/fill.py": "C01 C02 C18 C20", "algorithms/flow.py": "C03 C04 C05 C26 C18 C24", "algorithms/label.py": "C06 C22 C18 C08 C24", "algorithms/net.py": "C09 C26 C25 C33",
       "algorithms/_raster_utils.py": "C22 C24 C26 C18 C03", "algorithms/dtypes.py": "C01 C02 C04 C05 C18", "algorithms/__init__.py": "C18",
       "scripts/_utils.py": "C07 C24", "__init__.py": "C18 C28"}


def checking(d, limit):
    out = os.path.join(d, "checked.jsonl")
    have = done(out)
    tree = os.path.join(d, "c")
    if not os.path.exists(tree):
        subprocess.check_call(["cp", "-a", REPO, tree])
    stop = time.time() + limit
    only = os.path.join(d, "only.json")     # [id]: the ones worth a look
    only = json.load(open(only)) if os.path.exists(only) else None
    for l in open(os.path.join(d, "tested.jsonl")):
        m = json.loads(l)
        if only is not None and m["id"] not in only:
            continue
        if m["rc"] or m["id"] in have or time.time() > stop:
            continue
        rel = m["file"].split("malstroem/", 1)[1]
        props = FIT.get(rel, "C20 C24 C19 C30 C29 C07" if rel.startswith("scripts") else "C18").split()[:int(os.environ.get("PROPS", "9"))]
        if "check_same" in m["old"]:
            props.sort(key=lambda p: p != "C24")
        apply(tree, m)
        env = dict(os.environ, MC_REPO=tree, MC_CACHE=os.path.join(d, "cache"), MC_EVIDENCE=os.path.join(d, "evidence"))
        res = "SURVIVES"
        for p in props:
            try:
                r = subprocess.run(["bash", os.path.join(V, "run.sh"), p, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                res = p + " timeout"
                break
            if r.returncode:
                res = p
                break
        revert(tree, m)
        with open(out, "a") as f:
            f.write(json.dumps(dict(m, result=res)) + "\n")
        print(m["id"], m["file"], m["line"], repr(m["old"])[:60], "->", repr(m["new"])[:60], res, flush=True)


if __name__ == "__main__":
    what, d = sys.argv[1:3]
    d = os.path.abspath(d)
    os.makedirs(d, exist_ok=True)
    if what == "list":
        listing(d)
    elif what == "test":
        testing(d, int(sys.argv[3]), float(sys.argv[4]) if len(sys.argv) > 4 else 1e9)
    else:
        checking(d, float(sys.argv[3]) if len(sys.argv) > 3 else 1e9)
