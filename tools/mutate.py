"""Mutation experiment: which small changes of the code do the quick checks miss?

mutate.py list [files..]                 print all mutants
mutate.py run OUT.jsonl N SEED [files..] try N random mutants in a copy of the repository (never /repo itself)
Only a way to find weak spots: survivors are read by hand (many are equivalent).
"""
import ast, json, os, pathlib, random, shutil, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path(os.environ.get("MUT_SRC", "/repo"))
W = pathlib.Path(os.environ.get("MUT_DIR", "/tmp/w/mut"))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "/", ast.Mod: "+"}
STR = {"left": "right", "right": "left", "inner": "outer", "outer": "inner", "MS": "QS", "QS": "MS", "D": "h", "YS": "QS", "w": "q", "q": "w", "p": "r", "r": "p", "all": "any", "first": "last", "last": "first", "previous": "next"}


def mutants(path):
    text = path.read_text()
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, z = span(n)
        return b[a:z].decode()
    out = []

    def put(n, new, what):
        a, z = span(n)
        out.append({"line": n.lineno, "a": a, "z": z, "old": b[a:z].decode(), "new": new, "what": what})
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr) or isinstance(n, ast.Assert) and n.msg:
            for m in ast.walk(n if not isinstance(n, ast.Assert) else n.msg):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n, False) is not None:
            for m in ast.walk(n.body[0]):
                skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for m in n.decorator_list + [x.annotation for x in n.args.args if x.annotation] + ([n.returns] if n.returns else []):
                for k in ast.walk(m):
                    skip.add(id(k))
            if any("overload" in ast.unparse(d) for d in n.decorator_list):
                for k in ast.walk(n):
                    skip.add(id(k))
        if isinstance(n, ast.AnnAssign):
            for k in ast.walk(n.annotation):
                skip.add(id(k))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            for k in ast.walk(n):
                skip.add(id(k))
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for k in n.body:
                for m in ast.walk(k):
                    infn.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in infn or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "binop")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            put(n, j.join(f"({seg(v)})" for v in n.values), "boolop")
            for v in n.values:
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(x)})" for x in n.values if x is not v) + ")", "drop-cond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, seg(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "int")
                if n.value > 1:
                    put(n, str(n.value - 1), "int")
            elif isinstance(n.value, float):
                put(n, str(n.value * 2 + 1), "float")
            elif isinstance(n.value, str) and n.value in STR:
                put(n, repr(STR[n.value]), "str")
        elif isinstance(n, ast.If):
            put(n.test, "True", "if-true")
            put(n.test, "False", "if-false")
        elif isinstance(n, ast.IfExp):
            put(n, seg(n.body), "ifexp")
            put(n, seg(n.orelse), "ifexp")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, z = span(k)
                    z2 = z
                    rest = b[z:]
                    m = len(rest) - len(rest.lstrip())
                    if rest.lstrip()[:1] == b",":
                        z2 = z + m + 1
                    out.append({"line": k.lineno, "a": a, "z": z2, "old": b[a:z2].decode(), "new": "", "what": "kwarg"})
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sort_index", "dropna", "fillna", "astype", "reindex", "rename_axis", "rename", "set_axis", "normalize", "abs"):
                put(n, seg(n.func.value), "drop-call")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop-stmt")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "drop-raise")
        elif isinstance(n, ast.AugAssign):
            put(n, "pass", "drop-aug")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n, ":" + (seg(n.upper) if n.upper else ""), "slice")
            if n.upper is not None:
                put(n, (seg(n.lower) if n.lower else "") + ":", "slice")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            put(n, "pass", "drop-assign")
        elif isinstance(n, ast.Continue):
            put(n, "break", "continue")
    for n in ast.walk(tree):  # raise statements are in skip, but removing them is of interest
        if isinstance(n, ast.Raise) and id(n) in infn:
            put(n, "pass", "drop-raise")
    good = []
    seen = set()
    for m in out:
        t = (b[:m["a"]] + m["new"].encode() + b[m["z"]:])
        if t in seen or t == b:
            continue
        seen.add(t)
        try:
            compile(t, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        m["text"] = t.decode()
        good.append(m)
    return good


def anchors():
    c = {}
    for l in (V / "properties.jsonl").read_text().splitlines():
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            c.setdefault(f, []).append(p["id"])
    extra = json.loads(os.environ.get("MUT_EXTRA", "{}"))
    for f, x in extra.items():
        c.setdefault(f, []).extend(x)
    return c


def main():
    cmd = sys.argv[1]
    A = anchors()
    if cmd == "list":
        files = sys.argv[2:] or sorted(f for f in A if f.endswith(".py"))
        t = 0
        for f in files:
            ms = mutants(SRC / f)
            t += len(ms)
            print(len(ms), f)
        print(t)
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or sorted(f for f in A if f.endswith(".py"))
    allm = [(f, k) for f in files for k in range(len(mutants(SRC / f)))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["new"]))
    random.Random(seed).shuffle(allm)
    subprocess.run(["rm", "-rf", str(W)])
    shutil.copytree(SRC, W, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests", "docs"))
    for f, k in allm[:n]:
        m = mutants(SRC / f)[k]
        if (f, m["a"], m["new"]) in done:
            continue
        (W / f).write_text(m["text"])
        t0 = time.time()
        res = {}
        killed = None
        for p in A[f]:
            e = dict(os.environ, VF_REPO=str(W), VF_GRACE="0.1")
            r = subprocess.run([sys.executable, str(V / "check.py"), p, "--jobs", os.environ.get("MUT_JOBS", "8")], env=e, capture_output=True, text=True)
            res[p] = r.returncode
            if r.returncode:
                killed = p if r.returncode == 1 else "harness:" + p
                if r.returncode == 1 or True:
                    break
        (W / f).write_text((SRC / f).read_text())
        with open(out, "a") as h:
            h.write(json.dumps({"file": f, "line": m["line"], "what": m["what"], "a": m["a"], "old": m["old"], "new": m["new"], "killed": killed, "res": res, "t": round(time.time() - t0)}) + "\n")


main()
