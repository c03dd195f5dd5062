"""Single small changes of the code which its tests do not notice, and
whether the checks do.

mutate.py find OUT.jsonl [FILE...]    the changes which pass the tests
mutate.py run IN.jsonl OUT.jsonl [CNN,CNN...]   runs the likely checks (or,
                                       with ALL=1, all) against each, until one catches it
"""
import ast, json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent.parent
BASE = os.environ.get("MUT_REPO", "/repo")  # of which the mutants are made
FILES = ["_unit.py", "_unit_system.py", "_unit_reference.py", "_datetime.py", "_udunits2_xml_parser.py", "__main__.py", "_exceptions.py",
         "_grammar/__init__.py", "_expr/expander.py", "_expr/graph.py", "_expr/normaliser.py", "_expr/sympy.py", "_expr/substitute.py",
         "_expr/split.py", "_expr/dimensionality.py", "_expr/atoms.py"]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
# which checks are the likeliest to notice, by file
ORDER = {"_datetime.py": "C21 C14 C12", "_udunits2_xml_parser.py": "C16 C15", "__main__.py": "C17", "_unit_system.py": "C09 C07 C08 C14 C04 C16 C19 C11 C02",
         "_grammar/__init__.py": "C10 C11 C14 C12 C17", "_expr/expander.py": "C20 C12 C06", "_expr/sympy.py": "C01 C03 C02 C13 C05", "_expr/normaliser.py": "C14 C02 C12 C13",
         "_unit.py": "C04 C01 C02 C03 C13 C05 C06 C12 C14 C19 C09 C18 C17", "_expr/graph.py": "C12 C10 C20 C13 C17 C03", "_unit_reference.py": "C07 C12 C16 C09"}


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))

    def pos(line, col):
        return starts[line - 1] + col

    b = src.encode()

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        i, j = span(n)
        return b[i:j].decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)):
            a = getattr(n, "annotation", None) or getattr(n, "returns", None)
            if a:
                skip |= set(ast.walk(a))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Call) and text(n.func).startswith(("_log", "typing", "warnings")):
            skip |= set(ast.walk(n))
    out = []
    for n in ast.walk(tree):
        if n in skip or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            if type(n.ops[0]) in CMP:
                out.append((*span(n), f"{l} {CMP[type(n.ops[0])]} {r}"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((*span(n), "(" + op.join(f"({text(v)})" for v in n.values) + ")"))
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op1 = " and " if isinstance(n.op, ast.And) else " or "
                out.append((*span(n), "(" + op1.join(f"({text(v)})" for v in rest) + ")"))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub)):
                out.append((*span(n), f"({text(n.operand)})"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((*span(n), f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})"))
            out.append((*span(n), text(n.left)))
            out.append((*span(n), text(n.right)))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                out.append((*span(n), str(not n.value)))
            elif isinstance(n.value, int):
                out.append((*span(n), f"({n.value} + 1)"))
                if n.value:
                    out.append((*span(n), "0"))
            elif isinstance(n.value, str) and text(n)[:1] in "\"'":
                out.append((*span(n), repr(n.value + "x")))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = n.test
            out.append((*span(t), f"(not ({text(t)}))"))
            out.append((*span(t), f"(({text(t)}) and False)"))
            out.append((*span(t), f"(({text(t)}) or True)"))
        elif isinstance(n, ast.Call):
            a = n.args
            if len(a) == 2 and not any(isinstance(x, ast.Starred) for x in a):
                i, j = span(a[0])[0], span(a[1])[1]
                out.append((i, j, f"{text(a[1])}, {text(a[0])}"))
            if len(a) == 1 and not n.keywords:
                out.append((*span(n), f"({text(a[0])})"))
            if isinstance(n.func, ast.Attribute) and not a and not n.keywords:
                out.append((*span(n), text(n.func.value)))
            for k in n.keywords:
                if k.arg and len(a) + len(n.keywords) > 1:
                    i, j = span(k)
                    # with the comma after it
                    rest = b[j:].decode()
                    if rest.lstrip().startswith(","):
                        j += len(rest[:rest.index(",") + 1].encode())
                        out.append((i, j, ""))
        elif isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if n not in skip and getattr(n, "value", None) not in skip:
                out.append((*span(n), "pass"))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((*span(n), "return None"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            out.append((*span(n), "pass"))
        elif isinstance(n, (ast.For, ast.comprehension)):
            out.append((*span(n.iter), f"list({text(n.iter)})[::-1]"))
            out.append((*span(n.iter), f"list({text(n.iter)})[1:]"))
            out.append((*span(n.iter), f"list({text(n.iter)})[:-1]"))
            for c in getattr(n, "ifs", []):
                out.append((*span(c), "True"))
        elif isinstance(n, (ast.List, ast.Tuple, ast.Dict)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            xs = n.keys if isinstance(n, ast.Dict) else n.elts
            if len(xs) > 1 and isinstance(n, ast.Dict):
                i, j = span(n)
                for k in range(len(xs)):
                    kv = ", ".join(f"{text(x)}: {text(y)}" for m, (x, y) in enumerate(zip(n.keys, n.values)) if m != k and x is not None)
                    out.append((i, j, "{" + kv + "}"))
    res = []
    for i, j, new in out:
        new_b = b[:i] + new.encode() + b[j:]
        if new_b == b:
            continue
        try:
            if ast.dump(ast.parse(new_b)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        line = b[:i].count(b"\n") + 1
        res.append(dict(i=i, j=j, new=new, old=b[i:j].decode(), line=line))
    return res


def apply(repo, m):
    p = repo / "pyudunits2" / m["file"]
    b = p.read_bytes()
    assert b[m["i"]:m["j"]].decode() == m["old"]
    p.write_bytes(b[:m["i"]] + m["new"].encode() + b[m["j"]:])


def copy():
    d = pathlib.Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    shutil.copytree(BASE, d / "repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    return d


def tested(m):
    d = copy()
    repo = d / "repo"
    try:
        apply(repo, m)
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "pyudunits2"],
                           cwd=repo, env={**os.environ, "PYTHONPATH": str(repo)}, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(d)


def checked(m, only):
    d = copy()
    repo = d / "repo"
    order = ORDER.get(m["file"], "C12 C01 C14").split() if not only else only
    if os.environ.get("ALL"):
        order += [f"C{i:02}" for i in range(1, 22) if f"C{i:02}" not in order and i != 18] + ([] if "C18" in order else ["C18"])
    res = dict(m)
    try:
        apply(repo, m)
        for c in order:
            p = subprocess.run([str(V / "check.py"), c, "--tier", "quick"], cwd=V, env={**os.environ, "VERIF_REPO": str(repo), "VERIF_NPROC": "4"}, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                return dict(res, by=c, first=next((line for line in p.stdout.splitlines() if line.startswith("{")), "")[:300])
            if p.returncode not in (0, 1):
                return dict(res, by="?" + c, first=p.stdout[-400:])
        return dict(res, by="")
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "find":
        todo = []
        for f in sys.argv[3:] or FILES:
            p = pathlib.Path(BASE) / "pyudunits2" / f
            if p.exists():
                todo += [dict(m, file=f) for m in sites(p.read_text())]
        print(len(todo), flush=True)
        with ThreadPoolExecutor(int(os.environ.get("JOBS", 4))) as pool, open(sys.argv[2], "w") as out:
            for m, ok in zip(todo, pool.map(tested, todo)):
                if ok:
                    out.write(json.dumps(m) + "\n")
                    out.flush()
    else:
        only = sys.argv[4].split(",") if len(sys.argv) > 4 else None
        todo = [json.loads(line) for line in open(sys.argv[2])]
        with open(sys.argv[3], "a") as out, ThreadPoolExecutor(int(os.environ.get("JOBS", 2))) as pool:
            for r in pool.map(lambda m: checked(m, only), todo):
                out.write(json.dumps(r) + "\n")
                out.flush()


if __name__ == "__main__":
    main()
