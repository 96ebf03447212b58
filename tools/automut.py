"""automut.py [--drop] SEED COUNT [FILE...]: random small changes of the package, in
copies; prints those which pass the tests and which no check reports; with
--drop, only statements are left out"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = {"P46", "P48", "P26", "P42"}


def span(src, lines, n):
    a = sum(len(x) for x in lines[:n.lineno - 1]) + n.col_offset
    b = sum(len(x) for x in lines[:n.end_lineno - 1]) + n.end_col_offset
    return a, b


CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"],
       ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"],
       ast.IsNot: ["is"]}


def mutants(src):
    """(start, end, new text, description)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and \
                n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))

    def text(n):
        a, b = span(src, lines, n)
        return src[a:b]

    def add(n, new):
        a, b = span(src, lines, n)
        if src[a:b] != new:
            out.append((a, b, new, n.lineno))
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (text(n.left), o, text(
                    n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")")
            for i in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o2.join("(%s)" % text(v) for j, v in enumerate(
                    n.values) if j != i) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % text(n.operand))
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            add(n.test, "not (%s)" % text(n.test))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                add(n, repr(not n.value))
            elif isinstance(n.value, int):
                add(n, repr(n.value + 1))
                add(n, repr(n.value - 1))
            elif isinstance(n.value, (str, bytes)) and n.value:
                add(n, repr(n.value[:-1]))
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n.value, "None")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (
                ast.Call, ast.Yield)):
            add(n, "pass")
        elif isinstance(n, (ast.AugAssign, ast.Delete)):
            add(n, "pass")
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            add(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]),
                                   text(n.args[0])))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (
                ast.Add, ast.Sub)):
            o = "-" if isinstance(n.op, ast.Add) else "+"
            if not isinstance(n.left, ast.Constant) or isinstance(
                    n.left.value, int):
                add(n, "%s %s %s" % (text(n.left), o, text(n.right)))
        elif isinstance(n, ast.Break):
            add(n, "continue")
        elif isinstance(n, ast.Continue):
            add(n, "break")
    return out


def main():
    drop = "--drop" in sys.argv
    if drop:
        sys.argv.remove("--drop")
    rnd = random.Random(int(sys.argv[1]))
    count = int(sys.argv[2])
    files = sys.argv[3:] or [f for f in sorted(os.listdir(
        "/repo/javatools")) if f.endswith(".py")]
    src = {f: open("/repo/javatools/" + f).read() for f in files}
    ms = {f: mutants(s) for f, s in src.items()}
    pool = [(f, m) for f in files for m in ms[f]]
    if drop:
        pool = [x for x in pool if x[1][2] == "pass"]
    rnd.shuffle(pool)
    props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
    claimed = sorted(x["property"] if "property" in x else x["id"]
                     for x in json.load(open(HERE + "/MANIFEST.json"))[
                         "checks"])
    d = tempfile.mkdtemp(prefix="am", dir="/tmp/w/am")
    shutil.copytree("/repo/tests", d + "/tests")
    n = caught = 0
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    for f, (a, b, new, line) in pool:
        if n >= count:
            break
        shutil.rmtree(d + "/javatools", ignore_errors=True)
        shutil.copytree("/repo/javatools", d + "/javatools")
        s = src[f]
        t = s[:a] + new + s[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        open(d + "/javatools/" + f, "w").write(t)
        try:
            r = subprocess.run(
                ["/usr/bin/faketime", "2024-09-04 12:00:00",
                 "/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x",
                 "-p", "no:cacheprovider", "-o", "python_files=*.py",
                 "tests"], cwd=d, env=env, capture_output=True, text=True,
                timeout=60)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode != 0:
            continue
        n += 1

        def related(p):
            return "javatools/" + f in json.dumps(p)
        order = [p["id"] for p in props if related(p)] + [
            p["id"] for p in props if not related(p) and
            p["id"] not in SLOW]
        order.sort(key=lambda i: (i in SLOW))
        hit, und = None, []
        for pid in order:
            try:
                r = subprocess.run(
                    ["python3", HERE + "/check.py", pid], capture_output=True,
                    text=True, env=dict(os.environ, JT_REPO=d), timeout=300)
            except subprocess.TimeoutExpired:
                und.append(pid + "(time)")
                continue
            if r.returncode == 1:
                hit = pid
                break
            if "UNDECIDED" in r.stdout or r.returncode:
                und.append(pid)
        if hit:
            caught += 1
        else:
            print("SURVIVES %s:%d  %s  ->  %s   [und: %s]" % (
                f, line, s[a:b].replace("\n", " ")[:80],
                new.replace("\n", " ")[:80], ",".join(und)), flush=True)
    print("done: %d of %d caught" % (caught, n), flush=True)
    shutil.rmtree(d, ignore_errors=True)


main()
