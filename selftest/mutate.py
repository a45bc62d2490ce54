"""Random small changes of the functions under contract that the test suite accepts: which does the owning check report, and with an input?
   python3 selftest/mutate.py SEED COUNT     (COUNT mutants are tried; prints the ones the tests accept)"""
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sites(fn):
    """[(description, function that changes a copy)]: every mutation is (node index, kind)"""
    out = []
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE, ast.Lt), ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq, ast.GtE, ast.LtE), ast.NotEq: (ast.Eq, ast.Lt, ast.Gt),
                        ast.In: (ast.NotIn,), ast.NotIn: (ast.In,), ast.Is: (ast.IsNot,)}.get(type(n.ops[0]), ()):
                out.append((i, "cmp", new))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out += [(i, "const", n.value + 1), (i, "const", n.value - 1)]
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, "const", not n.value))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", ast.Or if isinstance(n.op, ast.And) else ast.And))
            out += [(i, "dropval", k) for k in range(len(n.values))]
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, "unnot", None))
        elif isinstance(n, ast.BinOp):
            for new in {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Add,), ast.FloorDiv: (ast.Mod,), ast.Mod: (ast.FloorDiv,), ast.BitAnd: (ast.BitOr, ast.Sub), ast.BitOr: (ast.BitAnd,)}.get(type(n.op), ()):
                out.append((i, "bin", new))
            if not isinstance(n.op, ast.Add) or True:
                out += [(i, "left", None), (i, "right", None)]
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((i, "swap", None))
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "sorted", "reversed", "tuple") and len(n.args) == 1 or isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "lower"):
                out.append((i, "unwrap", None))
            if n.keywords:
                out += [(i, "dropkw", k) for k in range(len(n.keywords))]
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out += [(i, "test", True), (i, "test", False)]
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((i, "noif", None))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((i, "jump", None))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            out.append((i, "swapix", None))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2:
            out.append((i, "swapelts", None))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            others = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id != n.id and isinstance(x.ctx, ast.Store)})
            out += [(i, "name", o) for o in others[:4]]
        if hasattr(n, "body") and isinstance(n.body, list) and not isinstance(n, ast.ClassDef):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.If, ast.For)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((i, "del", k))
                if k and isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign)) and isinstance(n.body[k - 1], (ast.Expr, ast.AugAssign, ast.Assign)):
                    out.append((i, "order", k))
                if isinstance(n, (ast.For, ast.If)) and k == len(n.body) - 1:
                    out.append((i, "outdent", k))
    return out


def mutate(fn, site):
    i, kind, x = site
    n = list(ast.walk(fn))[i]

    def put(new):
        class R(ast.NodeTransformer):
            def visit(self, m):
                return new if m is n else self.generic_visit(m)
        R().visit(fn)
    if kind == "cmp":
        n.ops = [x()]
    elif kind == "const":
        n.value = x
    elif kind == "bool":
        n.op = x()
    elif kind == "dropval":
        n.values = n.values[:x] + n.values[x + 1:]
        if len(n.values) == 1:
            put(n.values[0])
    elif kind == "unnot":
        put(n.operand)
    elif kind == "bin":
        n.op = x()
    elif kind in ("left", "right"):
        put(getattr(n, kind))
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "unwrap":
        put(n.args[0] if isinstance(n.func, ast.Name) else n.func.value)
    elif kind == "dropkw":
        del n.keywords[x]
    elif kind == "test":
        n.test = ast.Constant(value=x)
    elif kind == "noif":
        n.ifs = []
    elif kind == "jump":
        put(ast.Pass() if isinstance(n, ast.Continue) else ast.Continue())
    elif kind == "swapix":
        n.slice.elts.reverse()
    elif kind == "swapelts":
        n.elts.reverse()
    elif kind == "name":
        n.id = x
    elif kind == "del":
        n.body[x] = ast.Pass()
    elif kind == "order":
        n.body[x - 1], n.body[x] = n.body[x], n.body[x - 1]
    elif kind == "outdent":
        s = n.body[x]
        n.body[x] = ast.Pass()

        class R(ast.NodeTransformer):
            def visit(self, m):
                return [m, s] if m is n else self.generic_visit(m)
        if len(n.body) > 1:
            R().visit(fn)


def owners():
    """function -> the property with the smallest proof that depends on it"""
    size = {}
    for f in sorted(os.listdir(HERE + "/evidence")):
        if f.endswith(".json"):
            e = json.load(open(HERE + "/evidence/" + f))
            fs = {k.split("@")[0] for k in e["coverage"]["functions_under_contract"]}
            for k in fs:
                if k not in size or len(fs) < size[k][0]:
                    size[k] = (len(fs), e["property"])
    return {k: p for k, (_, p) in size.items()}


def run(job):
    qual, prop, site, before, after, file = job
    d = tempfile.mkdtemp(prefix="mutate")
    try:
        shutil.copytree(REPO, d + "/repo", ignore=shutil.ignore_patterns(".git"))
        open(d + "/repo/sudokutools/" + file, "w").write(after)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "--timeout=30", "--doctest-modules", "--deselect",
                                "sudokutools/tests/test_shell.py::CommandTests::test_commands_succeed", "--deselect", "sudokutools/shell.py::sudokutools.shell.signature_str", "sudokutools"], cwd=d + "/repo", capture_output=True, text=True, env=env, timeout=150)
        except subprocess.TimeoutExpired:
            return None
        if t.returncode:
            return None
        r = subprocess.run([sys.executable, HERE + "/check.py", prop], env=dict(env, VERIF_REPO=d + "/repo"), capture_output=True, text=True)
        v = re.search(r"^VIOLATION.*$", r.stdout, re.M)
        what = "SILENT" if r.returncode == 0 else "rc=%d" % r.returncode if v is None else "NOINPUT" if "no-failing" in v[0] else "input"
        fo = re.search(r"^failed obligation: (.*)$", r.stdout, re.M)
        return what, prop, qual, site, fo[1] if fo else "", diff(before, after)
    finally:
        shutil.rmtree(d)


def diff(a, b):
    import difflib
    return "\n".join(l for l in difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm="", n=0) if not l.startswith(("---", "+++", "@@")))


def main():
    rnd, count = random.Random(int(sys.argv[1])), int(sys.argv[2])
    own = owners()
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    pool = []
    for f in sorted(os.listdir(REPO + "/sudokutools")):
        if not f.endswith(".py"):
            continue
        src = open(REPO + "/sudokutools/" + f).read()
        tree = ast.parse(src)
        mod = "sudokutools." + f[:-3]
        for s in tree.body:
            for cls, fn in ([("", s)] if isinstance(s, ast.FunctionDef) else [(s.name + ".", b) for b in s.body if isinstance(b, ast.FunctionDef)] if isinstance(s, ast.ClassDef) else []):
                q = "%s.%s%s" % (mod, cls, fn.name)
                if q in own and own[q] not in ("",) and q.startswith("sudokutools." + only):
                    pool.append((q, f, src, cls, fn.name, sites(fn)))
    jobs = []
    while len(jobs) < count:
        q, f, src, cls, name, ss = rnd.choice(pool)
        if not ss:
            continue
        site = rnd.choice(ss)
        tree = ast.parse(src)
        before = ast.unparse(tree)
        for s in tree.body:
            for b in ([s] if isinstance(s, ast.FunctionDef) and not cls else s.body if isinstance(s, ast.ClassDef) and s.name + "." == cls else []):
                if isinstance(b, ast.FunctionDef) and b.name == name:
                    try:
                        mutate(b, site)
                    except IndexError:
                        continue
        try:
            after = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
            compile(after, f, "exec")
        except (SyntaxError, ValueError):
            continue
        if after.strip() != before.strip():
            jobs.append((q, own[q], site, before, after, f))
    n = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for r in ex.map(run, jobs):
            if r:
                n += 1
                print("%s %s %s %s | %s" % (r[0], r[1], r[2], r[3][1:], r[4][:120]))
                print("    " + r[5].replace("\n", "\n    ")[:700])
                sys.stdout.flush()
    print("%d changes, %d accepted by the tests" % (len(jobs), n))


if __name__ == "__main__":
    main()
