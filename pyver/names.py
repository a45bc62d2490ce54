"""Contract texts mention local variables and attributes by name.  names.json keeps the names the contracts were written for, each with
the shape of the statement that binds it first.  A variable (or attribute) that the source calls otherwise is renamed back, consistently
and only when that changes nothing but the name; if none fits, the source stays as it is and the contract text fails by name."""
import ast
import difflib
import json
import os

from .norm import names

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "names.json")
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def functions(tree):
    """(key, function, class or None)"""
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            yield s.name, s, None
        elif isinstance(s, ast.ClassDef):
            for b in s.body:
                if isinstance(b, ast.FunctionDef):
                    yield s.name + "." + b.name, b, s


def own(fn):
    """nodes of the function itself in source order, without inner functions, lambdas and comprehensions"""
    def go(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, SCOPES + COMPS):
                continue
            yield x
            yield from go(x)
    for s in fn.body:
        if not isinstance(s, SCOPES):
            yield s
            yield from go(s)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def shape(n, hide):
    n = ast.parse(ast.unparse(n))
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id in hide:
            x.id = "_"
        elif isinstance(x, ast.arg) and x.arg in hide:
            x.arg = "_"
    return ast.unparse(n)


def local_names(fn):
    """[(name, shape of what it is bound to first)] in source order"""
    ps = set(params(fn))
    loc = {x.id for x in own(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} - ps
    inner = {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)} | {y for x in ast.walk(fn) if isinstance(x, ast.comprehension) for y in names(x.target)}
    hide = loc | (inner - ps)
    out = {}

    def bind(t, text, path=""):
        if isinstance(t, ast.Name):
            if t.id in loc:
                out.setdefault(t.id, text + path)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                bind(x, text, path + "[%d]" % i)
    for x in own(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                bind(t, "= " + shape(x.value, hide))
        elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
            bind(x.target, "= " + shape(x.value, hide))
        elif isinstance(x, ast.AugAssign):
            bind(x.target, "+ " + shape(x.value, hide))
        elif isinstance(x, ast.For):
            bind(x.target, "for " + shape(x.iter, hide))
        elif isinstance(x, ast.With):
            for i in x.items:
                if i.optional_vars is not None:
                    bind(i.optional_vars, "with " + shape(i.context_expr, hide))
    return list(out.items())


def attributes(cls):
    """[(attribute, shape)] of what __init__ sets on self"""
    for b in cls.body:
        if isinstance(b, ast.FunctionDef) and b.name == "__init__" and b.args.args:
            me = b.args.args[0].arg
            hide = {x for x, _ in local_names(b)}
            out = {}
            for x in own(b):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
                for t in ts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        out.setdefault(t.attr, shape(x.value, hide))
            return list(out.items())
    return []


def skeleton(trees):
    out = {}
    for mod, tree in trees.items():
        for key, fn, _ in functions(tree):
            out["%s.%s" % (mod, key)] = {"params": params(fn), "locals": local_names(fn), "loops": reform.count_loops(fn), "comps": reform.comps(fn)[0], "iters": reform.iters(fn)}
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                a = attributes(s)
                if a:
                    out["%s.%s" % (mod, s.name)] = {"attributes": a}
    return out


def match(was, now):
    """{name now: name then} for names that are new and names that are missing"""
    missing = [(n, t) for n, t in was if n not in dict(now)]
    new = [(n, t) for n, t in now if n not in dict(was)]
    out = {}
    for rank in (1.0, 0.75, 0.5):
        for n, t in list(new):
            best = max(missing, key=lambda m: difflib.SequenceMatcher(None, m[1], t).ratio(), default=None) if rank < 1 else next((m for m in missing if m[1] == t), None)
            if best is not None and difflib.SequenceMatcher(None, best[1], t).ratio() >= rank:
                out[n] = best[0]
                missing.remove(best)
                new.remove((n, t))
    if missing and len(missing) == len(new):
        out.update({n: m for (n, _), (m, _) in zip(new, missing)})
    return out


def rename(node, a, b):
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and x.id == a:
            x.id = b
        elif isinstance(x, ast.arg) and x.arg == a:
            x.arg = b


def free_inner(fn, nm):
    """Variables of lambdas and comprehensions called nm get another name"""
    for k, x in enumerate(ast.walk(fn)):
        if isinstance(x, ast.Lambda) and nm in params(x) and not x.args.kwonlyargs and not x.args.vararg and not x.args.kwarg or isinstance(x, COMPS) and any(nm in names(g.target) for g in x.generators):
            rename(x, nm, "%s__%d" % (nm, k))


def restore_function(fn, was):
    if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.ExceptHandler)) and (not isinstance(x, ast.ExceptHandler) or x.name) for s in fn.body for x in ast.walk(s)):
        return
    if any(isinstance(x, ast.Name) and x.id in ("locals", "vars", "eval", "exec", "globals") for x in ast.walk(fn)):
        return
    now = local_names(fn)
    todo = match([tuple(x) for x in was["locals"]], now)
    if fn.name.startswith("_") and not fn.name.endswith("__") and len(was["params"]) == len(params(fn)):
        todo.update({n: m for n, m in zip(params(fn), was["params"]) if n != m and m not in params(fn)})
    for n, m in todo.items():
        def seen(x):
            return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} | {y.arg for y in ast.walk(x) if isinstance(y, ast.arg)}
        if m in seen(fn):
            free_inner(fn, m)
        if m in seen(fn):
            continue
        rename(fn, n, m)


def restore_attributes(trees, tree, cls, was):
    for n, m in match([tuple(x) for x in was], attributes(cls)).items():
        mangled = {x: "_%s%s" % (cls.name.lstrip("_"), x) if x.startswith("__") and not x.endswith("__") else x for x in (n, m)}
        inside = {id(x) for x in ast.walk(cls)}
        ok = not any(b.name == n for b in cls.body if isinstance(b, (ast.FunctionDef, ast.ClassDef))) and not any(n in names(b, ast.Store) for b in cls.body if isinstance(b, (ast.Assign, ast.AnnAssign)))
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and (x.attr in (m, mangled[m], mangled[n]) and mangled[n] != n or x.attr in (m, mangled[m]) or x.attr == n and id(x) not in inside):
                    ok = False
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in (n, m, mangled[n], mangled[m]):
                    ok = False
        if ok:
            for x in ast.walk(cls):
                if isinstance(x, ast.Attribute) and x.attr == n:
                    x.attr = m


def restore(trees, way=None, only=()):
    """way: also rewrite the functions in `only` (None: all) this way -> the functions that changed"""
    changed = []
    try:
        with open(FILE, encoding="utf-8") as f:
            was = json.load(f)
    except OSError:
        return changed
    for mod, tree in trees.items():
        for key, fn, _ in functions(tree):
            w = was.get("%s.%s" % (mod, key))
            if w and "locals" in w:
                restore_function(fn, w)
                if way and "%s.%s" % (mod, key) in only:
                    new = reform.apply(fn, w, way)
                    if new is not None:
                        fn.body = new.body
                        changed.append("%s.%s" % (mod, key))
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                w = was.get("%s.%s" % (mod, s.name))
                if w and "attributes" in w:
                    restore_attributes(trees, tree, s, w["attributes"])
    return changed


from . import reform        # noqa: E402


def main():
    import sys
    base = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    trees = {}
    for fn in sorted(os.listdir(base + "/sudokutools")):
        if fn.endswith(".py"):
            with open("%s/sudokutools/%s" % (base, fn), encoding="utf-8") as f:
                trees["sudokutools" if fn == "__init__.py" else "sudokutools." + fn[:-3]] = ast.parse(f.read())
    with open(FILE, "w", encoding="utf-8") as f:
        json.dump(skeleton(trees), f, indent=0, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    main()
