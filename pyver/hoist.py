"""Imports inside functions, moved to the module under a name of their own.

An import statement in the body of a function binds a local name to something that the module it names provides.  It is moved when nothing
else in the function binds that name, every use comes after it, and the module is part of the package (and provides that name) or one of
the standard modules below, so that importing it has no effect but the binding.  Everything else is left alone (and is then rejected)."""
import ast

STD = {"ast", "collections", "copy", "functools", "itertools", "math", "operator", "random", "re", "sys"}


def provided(tree):
    out = set()
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        elif isinstance(s, ast.Assign):
            out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return out


def source(s, a, package, trees):
    """is this import harmless?"""
    if isinstance(s, ast.Import):
        return a.name in STD
    if s.level > 1 or a.name == "*":
        return False
    base = s.module if not s.level else package + ("." + s.module if s.module else "")
    return base in STD and not s.level or base in trees and base != package and a.name in provided(trees[base])


def binds(f, n, skip):
    for x in ast.walk(f):
        if x in skip:
            continue
        if isinstance(x, ast.Name) and x.id == n and not isinstance(x.ctx, ast.Load):
            return True
        if isinstance(x, ast.arg) and x.arg == n or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f and x.name == n:
            return True
        if isinstance(x, (ast.Global, ast.Nonlocal)) and n in x.names or isinstance(x, ast.ExceptHandler) and x.name == n:
            return True
        if isinstance(x, (ast.Import, ast.ImportFrom)) and n in {a.asname or a.name.split(".")[0] for a in x.names}:
            return True
    return False


def hoist(trees, package):
    for name, tree in trees.items():
        taken = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name)}
        new = []
        fns = [s for s in tree.body if isinstance(s, ast.FunctionDef)] + [b for s in tree.body if isinstance(s, ast.ClassDef) for b in s.body if isinstance(b, ast.FunctionDef)]
        for f in fns:
            for s in [x for x in f.body if isinstance(x, (ast.Import, ast.ImportFrom))]:
                pos = f.body.index(s)
                before = {x.id for b in f.body[:pos] for x in ast.walk(b) if isinstance(x, ast.Name)}
                before |= {x.id for b in f.decorator_list + f.args.defaults + [d for d in f.args.kw_defaults if d] for x in ast.walk(b) if isinstance(x, ast.Name)}
                ns = [a.asname or a.name for a in s.names]
                if len(set(ns)) < len(ns) or any(n in before or binds(f, n, {s}) or not source(s, a, package, trees) for n, a in zip(ns, s.names)):
                    continue
                ren = {}
                for n, a in zip(ns, s.names):
                    k = 0
                    while "%s__import%d" % (n, k) in taken:
                        k += 1
                    ren[n] = "%s__import%d" % (n, k)
                    taken.add(ren[n])
                    al = ast.alias(name=a.name, asname=ren[n])
                    new.append(ast.copy_location(ast.Import(names=[al]) if isinstance(s, ast.Import) else ast.ImportFrom(module=s.module, names=[al], level=s.level), s))
                f.body[pos] = ast.copy_location(ast.Pass(), s)
                for x in ast.walk(f):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
        tree.body[:0] = [ast.fix_missing_locations(x) for x in new]
