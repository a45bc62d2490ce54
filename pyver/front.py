"""Reads the package under verification and resolves its names (no execution)."""
import ast
import os

from .hoist import hoist
from .names import restore
from .norm import normalise
from .ty import Unsupported


class ClassInfo:
    def __init__(self, module, name, bases, node=None):
        self.module, self.name, self.bases, self.node = module, name, bases, node
        self.methods, self.consts, self.decorators = {}, {}, []


class Module:
    def __init__(self, name, tree, src):
        self.name, self.tree, self.src = name, tree, src
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.problems = []          # things that make the module unanalysable
        self.rebound = set()


class Program:
    def __init__(self, repo, package, way=None, only=()):
        self.repo, self.package, self.mods = repo, package, {}
        base = os.path.join(repo, package)
        self.global_problems = []
        trees, srcs = {}, {}
        for fn in sorted(os.listdir(base)):
            if fn.endswith(".py"):
                name = package if fn == "__init__.py" else package + "." + fn[:-3]
                with open(os.path.join(base, fn), encoding="utf-8") as f:
                    src = f.read()
                try:
                    trees[name], srcs[name] = ast.parse(src), src
                except SyntaxError as e:
                    self.global_problems.append("%s: %s" % (name, e))
        hoist(trees, package)
        self.rewritten = restore(trees, way, only)
        for name, tree in trees.items():
            self.mods[name] = self.load(name, normalise(tree), srcs[name])
        for m in self.mods.values():
            self.scan_patching(m)

    # -- module top level ------------------------------------------------
    def load(self, name, tree, src):
        m = Module(name, tree, src)

        def bind(n):
            if n in m.funcs or n in m.classes or n in m.consts or n in m.imports:
                m.rebound.add(n)

        def top(stmts, cond=False):
            for s in stmts:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.Pass):
                    continue
                if isinstance(s, ast.Import):
                    for a in s.names:
                        n = a.asname or a.name.split(".")[0]
                        bind(n)
                        m.imports[n] = (a.name if a.asname else a.name.split(".")[0], None)
                elif isinstance(s, ast.ImportFrom):
                    if s.level:
                        pkg = self.package
                        base = pkg + ("." + s.module if s.module else "")
                    else:
                        base = s.module
                    for a in s.names:
                        n = a.asname or a.name
                        bind(n)
                        m.imports[n] = (base, a.name)
                elif isinstance(s, ast.FunctionDef):
                    bind(s.name)
                    m.funcs[s.name] = s
                elif isinstance(s, ast.ClassDef):
                    bind(s.name)
                    m.classes[s.name] = self.load_class(m, s)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    n = s.targets[0].id
                    bind(n)
                    ci = self.dynamic_class(m, s.value, n)
                    if ci is not None:
                        m.classes[n] = ci
                    else:
                        m.consts[n] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    bind(s.target.id)
                    m.consts[s.target.id] = s.value
                elif isinstance(s, ast.If) and self.is_py2_or_main(s):
                    continue
                else:
                    m.problems.append("line %d: unsupported top-level statement %s" % (
                        s.lineno, type(s).__name__))
        top(tree.body)
        return m

    @staticmethod
    def is_py2_or_main(s):
        t = ast.unparse(s.test)
        return t in ("__name__ == '__main__'", "sys.version_info[0] <= 2") and not s.orelse

    @staticmethod
    def dynamic_class(m, v, name=None):
        """type("N", (Base,), dict(n=2)) or namedtuple("N", ["a"])  -> ClassInfo"""
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and m.imports.get(v.func.id) == ("collections", "namedtuple"):
            return ClassInfo(m.name, name, [v])
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" \
                and len(v.args) == 3 and not v.keywords and isinstance(v.args[0], ast.Constant) \
                and isinstance(v.args[1], ast.Tuple):
            ci = ClassInfo(m.name, v.args[0].value, list(v.args[1].elts))
            d = v.args[2]
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "dict" and not d.args:
                for k in d.keywords:
                    ci.consts[k.arg] = k.value
                return ci
            if isinstance(d, ast.Dict) and all(isinstance(k, ast.Constant) for k in d.keys):
                for k, x in zip(d.keys, d.values):
                    ci.consts[k.value] = x
                return ci
        return None

    def load_class(self, m, s):
        ci = ClassInfo(m.name, s.name, list(s.bases), s)
        ci.decorators = [ast.unparse(d) for d in s.decorator_list]
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                if b.name in ci.methods or b.name in ci.consts:
                    m.problems.append("line %d: %s.%s is defined twice" % (b.lineno, s.name, b.name))
                ci.methods[b.name] = b
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                ci.consts[b.targets[0].id] = b.value
            elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                pass
            elif isinstance(b, ast.Pass):
                pass
            else:
                m.problems.append("line %d: unsupported statement in class %s" % (b.lineno, s.name))
        return ci

    def scan_patching(self, m):
        """Assignments to attributes of classes or modules anywhere make contracts meaningless."""
        statics = set(m.classes) | set(m.funcs) | set(m.imports)
        for n in ast.walk(m.tree):
            targets = []
            if isinstance(n, ast.Assign):
                targets = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                targets = [n.target]
            elif isinstance(n, ast.Delete):
                targets = n.targets
            elif isinstance(n, ast.Global):
                self.global_problems.append("%s line %d: global statement" % (m.name, n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "setattr", "delattr", "exec", "eval", "globals", "vars", "__import__"):
                self.global_problems.append("%s line %d: call of %s" % (m.name, n.lineno, n.func.id))
            for t in targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute):
                        b = x.value
                        while isinstance(b, ast.Attribute):
                            b = b.value
                        if isinstance(b, ast.Name) and b.id in statics and b.id not in ("self",):
                            self.global_problems.append(
                                "%s line %d: assignment to attribute of %s" % (m.name, n.lineno, b.id))

    # -- name resolution ---------------------------------------------------
    def resolve(self, modname, name, depth=0):
        """-> ('func', module, node) | ('class', ClassInfo) | ('const', module, expr) |
              ('module', name) | ('ext', 'itertools.product') | None"""
        if depth > 5:
            raise Unsupported("import cycle for " + name)
        m = self.mods.get(modname)
        if m is None:
            return None
        if name in m.rebound:
            raise Unsupported("%s.%s is bound more than once" % (modname, name))
        if name in m.funcs:
            return ("func", modname, m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.consts:
            return ("const", modname, m.consts[name])
        if name in m.imports:
            src, attr = m.imports[name]
            if attr is None:
                return ("module", src)
            if src in self.mods:
                r = self.resolve(src, attr, depth + 1)
                if r is None:
                    if src + "." + attr in self.mods:
                        return ("module", src + "." + attr)
                    raise Unsupported("cannot resolve %s.%s" % (src, attr))
                return r
            return ("ext", src + "." + attr)
        return None

    def class_by_name(self, modname, name):
        r = self.resolve(modname, name)
        return r[1] if r and r[0] == "class" else None

    def base_classes(self, ci):
        out = []
        for b in ci.bases:
            if isinstance(b, ast.Name):
                if b.id == "object":
                    continue
                r = self.resolve(ci.module, b.id)
                if r and r[0] == "class":
                    out.append(r[1])
                    continue
            out.append(None)            # a base class we know nothing about (namedtuple, ...)
        return out

    def mro(self, ci):
        """Linear single-inheritance chain."""
        out = [ci]
        while True:
            bs = self.base_classes(out[-1])
            if not bs:
                return out
            if len(bs) > 1:
                raise Unsupported("multiple inheritance of " + ci.name)
            if bs[0] is None:
                return out
            out.append(bs[0])

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c, c.methods[name]
            if name in c.consts:
                return None
        return None

    def find_classconst(self, ci, name):
        for c in self.mro(ci):
            if name in c.consts:
                return c, c.consts[name]
        return None

    def func_node(self, qual):
        """'sudokutools.dlx.select' / 'sudokutools.sudoku.Sudoku.copy' -> (module, ClassInfo|None, node)"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.mods:
                m = self.mods[mod]
                rest = parts[i:]
                if len(rest) == 1:
                    if rest[0] in m.rebound:
                        raise Unsupported("%s is bound more than once" % qual)
                    if rest[0] in m.funcs:
                        return mod, None, m.funcs[rest[0]]
                elif len(rest) == 2 and rest[0] in m.classes and rest[0] not in m.rebound:
                    ci = m.classes[rest[0]]
                    if rest[1] in ci.methods:
                        return mod, ci, ci.methods[rest[1]]
                    r = self.find_method(ci, rest[1])
                    if r:
                        return r[0].module, r[0], r[1]
                break
        raise Unsupported("function %s not found" % qual)
