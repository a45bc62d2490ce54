"""Rewrites loops of the parsed source into one form.  Every rewriting keeps the meaning exactly, under the conditions checked here
(or left as assertions in the result)."""
import ast
import copy


def names(n, ctx=None):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]


def bound(n):
    """Every name the statement binds, in any way"""
    r = set(names(n, (ast.Store, ast.Del)))
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            r.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            r.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            r.update(x.names)
        elif isinstance(x, ast.alias):
            r.add((x.asname or x.name).split(".")[0])
    return r


def own_jumps(stmts, kind):
    """continue (or break) statements that belong to the loop with this body"""
    out = []

    def go(s):
        if isinstance(s, kind):
            out.append(s)
        elif isinstance(s, (ast.For, ast.While)):
            for x in s.orelse:
                go(x)
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, (ast.stmt, ast.ExceptHandler)):
                    go(x)
    for s in stmts:
        go(s)
    return out


def at(new, old):
    for x in ast.walk(new):
        if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr)):
            ast.copy_location(x, old)
    return ast.fix_missing_locations(new)


def step(s, i):
    """The statement adds 1 (or -1) to i"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.value, ast.Constant) and s.value.value == 1 \
            and type(s.value.value) is int:
        return 1 if isinstance(s.op, ast.Add) else -1 if isinstance(s.op, ast.Sub) else 0
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i:
        t = ast.unparse(s.value)
        return 1 if t in ("%s + 1" % i, "1 + %s" % i) else -1 if t == "%s - 1" % i else 0
    return 0


def chain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def plain_bound(e):
    """names, attributes, whole numbers, len(...), + and -"""
    if isinstance(e, ast.Constant):
        return type(e.value) is int
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and plain_bound(e.left) and plain_bound(e.right)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords and chain(e.args[0])
    return chain(e)


class Function:
    def __init__(self, fn):
        self.fn, self.n = fn, 0
        self.params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        self.odd = any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn))
        inner = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) and x is not fn]
        self.captured = {n for x in inner for n in names(x)}

    def run(self):
        if not self.odd:
            self.fn.body = self.block(self.fn.body)

    def block(self, stmts):
        out = []
        for s in stmts:
            for f in ("body", "orelse", "finalbody"):
                v = getattr(s, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(v))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            if isinstance(s, ast.While):
                s = self.counting(s, out) or s
            if isinstance(s, ast.For):
                s = self.indexing(s) or s
            out.append(s)
        return out

    # while i < n: ...; i += 1     ->    for i in range(i, n): ...
    def counting(self, w, before):
        t = w.test
        if w.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(r, ast.Name) and not isinstance(op, (ast.Eq, ast.NotEq)) and self.counts(w, r.id):
            l, r = r, l
            op = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}[type(op)]() if type(op) in (ast.Gt, ast.Lt, ast.GtE, ast.LtE) else op
        if not isinstance(l, ast.Name) or l.id in self.params or l.id in self.captured:
            return None
        i = l.id
        k = self.counts(w, i)
        if k is None:
            return None
        pos, d = k
        body = w.body[:pos] + w.body[pos + 1:]
        if not self.dead_outside(w, i) or not plain_bound(r) or i in names(r) or any(i in names(x) for x in w.body[pos + 1:]):
            return None
        if own_jumps(w.body[:pos], ast.Continue) or not body:
            return None
        setters = [k for k, x in enumerate(before) if i in bound(x)]
        if not setters or not (isinstance(before[setters[-1]], ast.Assign) and [ast.unparse(x) for x in before[setters[-1]].targets] == [i]):
            return None             # the loop may start where an earlier one stopped
        used = any(i in names(x) for x in body)
        if d == 1 and isinstance(op, (ast.Lt, ast.LtE)):
            start = ast.Name(i, ast.Load())
            p = before[-1] if before else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i and isinstance(p.value, ast.Constant):
                start = p.value
                before.pop()
            stop = r if isinstance(op, ast.Lt) else ast.BinOp(r, ast.Add(), ast.Constant(1))
            args = [stop] if isinstance(start, ast.Constant) and start.value == 0 else [start, stop]
        elif d == -1 and isinstance(op, (ast.Gt, ast.GtE)) and not used and isinstance(r, ast.Constant) and r.value == (0 if isinstance(op, ast.Gt) else 1):
            args = [ast.Name(i, ast.Load())]
            p = before[-1] if before else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i and plain_bound(p.value):
                args = [p.value]
                before.pop()
        else:
            return None
        changing = d == 1 and not (isinstance(r, ast.Constant) or isinstance(r, ast.Name) and not any(r.id in bound(x) for x in body))
        if changing:            # the bound must keep its value
            if own_jumps(body, ast.Continue):
                return None
            self.n += 1
            nm = "bound__%d" % self.n
            before.append(at(ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], copy.deepcopy(r)), w), w))
            body = body + [at(ast.copy_location(ast.Assert(ast.Compare(copy.deepcopy(r), [ast.Eq()], [ast.Name(nm, ast.Load())]), None), w), w)]
            body[-1].same_bound = True
        self.n += 1
        target = i if used else "count__%d" % self.n
        f = ast.For(ast.Name(target, ast.Store()), ast.Call(ast.Name("__range__", ast.Load()), copy.deepcopy(args), []), body, [])
        return at(ast.copy_location(f, w), w)

    def counts(self, w, i):
        ks = [(k, step(s, i)) for k, s in enumerate(w.body) if step(s, i)]
        if len(ks) != 1 or sum(names(s, (ast.Store, ast.Del)).count(i) for s in w.body) != 1:
            return None
        return ks[0]

    def dead_outside(self, w, i):
        """i is read outside the loop only in other loops that set it before"""
        inside = {id(x) for x in ast.walk(w)}
        own = [x for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside]
        if not own:
            return True
        ok = set()
        for stmts in self.lists():
            for a, b in zip(stmts, stmts[1:]):
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id == i and i not in names(a.value) \
                        and isinstance(b, (ast.While, ast.For)):
                    ok |= {id(x) for x in ast.walk(b)}
        return all(id(x) in ok for x in own)

    def lists(self):
        for x in ast.walk(self.fn):
            for f in ("body", "orelse", "finalbody"):
                v = getattr(x, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    yield v

    # for i in range(len(xs)): ... xs[i] ...     ->    for x in xs: ... x ...
    def indexing(self, f):
        c = f.iter
        if not (isinstance(f.target, ast.Name) and isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("range", "__range__") and not c.keywords):
            return None
        a = c.args
        if len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0 and type(a[0].value) is int:
            a = a[1:]
        if not (len(a) == 1 and isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == "len" and len(a[0].args) == 1
                and not a[0].keywords and chain(a[0].args[0])):
            return None
        xs, i = a[0].args[0], f.target.id
        if i in self.captured or any(i in bound(x) for x in f.body) or not self.dead_outside(f, i) or f.orelse:
            return None
        if isinstance(xs, ast.Name) and any(xs.id in bound(x) for x in f.body) or isinstance(xs, ast.Attribute) and any(
                isinstance(y, ast.Attribute) and y.attr == xs.attr and not isinstance(y.ctx, ast.Load) for x in f.body for y in ast.walk(x)):
            return None
        text = ast.unparse(xs)
        for x in f.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Subscript) and not isinstance(y.ctx, ast.Load) and ast.unparse(y.value) == text \
                        or isinstance(y, ast.Attribute) and ast.unparse(y.value) == text:
                    return None
        hits = [y for x in f.body for y in ast.walk(x) if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and ast.unparse(y.value) == text
                and isinstance(y.slice, ast.Name) and y.slice.id == i]
        inside = {id(y.slice) for y in hits}
        rest = [y for x in f.body for y in ast.walk(x) if isinstance(y, ast.Name) and y.id == i and id(y) not in inside]
        body = [s for s in f.body if not getattr(s, "same_bound", False) or text not in ast.unparse(s)] if not rest else f.body
        if not hits or rest:
            return None
        p = body[0]
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and p.value in hits and len(hits) == 1 and isinstance(p.targets[0], (ast.Name, ast.Tuple)) \
                and not (set(names(p.targets[0])) & set(names(xs))) and len(body) > 1:
            target, body = p.targets[0], body[1:]
        else:
            self.n += 1
            nm = "elem__%d" % self.n
            for y in hits:
                y.__class__, y.__dict__ = ast.Name, dict(id=nm, ctx=ast.Load(), lineno=y.lineno, col_offset=y.col_offset, end_lineno=y.end_lineno, end_col_offset=y.end_col_offset)
            target = ast.Name(nm, ast.Store())
        g = ast.For(target, ast.Call(ast.Name("__elements__", ast.Load()), [copy.deepcopy(xs)], []), body, [])
        return at(ast.copy_location(g, f), f)


def normalise(tree):
    if {"range", "len"} & bound(tree):
        return tree
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef):
            Function(x).run()
    return tree
