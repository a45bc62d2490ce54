"""How often may a generator held by a variable be consumed?

The translation knows a generator as the sequence of its elements and, for a local variable, the position next() has
reached.  That is exact when next() is the only use, or when the generator is handed to one other consumer (a loop, a
call, a comprehension...) after the last next().  Everything else would need the position at which that consumer
stopped, and is refused here.  Decided on the text of the function, so it also holds for code that never runs."""
import ast


def events(fn, name):
    """[(kind, loops, blocks)] in order of evaluation; kind: def, next, use"""
    out = []

    def target(t, loops, block):
        if isinstance(t, ast.Name):
            if t.id == name:
                out.append(("def", loops, block))
        else:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    (target if isinstance(t, (ast.Tuple, ast.List, ast.Starred)) else expr)(c, loops, block if isinstance(t, (ast.Tuple, ast.List, ast.Starred)) else None)

    def expr(n, loops, block=None):
        if n is None:
            return
        if isinstance(n, ast.Name):
            if n.id == name:
                out.append(("use" if isinstance(n.ctx, ast.Load) else "def", loops, block))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and isinstance(n.args[0], ast.Name):
            if n.args[0].id == name:
                out.append(("next", loops, block))
            for a in n.args[1:]:
                expr(a, loops, block)
        elif isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            expr(n.generators[0].iter, loops, block)
            inner = loops + (id(n),)
            for i, g in enumerate(n.generators):
                if i:
                    expr(g.iter, inner, None)
                for c in g.ifs:
                    expr(c, inner, None)
            for c in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                expr(c, inner, None)
        elif isinstance(n, ast.Lambda):
            expr(n.body, loops + (id(n),), None)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    expr(c, loops, block)
                elif isinstance(c, ast.keyword):
                    expr(c.value, loops, block)

    def block(stmts, loops):
        for s in stmts:
            stmt(s, loops, id(stmts))

    def stmt(s, loops, b):
        if isinstance(s, ast.Assign):
            expr(s.value, loops, b)
            for t in s.targets:
                target(t, loops, b)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            expr(s.value, loops, b)
            target(s.target, loops, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            expr(s.iter, loops, b)
            inner = loops + (id(s.body),)
            target(s.target, inner, None)
            block(s.body, inner)
            block(s.orelse, loops)
        elif isinstance(s, ast.While):
            inner = loops + (id(s.body),)
            expr(s.test, inner, None)
            block(s.body, inner)
            block(s.orelse, loops)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            block(s.body, loops + (id(s),))
        else:
            for f, v in ast.iter_fields(s):
                if isinstance(v, ast.expr):
                    expr(v, loops, b)
                elif isinstance(v, list):
                    if v and isinstance(v[0], ast.stmt):
                        block(v, loops)
                    else:
                        for x in v:
                            if isinstance(x, ast.ExceptHandler):
                                expr(x.type, loops, b)
                                block(x.body, loops)
                            elif isinstance(x, ast.withitem):
                                expr(x.context_expr, loops, b)
                                if x.optional_vars is not None:
                                    target(x.optional_vars, loops, b)
                            elif isinstance(x, ast.expr):
                                expr(x, loops, b)
                            elif isinstance(x, ast.AST):
                                for y in ast.walk(x):
                                    if isinstance(y, ast.Name):
                                        expr(y, loops, b)

    block(fn.body if isinstance(fn.body, list) else [ast.Return(value=fn.body)], ())
    return out


def problem(fn, name, tracked=True):
    """None if the uses of the generator in variable `name` are covered; otherwise why not.
    tracked: next() keeps a position (a local variable); otherwise a single use of any kind"""
    ev = events(fn, name)
    uses = [i for i, e in enumerate(ev) if e[0] == "use" or e[0] == "next" and not tracked]
    if not uses:
        return None
    if len(uses) > 1:
        return "the generator %s is used more than once" % name
    u = uses[0]
    _, loops, _ = ev[u]
    if not loops:
        bad = [i for i, e in enumerate(ev) if e[0] == "next" and i > u]
        return "next(%s) after another use" % name if bad else None
    defs = [i for i, e in enumerate(ev) if e[0] == "def" and i < u and e[1] == loops and e[2] == loops[-1]]
    if not defs:
        return "the generator %s is used in a loop" % name
    bad = [i for i, e in enumerate(ev) if e[0] == "next" and not defs[-1] < i < u]
    return "next(%s) outside of its round of the loop" % name if bad else None
