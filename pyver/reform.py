"""Other ways to write the same function, tried when the proof of the code as written does not go through.

A contract names local variables and numbers loops, so a behaviour-preserving edit that replaces a loop by a comprehension, a temporary
by the expression it holds or a `for` by an indexed `while` leaves the contract text without its anchors.  names.json keeps the names,
loops and comprehensions of the code the contracts were written for.  Each rewriting below turns valid Python into Python that does the
same (the conditions are checked on the text), so proving the result proves the code; nothing is assumed about which form is 'right'."""
import ast
import copy

from . import names as N

COMPS = N.COMPS
EAGER = {"list", "set", "tuple", "sum", "max", "min", "sorted", "frozenset", "dict"}


def count_loops(fn):
    return sum(isinstance(x, (ast.For, ast.While)) for x in N.own(fn))


def comps(fn):
    """shapes of the outermost comprehensions"""
    hide = {x for x, _ in N.local_names(fn)} | {y for x in ast.walk(fn) if isinstance(x, ast.comprehension) for y in N.names(x.target)}
    out = []

    def go(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, COMPS):
                out.append(N.shape(x, hide))
            else:
                go(x)
    go(fn)
    return out, hide


def ids(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}


def header(s):
    """the expression of the statement that is evaluated first, once, whenever the statement is reached"""
    if isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)) or isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
        return s.value
    if isinstance(s, ast.Expr):
        return s.value.value if isinstance(s.value, ast.Yield) else s.value
    if isinstance(s, ast.If):
        return s.test
    if isinstance(s, ast.For):
        return s.iter
    return None


def order(e):
    """sub-expressions in order of evaluation, as far as they are evaluated unconditionally; None ends the list"""
    if isinstance(e, ast.BoolOp):
        yield e.values[0]
        yield None
    elif isinstance(e, ast.IfExp):
        yield e.test
        yield None
    elif isinstance(e, ast.Compare):
        yield e.left
        yield e.comparators[0]
        if len(e.comparators) > 1:
            yield None
    elif isinstance(e, (ast.Lambda,) + COMPS):
        yield None
    elif isinstance(e, ast.Call):
        yield e.func
        yield from e.args
        yield from (k.value for k in e.keywords)
    elif isinstance(e, ast.Dict):
        yield None
    else:
        yield from (x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))


def inert(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and inert(e.value)


def reachable(root, want):
    """[(parent chain)] of the sub-expressions `want` accepts that are evaluated before anything but names and constants"""
    found = []

    def go(e, parents):
        if isinstance(e, ast.Slice):
            return False
        if isinstance(e, ast.Starred):
            return go(e.value, parents + [e]) and False
        if want(e, parents):
            found.append((e, parents))
            return False
        if inert(e):
            return True
        for x in order(e):
            if x is None or not go(x, parents + [e]):
                return False
        return isinstance(e, (ast.Tuple, ast.List, ast.Starred, ast.BinOp))
    if root is not None:
        go(root, [])
    return found


def replace(stmt, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            return new if n is old else self.generic_visit(n)
    R().visit(stmt)


def blocks(fn):
    """every statement list of the function"""
    todo = [fn.body]
    while todo:
        b = todo.pop(0)
        yield b
        for s in b:
            if isinstance(s, N.SCOPES):
                continue
            for f in ("body", "orelse", "finalbody"):
                if getattr(s, f, None) and isinstance(getattr(s, f), list):
                    todo.append(getattr(s, f))
            for h in getattr(s, "handlers", []):
                todo.append(h.body)


def load(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(f, attr, *args):
    return ast.Expr(value=ast.Call(func=ast.Attribute(value=f, attr=attr, ctx=ast.Load()), args=list(args), keywords=[]))


def free_names(fn, comp):
    """Give the variables of the comprehension names of their own, unless every other use of the name is bound by its own loop."""
    inside = {id(x) for x in ast.walk(comp)}
    tn = {y for g in comp.generators for y in N.names(g.target)}

    def bound_elsewhere(nm):
        def go(n, ok):
            if id(n) in inside:
                return not ok
            if isinstance(n, ast.Name) and n.id == nm:
                return ok
            if isinstance(n, ast.arg) and n.arg == nm:
                return False
            if isinstance(n, ast.For):
                here = nm in N.names(n.target)
                return go(n.iter, ok) and (here or go(n.target, ok)) and all(go(s, ok or here) for s in n.body) and all(go(s, ok) for s in n.orelse)
            if isinstance(n, COMPS):
                here = any(nm in N.names(g.target) for g in n.generators)
                return here and nm not in ids(n.generators[0].iter) or all(go(c, ok) for c in ast.iter_child_nodes(n))
            return all(go(c, ok) for c in ast.iter_child_nodes(n))
        return go(fn, False)
    for nm in sorted(tn):
        if not bound_elsewhere(nm):
            N.rename(comp, nm, nm + "__c") if nm not in ids(comp.generators[0].iter) else None
            if nm in ids(comp):
                return False
    return True


def spelled_out(comp, leaf):
    """the loops of a comprehension"""
    body = [leaf]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    return body[0]


class Fail(Exception):
    pass


def expand(fn, was):
    """comprehensions the contracts know as loops"""
    need = was.get("loops", 0) - count_loops(fn)
    if any(isinstance(x, ast.Try) for x in ast.walk(fn)):
        return False
    known, changed = list(was.get("comps", [])), False
    k = 0
    while need > 0:
        hide = comps(fn)[1]
        have = {x for x in ids(fn)}
        missing = [(n, t) for n, t in was["locals"] if n not in have]
        hit = None
        for b in blocks(fn):
            for i, s in enumerate(b):
                for e, parents in reachable(header(s), lambda e, p: isinstance(e, (ast.ListComp, ast.SetComp)) or isinstance(e, ast.GeneratorExp) and p and isinstance(p[-1], ast.Call)
                                            and p[-1].args == [e] and not p[-1].keywords
                                            and (isinstance(p[-1].func, ast.Name) and p[-1].func.id in EAGER or isinstance(p[-1].func, ast.Attribute) and p[-1].func.attr in ("join", "extend"))):
                    if N.shape(e, hide) not in known and hit is None:
                        hit = b, i, s, e, parents
        if hit is None:
            return changed
        b, i, s, e, parents = hit
        if not free_names(fn, e):
            return changed
        p = parents[-1] if parents else None
        kind = "list"
        if isinstance(e, ast.SetComp) or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "set" and isinstance(e, ast.GeneratorExp):
            kind = "set"
        whole = e                                             # list((..)) is the list itself
        if isinstance(e, ast.GeneratorExp) and isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("list", "set"):
            whole, p = p, parents[-2] if len(parents) > 1 else None
        add = "append" if kind == "list" else "add"
        empty = ast.List(elts=[], ctx=ast.Load()) if kind == "list" else ast.Call(func=load("set"), args=[], keywords=[])
        root = {x.id for x in ast.walk(p.func.value) if isinstance(x, ast.Name)} if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) else set()
        inner = {id(x.value): x for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)}
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "extend" and isinstance(s, ast.Expr) and s.value is p and kind == "list" \
                and (isinstance(p.func.value, ast.Name) and p.func.value.id not in ids(e)
                     or inert(p.func.value) and all(id(x) in inner and inner[id(x)].attr != p.func.value.attr and not any(isinstance(c, ast.Call) and c.func is inner[id(x)] for c in ast.walk(e))
                                                    for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in root)):
            b[i:i + 1] = [spelled_out(e, call(p.func.value, "append", e.elt))]
        elif isinstance(s, ast.Assign) and s.value is whole and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in ids(e):
            nm = s.targets[0].id
            b[i:i + 1] = [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=empty), spelled_out(e, call(load(nm), add, e.elt))]
        else:
            nm = next((n for n, t in missing if t in (("= []", "= list()") if kind == "list" else ("= set()",))), None)
            if nm is None:
                k += 1
                nm = "acc__%d" % k
            replace(s, whole, load(nm))
            b[i:i] = [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=empty), spelled_out(e, call(load(nm), add, e.elt))]
        need -= len(e.generators)
        changed = True
    return changed


def temporaries(fn, was):
    """a variable the contracts mention that is now written as the expression it held"""
    changed = False
    for nm, t in was["locals"]:
        if nm in ids(fn) or not t.startswith("= ") or "[0]" in t[-4:] or t in ("= []", "= 0", "= None"):
            continue
        hide = comps(fn)[1] | {x for x, _ in was["locals"]}
        for b in blocks(fn):
            hit = None
            for i, s in enumerate(b):
                for e, _ in reachable(header(s), lambda e, p: not inert(e) and "= " + N.shape(e, hide) == t):
                    hit = hit or (i, s, e)
            if hit:
                i, s, e = hit
                if s.__class__ is ast.Assign and s.value is e and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    break
                replace(s, e, load(nm))
                b[i:i] = [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=e)]
                changed = True
                break
    return changed


def stores(n, nm):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Load)]


def only_indexed(body, xs, i):
    """xs occurs in the body as xs[i], read, only"""
    ok = {id(x.value) for s in body for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)
          and isinstance(x.value, ast.Name) and x.value.id == xs and isinstance(x.slice, ast.Name) and x.slice.id == i}
    return all(id(x) in ok for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == xs)


def jumps(body, kind):
    """continue/break of this loop itself"""
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While) + N.SCOPES):
            if jumps(getattr(s, "orelse", []), kind):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if jumps(getattr(s, f, None) or [], kind):
                return True
        if any(jumps(h.body, kind) for h in getattr(s, "handlers", [])):
            return True
    return False


def is_incr(s, i):
    return isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.value, ast.Constant) and s.value.value == 1 \
        or isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and ast.unparse(s.value) in ("%s + 1" % i, "1 + %s" % i)


def indexed(fn, was):
    """while i < n with i counted up -> for i in range; for i in range(len(xs)) with xs[i] -> for x in xs"""
    changed = False
    for b in list(blocks(fn)):
        for k, s in enumerate(b):
            if not (isinstance(s, ast.While) and not s.orelse and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Lt)
                    and isinstance(s.test.left, ast.Name) and len(s.body) > 1):
                continue
            i, end, body = s.test.left.id, s.test.comparators[0], s.body[:-1]
            if not is_incr(s.body[-1], i) or any(stores(x, i) for x in body) or jumps(body, ast.Continue):
                continue
            init = next((j for j in range(k - 1, -1, -1) if isinstance(b[j], ast.Assign) and stores(b[j], i)), None)
            if init is None or len(b[init].targets) != 1 or not isinstance(b[init].targets[0], ast.Name) or not isinstance(b[init].value, ast.Constant) or type(b[init].value.value) is not int:
                continue
            inside = {id(x) for x in ast.walk(s)} | {id(x) for x in ast.walk(b[init])}
            if any(isinstance(x, ast.Name) and x.id == i and id(x) not in inside for x in ast.walk(fn)):
                continue
            if isinstance(end, ast.Call) and isinstance(end.func, ast.Name) and end.func.id == "len" and len(end.args) == 1 and isinstance(end.args[0], ast.Name):
                if not only_indexed(body, end.args[0].id, i):
                    continue
            elif isinstance(end, ast.Name):
                if any(stores(x, end.id) for x in body):
                    continue
            elif not isinstance(end, ast.Constant):
                continue
            b[k] = ast.For(target=ast.Name(id=i, ctx=ast.Store()), orelse=[], body=body,
                           iter=ast.Call(func=load("range"), args=([b[init].value] if b[init].value.value else []) + [end], keywords=[]))
            b[init] = ast.Pass()
            changed = True
    for b in list(blocks(fn)):
        for s in b:
            if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range"
                    and len(s.iter.args) == 1 and not s.iter.keywords):
                continue
            n, i = s.iter.args[0], s.target.id
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Name)):
                continue
            xs = n.args[0].id
            made = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and stores(x, xs)]
            if not made or len(made) != len(stores(fn, xs)) or not all(isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and (
                    isinstance(v.func, ast.Name) and v.func.id in ("list", "sorted") or isinstance(v.func, ast.Attribute) and v.func.attr == "split") for v in made):
                continue                     # not known to be a list
            if not only_indexed(s.body, xs, i) or any(stores(x, i) for x in s.body) or any(stores(x, xs) for x in s.body):
                continue
            first = s.body[0]
            if isinstance(first, ast.Assign) and len(first.targets) == 1 and ast.unparse(first.value) == "%s[%s]" % (xs, i) and len(s.body) > 1 \
                    and not any(stores(x, y) for y in N.names(first.targets[0]) for x in s.body[1:]) and not (set(N.names(first.targets[0])) & {i, xs}):
                target, s.body = first.targets[0], s.body[1:]
            else:
                target = ast.Name(id="el__" + i, ctx=ast.Store())
            for x in s.body:
                for y in [y for y in ast.walk(x) if isinstance(y, ast.Subscript) and ast.unparse(y) == "%s[%s]" % (xs, i)]:
                    if not isinstance(target, ast.Name):
                        break
                    replace(x, y, load(target.id))
            if any(xs in ids(x) for x in s.body):
                target = ast.Tuple(elts=[target], ctx=ast.Store())
                raise Fail
            inside = {id(x) for x in ast.walk(s)}
            rest = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == i and (id(x) not in inside or x is not s.target)]
            if rest:
                s.iter = ast.Call(func=load("enumerate"), args=[load(xs)], keywords=[])
                s.target = ast.Tuple(elts=[s.target, target], ctx=ast.Store())
            else:
                s.iter, s.target = load(xs), target
            changed = True
    return changed


def iters(fn):
    hide = comps(fn)[1]
    return [N.shape(x.iter, hide) for x in N.own(fn) if isinstance(x, ast.For)]


def items(fn, was):
    """for k in d: .. d[k] ..  ->  for k, v in d.items(): .. v ..   (d is only read, as d[k]; not a dict: no items)"""
    changed = False
    want = sum(t.endswith(".items()") for t in was.get("iters", [])) - sum(t.endswith(".items()") for t in iters(fn))
    for b in list(blocks(fn)):
        for s in b:
            if want <= 0 or not isinstance(s, ast.For) or not isinstance(s.target, (ast.Name, ast.Tuple)):
                continue
            d = s.iter
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "keys" and not d.args and not d.keywords:
                d = d.func.value
            if not isinstance(d, ast.Name):
                continue
            ts, key = set(N.names(s.target)), ast.unparse(s.target).strip("()")
            subs = [x for y in s.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == d.id
                    and ast.unparse(x.slice).strip("()") == key]
            ok = {id(x.value) for x in subs}
            if not subs or any(isinstance(x, ast.Name) and x.id == d.id and id(x) not in ok for y in s.body for x in ast.walk(y)):
                continue
            if d.id in ts or any(stores(y, t) for t in ts for y in s.body) or any(isinstance(x, COMPS + (ast.Lambda,)) and ids(x) & ts and any(id(z) in ok for z in ast.walk(x)) for y in s.body for x in ast.walk(y)):
                continue
            have = ids(fn)
            v = next((n for n, t in was["locals"] if n not in have and t.startswith("for ") and ".items()" in t), None) or "val__" + d.id
            for y in s.body:
                for x in subs:
                    replace(y, x, load(v))
            s.iter = ast.Call(func=ast.Attribute(value=load(d.id), attr="items", ctx=ast.Load()), args=[], keywords=[])
            s.target = ast.Tuple(elts=[s.target, ast.Name(id=v, ctx=ast.Store())], ctx=ast.Store())
            want -= 1
            changed = True
    return changed


def nexts(fn, was):
    """v = next(G, None); if v is None: leave  ->  try: v = next(G); except StopIteration: leave  (an element of G is never None: see __next__)"""
    changed = False
    for b in list(blocks(fn)):
        for i in range(len(b) - 1):
            s, t = b[i:i + 2]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and not s.value.keywords
                    and isinstance(s.value.func, ast.Name) and s.value.func.id == "next" and len(s.value.args) == 2 and isinstance(s.value.args[1], ast.Constant)
                    and s.value.args[1].value is None and isinstance(t, ast.If) and not t.orelse and isinstance(t.test, ast.Compare) and isinstance(t.test.left, ast.Name)
                    and t.test.left.id == s.targets[0].id and len(t.test.ops) == 1 and isinstance(t.test.ops[0], ast.Is) and isinstance(t.test.comparators[0], ast.Constant)
                    and t.test.comparators[0].value is None and isinstance(t.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                continue
            if any(s.targets[0].id in ids(x) for x in t.body) or not inert(s.value.args[0]) and not (
                    isinstance(s.value.args[0], ast.Call) and all(inert(x) for x in s.value.args[0].args) and not s.value.args[0].keywords and inert(s.value.args[0].func)):
                continue
            s.value = ast.Call(func=load("__next__"), args=s.value.args[:1], keywords=[])
            b[i:i + 2] = [ast.Try(body=[s], handlers=[ast.ExceptHandler(type=load("StopIteration"), name=None, body=t.body)], orelse=[], finalbody=[])]
            changed = True
            break
    return changed


def unions(fn, was):
    """x = set().union(*[..])  ->  x = set(); for ..: x |= .."""
    changed = False
    if any(isinstance(x, ast.Try) for x in ast.walk(fn)):
        return False
    for b in list(blocks(fn)):
        for i, s in enumerate(b):
            v = s.value if isinstance(s, ast.Assign) else None
            if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "union" and not v.keywords and len(v.args) == 1 and isinstance(v.args[0], ast.Starred)
                    and ast.unparse(v.func.value) == "set()" and isinstance(v.args[0].value, (ast.ListComp, ast.GeneratorExp)) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            e, nm = v.args[0].value, s.targets[0].id
            if nm in ids(e) or not free_names(fn, e):
                continue
            b[i:i + 1] = [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.Call(func=load("set"), args=[], keywords=[])),
                          spelled_out(e, call(load(nm), "update", e.elt))]
            changed = True
            break
    return changed


def shared(fn, was):
    """v = e; A[k] = v; .. v ..  ->  A[k] = e; .. A[k] ..  (the same object as long as nothing rebinds A, k or an entry of A)"""
    changed = False
    for b in list(blocks(fn)):
        for i in range(len(b) - 1):
            p, s, rest = b[i], b[i + 1], b[i + 2:]
            entry = isinstance(p, ast.Assign) and isinstance(p.value, ast.Subscript)       # v = A[k]; .. v ..  ->  A[k]; .. A[k] ..
            if entry:
                s, rest = ast.Assign(targets=[p.value], value=ast.Name(id=p.targets[0].id if isinstance(p.targets[0], ast.Name) else "", ctx=ast.Load())), b[i + 1:]
            if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(s, ast.Assign) and len(s.targets) == 1
                    and isinstance(s.value, ast.Name) and s.value.id == p.targets[0].id and isinstance(s.targets[0], ast.Subscript)
                    and isinstance(s.targets[0].value, ast.Name) and isinstance(s.targets[0].slice, ast.Name)):
                continue
            v, a, k = s.value.id, s.targets[0].value.id, s.targets[0].slice.id
            inside = [x for r in rest for x in ast.walk(r)]
            used = [x for x in inside if isinstance(x, ast.Name) and x.id == v]
            if v in (a, k) or not used or sum(isinstance(x, ast.Name) and x.id == v for x in ast.walk(fn)) != len(used) + (1 if entry else 2) or v in {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}:
                continue
            held = {id(x.value) for x in inside if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)}
            if any(isinstance(x, ast.Name) and (x.id == a and id(x) not in held or x.id in (a, k, v) and not isinstance(x.ctx, ast.Load)) for x in inside) \
                    or any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Yield, ast.arg, *COMPS)) for x in inside):
                continue
            if not entry:
                s.value = p.value
            for r in rest:
                for x in used:
                    replace(r, x, ast.Subscript(value=load(a), slice=load(k), ctx=ast.Load()))
            b[i:i + 1] = [ast.Expr(value=ast.Subscript(value=load(a), slice=load(k), ctx=ast.Load()))] if entry else []
            changed = True
            break
    return changed


WAYS = {"all": (shared, nexts, unions, items, indexed, expand, temporaries), "items": (items,), "indexed": (indexed,), "expand": (expand,), "temporaries": (temporaries,), "shared": (shared,)}


def apply(fn, was, way):
    """-> the function rewritten, or None if this way does not apply"""
    new = copy.deepcopy(fn)
    changed = False
    try:
        for f in WAYS[way]:
            changed = f(new, was) or changed
    except Fail:
        return None
    if not changed:
        return None
    return ast.parse(ast.unparse(ast.fix_missing_locations(new))).body[0]
