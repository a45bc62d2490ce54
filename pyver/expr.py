"""Expressions, builtins and calls."""
import ast
import re

from . import lazy
from . import ty as T
from .ty import Restart, Unsupported, INT, BOOL, STR, NONE, find, rs, unify
from .contract import subst


def chars(s):
    def esc(c):
        if c in "'\\":
            return "\\" + c
        if c == "\n":
            return "\\n"
        if c == "\t":
            return "\\t"
        if c == "\r":
            return "\\r"
        if ord(c) < 32 or ord(c) > 126:
            return "\\u{%x}" % ord(c)
        return c
    if not s:
        return "Seq::<char>::empty()"
    return "seq![%s]" % ", ".join("'%s'" % esc(c) for c in s)


def within(e, ty):
    """the place of a new object holding the objects of type ty in e"""
    return e.place.parts() if e.place is not None and T.mutable(ty) else None


def bound_names(tr):
    return {b[1] for b in tr.binders if b[0] != "guard"}


class ExprMixin:
    # ------------------------------------------------------------------ entry points
    def expr(self, n, want=None, discard=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.fail(n, "expression %s" % type(n).__name__)
        self.frames.append([])
        try:
            e = m(n, want)
        finally:
            frame = self.frames.pop()
        for x, _, _, codes in frame:
            if any(re.search(r"(?<![\w.])" + re.escape(c), e.code) for c in codes):
                self.fail(n, "a part is modified by the evaluation of a later part")
        if isinstance(n, ast.Name) and e.static is None:
            e = type(e)(e.code, e.ty, e.place, None, e.extra)
        self.pending(e)
        return e

    # -- operands are evaluated from left to right: what a later one modifies, an earlier one read before ------
    def pending(self, e, mark=None):
        if self.frames:
            if e.static is not None:
                todo = list(e.static[1:])
                while todo:
                    x = todo.pop()
                    if isinstance(x, (list, tuple)):
                        todo.extend(x)
                    elif isinstance(x, type(e)):
                        self.pending(x, mark)
                return
            self.frames[-1].append((e, self.ind, mark, []))

    def beside(self, es, f, *args, **kw):
        """f evaluates something while es are evaluated already, but not used yet"""
        self.frames.append([])
        try:
            for e in es:
                self.pending(e)
            r = f(*args, **kw)
        finally:
            self.frames.pop()
        return r

    def used(self, es):
        ids = {id(e) for e in es}
        for f in self.frames:
            f[:] = [x for x in f if id(x[0]) not in ids]

    def settle(self, root, depth):
        """root is about to be modified, depth inside it (99: bound to another object)"""
        rx = re.compile(r"(?<![\w.])%s(?!\w)" % re.escape(root))
        for f in self.frames:
            for e, ind, mark, codes in f:
                if not rx.search(e.code):
                    continue
                if e.place is not None and T.mutable(e.ty):
                    if depth == 99 or e.place.root != root or depth < len(e.place.steps):
                        self.fail(None, "%s is modified by the evaluation of a later part" % e.code)
                    continue                 # the object itself
                if isinstance(e.extra, dict) and e.extra.get("lazy"):
                    self.fail(None, "%s is modified while an iterator over it is pending" % root)
                if T.mutable(e.ty) and isinstance(e.extra, dict) and any(e.extra.get(k) for k in ("genroots", "genmods", "borrowed")):
                    continue                 # a generator: see gen_vars
                if e.extra and rx.search(repr(e.extra)):
                    self.fail(None, "%s is modified by the evaluation of a later part" % e.code)
                x = self.newlocal("fz", e.ty)
                line = ("    " * ind + "proof { %s = %s; }" % (x, e.code), None)
                if mark is not None:
                    self.lines[mark] = line
                    self.refilled.append((mark, e, e.code))
                elif self.ind <= ind:
                    self.emit("proof { %s = %s; }" % (x, e.code))
                    self.refilled.append((len(self.lines) - 1, e, e.code))
                else:
                    self.fail(None, "%s is modified by the evaluation of a later part" % e.code)
                codes.append(e.code)
                e.code = x

    def cond(self, n):
        """Boolean spec code of a test."""
        if isinstance(n, ast.BoolOp):
            return self.boolop(n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return "!(%s)" % self.cond(n.operand)
        return self.truth(self.expr(n), n)

    def truth(self, e, node):
        if e.static is not None:
            if e.static[0] == "tuple":
                return "true" if e.static[1] else "false"
            return "true"
        t = find(e.ty)
        if t.k == "bool":
            return e.code
        if t.k == "int":
            return "(%s != 0)" % e.code
        if t.k in ("list", "vtuple", "str"):
            return "seq_any(%s)" % e.code
        if t.k == "gen":
            return "true"
        if t.k in ("set", "fset", "bag"):
            return "set_truthy(%s)" % e.code
        if t.k in ("dict", "ddict"):
            self.check_fuzzy(e, node)
            return "set_truthy(%s.dom())" % e.code
        if t.k == "none":
            return "false"
        if t.k == "opt":
            inner = find(t.a[0])
            return "(%s is Some && %s)" % (e.code, self.truth(E("%s->Some_0" % e.code, inner), node))
        if t.k == "tuple":
            return "true" if t.a else "false"
        if t.k == "obj:Opaque":
            return "opaque_truth(%s)" % e.code
        if t.k.startswith("obj:"):
            st = self.reg.structs.get(t.k[4:])
            if st is not None and st.qual:
                ci = self.class_of_struct(st)
                if ci is not None and (self.prog.find_method(ci, "__bool__") or self.prog.find_method(ci, "__len__")):
                    self.fail(node, "truth value of %s" % t.k)
            return "true"
        self.fail(node, "truth value of %r" % t)

    def boolop(self, n):
        """and / or as a formula; as control flow when a later operand calls a function that is not pure"""
        if self.binders:
            return self.boolop_formula(n)
        snap = self.snapshot()
        try:
            return self.boolop_formula(n)
        except Unsupported as e:
            if "inside a comprehension or condition" not in str(e) and "under a binder" not in str(e):
                raise
            self.rollback(snap)
        saved = dict(self.scope)
        b = self.newlocal("b", BOOL)
        self.pr("%s = %s;" % (b, self.cond(n.values[0])))
        for k, v in enumerate(n.values[1:]):
            self.emit("if test(Ghost((%s%s))) {" % ("" if isinstance(n.op, ast.And) else "!", b))
            self.ind += 1
            self.narrow(n.values[k], isinstance(n.op, ast.And))
            self.pr("%s = %s;" % (b, self.cond(v)))
        for v in n.values[1:]:
            self.ind -= 1
            self.emit("}")
        self.scope = saved
        return b

    def boolop_formula(self, n):
        op = " && " if isinstance(n.op, ast.And) else " || "
        parts = [self.cond(n.values[0])]
        pushed = 0
        saved = dict(self.scope)
        cur = n.values[0]
        for v in n.values[1:]:
            g = parts[-1] if op == " && " else "!(%s)" % parts[-1]
            self.binders.append(("guard", g))
            pushed += 1
            self.narrow(cur, op == " && ")
            parts.append(self.cond(v))
            cur = v
        del self.binders[len(self.binders) - pushed:]
        self.scope = saved
        return "(" + op.join(parts) + ")"

    def coerce(self, e, want, node):
        if find(e.ty).k == "gen":
            e = self.rest(e)
        w, t = find(want), find(e.ty)
        if e.static is not None and e.static[0] == "tuple" and w.k == "tuple" and len(w.a) == len(e.static[1]):
            return E("(%s)" % ", ".join(self.coerce(x, a, node).code for x, a in zip(e.static[1], w.a)), want)
        if e.static is not None and e.static[0] != "dyn":
            r = self.static_to(e, w, node)
            if r is not None:
                return r
        if e.static is not None and e.static[0] == "dyn":
            r = self.static_to(e, w, node)
            if r is not None:
                return r
        if w.k == "?" or t.k == "?":
            unify(w, t)
            return e
        if t.k.startswith("obj:Val") and w.k in ("int", "bag"):
            self.oblige("%s.k == %d" % (e.code, 0 if w.k == "int" else 1), "the action's value is %s" % ("a number" if w.k == "int" else "a set"))
            return E("%s.%s" % (e.code, "i" if w.k == "int" else "s"), want)
        if w.k.startswith("obj:") and t.k.startswith("obj:") and t.k[4:] in self.reg.unions.get(w.k[4:], ()):
            return E("%s::%s(%s)" % (w.k[4:], t.k[4:], e.code), want)
        if w.k == "vtuple" and t.k == "list":          # a list that nobody changes any more
            if e.place is not None:
                if e.place.root in self.entry_alias_roots:
                    self.fail(node, "the list of a caller is kept")
                self.alias("frozen", e, node)
            unify(w.a[0], t.a[0])
            return E(e.code, want)
        if w.k == "float" and t.k == "int":
            return E("py_num(%s)" % e.code, want)
        if w.k == "int" and t.k == "float":
            self.may_raise("TypeError", "%s.f" % e.code, "a float where an integer is needed")
            return E("%s.r.floor()" % e.code, INT)
        if w.k == "bag":
            if t.k in ("list", "vtuple", "gen"):
                self.drain(e, node)
                unify(w.a[0], t.a[0])
                return E("%s.to_set()" % e.code, want)
            if t.k in ("set", "fset", "bag"):
                unify(w.a[0], t.a[0])
                return E(e.code, want, e.place)
            if t.k in ("dict", "ddict"):
                unify(w.a[0], t.a[0])
                return E("%s.dom()" % e.code, want)
            if t.k == "tuple" and all(T.same(x, w.a[0]) for x in t.a):
                code = "Set::empty()"
                for i in range(len(t.a)):
                    code += ".insert(%s.%d)" % (e.code, i)
                return E(code, want)
            if t.k == "str":
                return E("chars_of(%s).to_set()" % e.code, want)
            self.fail(node, "not iterable: %r" % t)
        if w.k == "obj:Opaque" and self.c.handles and e.static is None and e.place is not None and t.k.startswith("obj:") and T.mutable(e.ty) \
                and all(st[0] == "attr" for st in e.place.steps):      # the object itself, to be handed to a function value
            if self.loops or self.binders:
                self.fail(node, "a reference taken in a loop")
            self.handles.append((e.place.root, len(self.mut_events)))
            return E("object_at(%s)" % self.asm.lit(".".join([e.place.root.rstrip("_")] + [st[1] for st in e.place.steps])), want)
        if w.k == "obj:Sudoku" and t.k == "obj:Outcome":
            self.oblige("%s.kind == 1" % e.code, "the result is a sudoku")
            return E("%s.sud" % e.code, want)
        if w.k == "obj:Opaque" and t.k == "dict" and e.static is None and not T.mutable(t.a[1]):      # a dict that nobody changes any more
            if e.place is not None:
                if e.place.root in self.entry_alias_roots:
                    self.fail(node, "the dict of a caller is kept")
                self.alias("frozen", e, node)
            return E("opaque_of(%s)" % e.code, want)
        if w.k == "obj:Opaque" and (t.k in ("int", "bool", "str", "tuple", "list") or self.is_record(t)) and e.static is None and not T.mutable(e.ty):
            return E("opaque_of(%s)" % e.code, want)
        if w.k == "opt" and t.k != "opt":
            if t.k == "none":
                return E("None::<%s>" % rs(w.a[0]), want)
            x = self.coerce(e, w.a[0], node)
            return E("Some(%s)" % x.code, want, x.place)
        if t.k == "opt" and w.k != "opt":
            self.may_raise("TypeError", "%s is None" % e.code, "use of None")
            return self.coerce(E("%s->Some_0" % e.code, t.a[0]), want, node)
        if w.k == "tuple" and t.k == "tuple" and len(w.a) == len(t.a) and not T.same(w, t):
            parts = [self.coerce(E("%s.%d" % (e.code, i), t.a[i]), w.a[i], node) for i in range(len(t.a))]
            return E("(%s)" % ", ".join(p.code for p in parts), want)
        if w.k == "gen" and t.k in ("list", "vtuple"):        # an iterable that is consumed once
            unify(w.a[0], t.a[0])
            return E(e.code, want, e.place)
        if w.k == "gen" and t.k == "str":
            unify(w.a[0], STR)
            return E("chars_of(%s)" % e.code, want)
        if w.k == "gen" and t.k in ("set", "fset"):
            unify(w.a[0], t.a[0])
            return E(self.call_raw("enum_set", [e.code], want) + "@", want, within(e, t.a[0]))
        if w.k in ("vtuple", "gen") and t.k == "tuple" and all(T.same(x, w.a[0]) for x in t.a):
            code = "Seq::<%s>::empty()" % rs(w.a[0])
            for i in range(len(t.a)):
                code += ".push(%s.%d)" % (e.code, i)
            return E(code, want)
        if w.k == "int" and t.k == "bool":
            return E("(if %s { 1int } else { 0int })" % e.code, INT)
        if w.k == "dict" and t.k == "ddict":
            unify(w.a[0], t.a[0])
            unify(w.a[1], t.a[1])
            return E(e.code, want, e.place)
        if w.k == "set" and t.k == "fset" or w.k == "fset" and t.k == "set":
            self.fail(node, "set / frozenset mixed")
        if w.k.startswith("obj:Val") and t.k == "int":
            return E("Val { k: 0, i: %s, s: Set::empty() }" % e.code, want)
        if w.k.startswith("obj:Val") and t.k in ("set", "fset", "bag", "vtuple", "list"):
            s = e.code if t.k in ("set", "fset", "bag") else "%s.to_set()" % e.code
            return E("Val { k: 1, i: 0, s: %s }" % s, want)
        unify(w, t, "line %s" % getattr(node, "lineno", "?"))
        return e

    def static_to(self, e, w, node):
        """A compile-time entity used as a run-time value of type w."""
        if w.k == "obj:Sink" and e.static[0] == "bound" and e.static[1] == "append" and find(e.static[2].ty).k == "list" and e.static[2].place is not None:
            base = e.static[2]         # list.append as a callback: the list receives what is reported
            st = self.reg.structs["Sink"]
            unify(base.ty, st.fields[0][2], "line %s" % getattr(node, "lineno", "?"))
            return E("Sink { items: %s }" % base.code, w, base.place, None, {"sink": True})
        if w.k == "obj:Unit":          # bound geometry method, as a tag
            tags = {"row_of": 0, "column_of": 1, "box_of": 2}
            for c in (e.static[1] if e.static[0] == "dyn" else [e]):
                sud = self.scope.get("sudoku")
                if c.static and c.static[0] == "bound" and (sud is None or c.static[2].place is None or c.static[2].place.root != sud.place.root or c.static[2].place.steps):
                    self.fail(node, "a geometry method of another sudoku as a value")
            if e.static[0] == "bound" and e.static[1] in tags:
                return E("Unit { tag: %d }" % tags[e.static[1]], w)
            if e.static[0] == "dyn" and all(c.static and c.static[0] == "bound" and c.static[1] in tags for c in e.static[1]):
                code = None
                cs = e.static[1]
                code = str(tags[cs[-1].static[1]])
                for j in range(len(cs) - 2, -1, -1):
                    code = "if %s == %d { %d } else { %s }" % (e.code, j, tags[cs[j].static[1]], code)
                return E("Unit { tag: (%s) }" % code, w)
        if w.k == "obj:Opaque" and e.static[0] == "dictconst":
            return E(self.call_raw("any_value::<Opaque>", [], w) + "@", w)
        if w.k == "obj:Func":
            if e.static[0] == "dyn":
                cs = e.static[1]
                code = self.func_value(cs[-1], node)
                for j in range(len(cs) - 2, -1, -1):
                    code = "(if %s == %d { %s } else { %s })" % (e.code, j, self.func_value(cs[j], node), code)
                return E(code, w)
            return E(self.func_value(e, node), w)
        if w.k == "obj:Cls":
            if e.static[0] == "class":
                return E("Cls { tag: %d, n: %s }" % (self.asm.class_tag(e.static[1]), self.class_n(e.static[1])), w)
            if e.static[0] == "dyn" and all(c.static and c.static[0] == "class" for c in e.static[1]):
                cs = e.static[1]
                code = self.static_to(cs[-1], w, node).code
                for j in range(len(cs) - 2, -1, -1):
                    code = "(if %s == %d { %s } else { %s })" % (e.code, j, self.static_to(cs[j], w, node).code, code)
                return E(code, w)
        if w.k == "obj:FuncTag" and e.static[0] == "method":
            tags = {"set_number": 0, "set_candidates": 1, "remove_candidates": 2}
            if e.static[2] in tags and e.static[1].name == "Sudoku":
                return E("FuncTag { tag: %d }" % tags[e.static[2]], w)
        if w.k == "?" or w.k in ("list", "vtuple", "bag", "tuple") and e.static[0] == "tuple":
            if e.static[0] == "tuple" and all(x.static is None for x in e.static[1]):
                return None
        if e.static[0] == "dyn" and find(e.ty).k == w.k:
            return None
        if e.static[0] == "dyn" and all(c.static is None for c in e.static[1]):
            return None
        raise Unsupported("%s line %s: function or class used as a value" % (self.modname, getattr(node, "lineno", "?")))

    def class_n(self, ci):
        r = self.prog.find_classconst(ci, "n")
        if r is None:
            return "0"
        v = r[1]
        if isinstance(v, ast.Constant) and isinstance(v.value, int):
            return str(v.value)
        raise Unsupported("class constant n of %s" % ci.name)

    # ------------------------------------------------------------------ atoms
    def e_Constant(self, n, want):
        v = n.value
        if v is True or v is False:
            return E("true" if v else "false", BOOL)
        if isinstance(v, int):
            return E("%dint" % v if v >= 0 else "(%dint)" % v, INT)
        if isinstance(v, str):
            return E(self.asm.lit(v), STR, extra={"lit": v})
        if v is None:
            if want is not None and find(want).k == "opt":
                return E("None::<%s>" % rs(find(want).a[0]), want)
            return E("()", NONE)
        if isinstance(v, float):
            return E(str(v), T.FLOAT, extra={"float": v})
        self.fail(n, "constant %r" % (v,))

    def e_Name(self, n, want):
        if n.id in self.scope:
            e = self.scope[n.id]
            if e.static is not None and e.static[0] == "conflict":
                self.fail(n, "variable %s has different kinds on different paths" % n.id)
            if e.place is not None:
                self.read_roots.append(e.place.root)
            return e
        r = self.prog.resolve(self.modname, n.id)
        if r is None:
            if n.id in BUILTINS:
                return E("?", NONE, static=("builtin", n.id))
            self.fail(n, "unknown name %s" % n.id)
        return self.from_resolution(r, n)

    def from_resolution(self, r, n):
        if r[0] == "func":
            return E("?", NONE, static=("func", r[1], r[2]))
        if r[0] == "class":
            return E("?", NONE, static=("class", r[1]))
        if r[0] == "module":
            return E("?", NONE, static=("module", r[1]))
        if r[0] == "ext":
            if r[1] in EXT_CONST:
                return E(self.asm.lit(EXT_CONST[r[1]]), STR, extra={"lit": EXT_CONST[r[1]]})
            return E("?", NONE, static=("ext", r[1]))
        if r[0] == "const":
            # module constant: translate its expression in its module (must be immutable or never mutated)
            save_mod, self.modname = self.modname, r[1]
            save_scope, self.scope = self.scope, {}
            try:
                if isinstance(r[2], ast.Dict):
                    return E("?", NONE, static=("dictconst", r[1], r[2]))
                if isinstance(r[2], (ast.List, ast.Tuple)):
                    els = [self.expr(x) for x in r[2].elts]
                    self.asm.note_const(r[1], r[2])
                    return E("?", NONE, static=("tuple", els))
                if isinstance(r[2], ast.Constant):
                    return self.expr(r[2])
            finally:
                self.modname, self.scope = save_mod, save_scope
            self.fail(n, "module constant %s" % ast.unparse(r[2])[:60])
        self.fail(n, "name")

    def e_Tuple(self, n, want):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            self.fail(n, "starred tuple")
        ws = [None] * len(n.elts)
        w = find(want) if want is not None else None
        if w is not None and w.k == "tuple" and len(w.a) == len(n.elts):
            ws = w.a
        if w is not None and w.k in ("vtuple", "bag"):
            ws = [w.a[0]] * len(n.elts)
        apart, self.apart = getattr(self, "apart", False), False
        els = [self.expr(x, want=a) for x, a in zip(n.elts, ws)]
        if any(e.static is not None for e in els) and els:
            return E("?", NONE, static=("tuple", els))
        if w is not None and w.k in ("vtuple", "bag"):
            code = "Seq::<%s>::empty()" % rs(w.a[0])
            for e in els:
                code += ".push(%s)" % self.coerce(e, w.a[0], n).code
            return E(code, T.vtup(w.a[0]))
        if not els:
            return E("Seq::<%s>::empty()" % "int", T.vtup(T.tv()))
        code = "(%s%s)" % (", ".join(e.code for e in els), "," if len(els) == 1 else "")
        if apart:
            return E(code, T.tup(*[e.ty for e in els]), None, extra={"els": els})
        return self.holding(code, T.tup(*[e.ty for e in els]), els, n)

    def holding(self, code, ty, els, node):
        """a new object that may hold the objects els"""
        placed = [e for e in els if e.place is not None and T.mutable(e.ty)]
        if len(placed) < 2:
            return E(code, ty, placed[0].place.itself() if placed else None)
        if self.binders:
            self.fail(node, "one of several objects under a binder")
        x = self.newlocal("held", ty)
        self.emit("proof { %s = %s; }" % (x, code))
        for e in placed:
            self.alias(x, e, node, 1)
        return E(x, ty, Place(x))

    def made(self, code, ty, srcs, node):
        """a new object that may hold the elements of srcs"""
        els = [E(e.code, e.ty, e.place.parts()) for e in srcs if e.static is None and e.place is not None and any(T.mutable(x) for x in find(e.ty).a)]
        return self.holding(code, ty, els, node)

    def e_List(self, n, want):
        w = find(want) if want is not None else None
        et = w.a[0] if w is not None and w.k == "list" else T.tv()
        els = [self.expr(x, want=et) for x in n.elts]
        if any(e.static is not None for e in els) and els:
            return E("?", NONE, static=("tuple", els))
        code = "Seq::<%s>::empty()" % rs(et)
        res = []
        for e in els:
            if find(et).k == "?":
                unify(et, e.ty)
            res.append(self.coerce(e, et, n))
            code += ".push(%s)" % res[-1].code
        return self.holding(code, T.lst(et), res, n)

    def e_Set(self, n, want):
        w = find(want) if want is not None else None
        et = w.a[0] if w is not None and w.k in ("set", "fset", "bag") else T.tv()
        code = "Set::<%s>::empty()" % rs(et)
        for x in n.elts:
            e = self.coerce(self.expr(x, want=et), et, n)
            code += ".insert(%s)" % e.code
        return E(code, T.seta(et))

    def e_Dict(self, n, want):
        kt, vt = T.tv(), T.tv()
        w = find(want) if want is not None else None
        if w is not None and w.k == "dict":
            kt, vt = w.a
        code = "Map::<%s, %s>::empty()" % (rs(kt), rs(vt))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.fail(n, "dict unpacking")
            ke = self.expr(k, want=kt)
            ve = self.expr(v, want=vt)
            if ve.static is not None or ke.static is not None:
                return E("?", NONE, static=("dictexpr", n))
            ke = self.coerce(ke, kt, n)
            ve = self.coerce(ve, vt, n)
            if ve.place is not None and T.mutable(ve.ty):
                self.fail(n, "mutable alias in dict display")
            code += ".insert(%s, %s)" % (ke.code, ve.code)
        return E(code, T.dct(kt, vt))

    def e_Lambda(self, n, want):
        return E("?", NONE, static=("lambda", n, dict(self.scope)))

    def e_Starred(self, n, want):
        self.fail(n, "starred expression")

    def e_JoinedStr(self, n, want):
        code = "Seq::<char>::empty()"
        for v in n.values:
            if isinstance(v, ast.Constant):
                code = "%s.add(%s)" % (code, self.asm.lit(v.value))
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    self.fail(n, "format spec")
                code = "%s.add(%s)" % (code, self.to_str(self.expr(v.value), n).code)
        return E(code, STR)

    # ------------------------------------------------------------------ operators
    def e_BoolOp(self, n, want):
        # value context: all operands boolean -> boolean formula; x or y of equal types
        if self.all_bool(n):
            return E(self.boolop(n), BOOL)
        first = self.expr(n.values[0], want=want)
        res = first
        for v in n.values[1:]:
            t = self.truth(res, n)
            g = t if isinstance(n.op, ast.And) else "!(%s)" % t
            self.binders.append(("guard", g))
            e = self.expr(v, want=want)
            self.binders.pop()
            if isinstance(n.op, ast.Or) and res.static is None and find(res.ty).k == "opt":      # true, therefore not None
                et = find(res.ty).a[0]
                res = E("%s->Some_0" % res.code, et, within(res, et))
            elif isinstance(n.op, ast.Or) and res.static is None and find(res.ty).k == "none":
                res = e
                continue
            a, b = (e, res) if isinstance(n.op, ast.And) else (res, e)
            res = self.either(t, a, b, n)
        return res

    def all_bool(self, n):
        if isinstance(n, ast.BoolOp):
            return all(self.all_bool(v) for v in n.values)
        if isinstance(n, ast.Compare):
            return True
        if isinstance(n, ast.UnaryOp):
            return isinstance(n.op, ast.Not)
        if isinstance(n, ast.Constant):
            return isinstance(n.value, bool)
        if isinstance(n, ast.Name):
            return n.id in self.scope and find(self.scope[n.id].ty).k == "bool"
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "isinstance", "bool"):
                return True
            try:
                q = self.peek_return(n)
            except Unsupported:
                return False
            return q is not None and find(q).k == "bool"
        return False

    def peek_return(self, n):
        if isinstance(n.func, ast.Name) and n.func.id not in self.scope:
            r = self.prog.resolve(self.modname, n.func.id)
            if r and r[0] == "func":
                c = self.reg.fns.get(r[1] + "." + r[2].name)
                return c.returns if c else None
        return None

    def e_UnaryOp(self, n, want):
        if isinstance(n.op, ast.Not):
            return E("!(%s)" % self.cond(n.operand), BOOL)
        e = self.expr(n.operand)
        if isinstance(n.op, ast.USub):
            e = self.coerce(e, INT, n)
            if isinstance(n.operand, ast.Constant):
                return E("(-%s)" % e.code, INT, extra={"neg": n.operand.value})
            return E("(-%s)" % e.code, INT)
        if isinstance(n.op, ast.UAdd):
            return e
        self.fail(n, "unary operator")

    def e_BinOp(self, n, want):
        w = None
        if want is not None and find(want).k in ("list", "set", "fset"):
            w = want
        # '%' formatting
        if isinstance(n.op, ast.Mod) and self.is_strlit(n.left):
            return self.percent(n)
        a = self.expr(n.left, want=w)
        b = self.expr(n.right, want=w if find(a.ty).k in ("list",) else None)
        return self.binop(type(n.op), a, b, n)

    @staticmethod
    def is_strlit(n):
        return isinstance(n, ast.Constant) and isinstance(n.value, str)

    def binop(self, op, a, b, node):
        ta, tb = find(a.ty), find(b.ty)
        if a.static is not None and a.static[0] == "dyn" and all(c.static is None for c in a.static[1]):
            pass
        elif a.static is not None or b.static is not None:
            if op is ast.Add and a.static and b.static and a.static[0] == b.static[0] == "tuple":
                return E("?", NONE, static=("tuple", a.static[1] + b.static[1]))
            self.fail(node, "operator on a function or class")
        num = ("int", "bool", "float") if op in (ast.FloorDiv, ast.Mod) else ("int", "bool")
        if ta.k in num and tb.k in num:
            a, b = self.coerce(a, INT, node), self.coerce(b, INT, node)
            x, y = a.code, b.code
            if op is ast.Add:
                return E("(%s + %s)" % (x, y), INT)
            if op is ast.Sub:
                return E("(%s - %s)" % (x, y), INT)
            if op is ast.Mult:
                return E("(%s * %s)" % (x, y), INT)
            if op in (ast.FloorDiv, ast.Mod):
                self.may_raise("ZeroDivisionError", "%s == 0" % y, "division") if False else None
                self.oblige("%s > 0" % y, "divisor is positive")
                return E("(%s %s %s)" % (x, "/" if op is ast.FloorDiv else "%", y), INT)
            if op is ast.Pow:
                if re.fullmatch(r"\d+int", y) and int(y[:-3]) in (1, 2, 3):
                    return E("(" + " * ".join([x] * int(y[:-3])) + ")", INT)
                self.fail(node, "power")
            self.fail(node, "integer operator %s" % op.__name__)
        if ta.k == "int" and tb.k == "float" and op is ast.Pow and (b.extra or {}).get("float") == 0.5:
            self.oblige("%s >= 0" % a.code, "the root of a negative number is complex")
            return E("py_sqrt(%s)" % a.code, T.FLOAT)
        if ta.k == "list" and tb.k == "list" and op is ast.Add:
            unify(ta, tb)
            return self.holding("%s.add(%s)" % (a.code, b.code), a.ty, [a, b] if T.mutable(find(ta).a[0]) else [], node)
        if ta.k == "vtuple" and tb.k == "vtuple" and op is ast.Add:
            unify(ta, tb)
            return E("%s.add(%s)" % (a.code, b.code), a.ty)
        if ta.k == "str" and tb.k == "str" and op is ast.Add:
            return E("%s.add(%s)" % (a.code, b.code), STR)
        if op is ast.Mod and ta.k == "str" and tb.k == "tuple" and a.static is None and b.static is None and all(find(x).k == "str" for x in tb.a):
            parts = "str_split(%s, percent_s())" % a.code        # a format made at run time: nothing but %s
            self.oblige("fmt_ok(%s, %d)" % (parts, len(tb.a)), "the format has %d places" % len(tb.a))
            return E("fmt_args(%s, seq![%s])" % (parts, ", ".join("%s.%d" % (b.code, i) for i in range(len(tb.a)))), STR)
        if ta.k == "str" and tb.k == "int" and op is ast.Mult:
            return E("str_repeat(%s, %s)" % (a.code, b.code), STR)
        if ta.k == "list" and tb.k == "int" and op is ast.Mult:
            if T.mutable(ta.a[0]):
                self.fail(node, "list repetition shares mutable elements")
            return E("seq_repeat(%s, %s)" % (a.code, b.code), a.ty)
        if ta.k in ("set", "fset") and tb.k in ("set", "fset"):
            unify(ta.a[0], tb.a[0])
            nm = {ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersect"}.get(op)
            if nm:
                return E("%s.%s(%s)" % (a.code, nm, b.code), a.ty)
            if op is ast.BitXor:
                return E("%s.difference(%s).union(%s.difference(%s))" % (a.code, b.code, b.code, a.code), a.ty)
        if ta.k == "opt":
            return self.binop(op, self.coerce(a, ta.a[0], node), b, node)
        if tb.k == "opt":
            return self.binop(op, a, self.coerce(b, tb.a[0], node), node)
        self.fail(node, "operator %s on %r and %r" % (op.__name__, ta, tb))

    def percent(self, n):
        fmt = n.left.value
        args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
        vals = [self.expr(a) for a in args]
        if len(vals) == 1 and not isinstance(n.right, ast.Tuple) and find(vals[0].ty).k == "obj:Opaque":
            self.fail(n, "formatting of a value that may be a tuple")
        if len(vals) == 1 and not isinstance(n.right, ast.Tuple) and find(vals[0].ty).k == "tuple":
            vals = self.static_elements(vals[0], n)
        code = "Seq::<char>::empty()"
        i = 0
        for part in re.split(r"(%[a-zA-Z%])", fmt):
            if part == "":
                continue
            if part == "%%":
                code = "%s.add(%s)" % (code, self.asm.lit("%"))
            elif part in ("%d", "%s"):
                if i >= len(vals):
                    self.fail(n, "format arguments")
                v = vals[i]
                i += 1
                if part == "%d" and find(v.ty).k not in ("int", "bool"):
                    self.fail(n, "%d of a non-integer")
                code = "%s.add(%s)" % (code, self.to_str(v, n).code)
            elif part.startswith("%"):
                self.fail(n, "format %s" % part)
            else:
                code = "%s.add(%s)" % (code, self.asm.lit(part))
        if i != len(vals):
            self.fail(n, "format arguments")
        return E(code, STR)

    def to_str(self, e, node):
        t = find(e.ty)
        if e.static is not None:
            self.fail(node, "str of a static value")
        if t.k == "int":
            return E("int_str(%s)" % e.code, STR)
        if t.k == "str":
            return e
        if t.k == "obj:Outcome":
            return E("any_str(%s)" % e.code, STR)
        if t.k == "obj:PyExc":            # its text is not specified
            return E(self.call_raw("any_value::<Seq<char>>", [], STR) + "@", STR)
        if t.k.startswith("obj:") and t.k != "obj:Opaque":
            return self.method_call(e, "__str__", [], {}, node)
        return E("any_str(%s)" % e.code, STR)

    def emptiness(self, n):
        """len(x) > 0 and the like, for a sequence x: the truth value of x"""
        if len(n.ops) != 1:
            return None
        l, r, op = n.left, n.comparators[0], type(n.ops[0])
        if isinstance(l, ast.Constant):
            l, r, op = r, l, {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}.get(op, op)
        if not (isinstance(r, ast.Constant) and type(r.value) is int and isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len"
                and len(l.args) == 1 and not l.keywords and l.func.id not in self.scope and self.prog.resolve(self.modname, "len") in (None, ("builtin", "len"))):
            return None
        yes = {(0, ast.Gt): True, (0, ast.NotEq): True, (1, ast.GtE): True, (0, ast.Eq): False, (1, ast.Lt): False, (0, ast.LtE): False}.get((r.value, op))
        if yes is None:
            return None
        snap = self.snapshot()
        x = self.expr(l.args[0])
        if x.static is not None or find(x.ty).k not in ("list", "vtuple", "set", "fset", "dict", "ddict"):
            self.rollback(snap)
            return None
        t = self.truth(x, n)
        return t if yes else "!(%s)" % t

    def e_Compare(self, n, want):
        t = self.emptiness(n)
        if t is not None:
            return E("(%s)" % t, BOOL)
        left = self.expr(n.left)
        parts = []
        pushed = 0
        for op, r in zip(n.ops, n.comparators):
            right = self.expr(r, want=left.ty if isinstance(op, (ast.Eq, ast.NotEq)) and left.static is None else None)
            parts.append(self.compare(op, left, right, n))
            left = right
            self.binders.append(("guard", parts[-1]))
            pushed += 1
        del self.binders[len(self.binders) - pushed:]
        return E("(" + " && ".join(parts) + ")", BOOL)

    def compare(self, op, a, b, node):
        ta, tb = find(a.ty), find(b.ty)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (tb.k == "none" and b.static is None or
                                                                       ta.k == "none" and a.static is None):
            x, t = (a, ta) if tb.k == "none" and b.static is None else (b, tb)
            if x.static is not None:
                r = "false"
            elif t.k == "opt":
                r = "(%s is None)" % x.code
            elif t.k == "none":
                r = "true"
            elif t.k == "obj:Outcome" and isinstance(op, (ast.Is, ast.IsNot)):
                r = "(%s.kind == 0)" % x.code
            elif t.k in ("obj:Outcome", "obj:Opaque"):
                self.fail(node, "comparison of %r with None" % t)
            else:
                r = "false"
            return r if isinstance(op, (ast.Is, ast.Eq)) else "!(%s)" % r
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and (a.static is not None or b.static is not None):
            r = self.static_eq(a, b, node)
            return r if isinstance(op, (ast.Eq, ast.Is)) else "!(%s)" % r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if ta.k == tb.k == "bool":
                op = ast.Eq() if isinstance(op, ast.Is) else ast.NotEq()
            else:
                self.fail(node, "identity comparison")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, node)
            return r if isinstance(op, ast.Eq) else "!(%s)" % r
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
            if ta.k in ("int", "bool", "opt") and tb.k in ("int", "bool", "opt"):
                a, b = self.coerce(a, INT, node), self.coerce(b, INT, node)
                return "(%s %s %s)" % (a.code, sym, b.code)
            if ta.k in ("set", "fset") and tb.k in ("set", "fset"):
                unify(ta.a[0], tb.a[0])
                x, y = (a.code, b.code) if sym[0] == "<" else (b.code, a.code)
                r = "%s.subset_of(%s)" % (x, y)
                return r if "=" in sym else "(%s && %s != %s)" % (r, x, y)
            self.fail(node, "ordering of %r and %r" % (ta, tb))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return r if isinstance(op, ast.In) else "!(%s)" % r
        self.fail(node, "comparison")

    def equal(self, a, b, node):
        ta, tb = find(a.ty), find(b.ty)
        if ta.k == "opt" and tb.k == ta.a[0].k and self.user_eq(tb):
            return self.equal(self.coerce(a, tb, node), b, node)
        if tb.k == "opt" and ta.k == tb.a[0].k and self.user_eq(ta):
            return self.equal(a, self.coerce(b, ta, node), node)
        if ta.k == "opt" and tb.k != "opt":
            b = self.coerce(b, ta, node)
        elif tb.k == "opt" and ta.k != "opt":
            a = self.coerce(a, tb, node)
        elif ta.k.startswith("obj:") or tb.k.startswith("obj:"):
            st = self.reg.structs.get(ta.k[4:])
            if {ta.k, tb.k} & {"int", "str", "bool"} and (self.is_record(ta) or self.is_record(tb)):
                return "false"
            if ta.k == tb.k and self.is_record(ta):
                return "(%s == %s)" % (a.code, b.code)
            if ta.k != tb.k:
                self.fail(node, "comparison of %r and %r" % (ta, tb))
            if st is not None and st.qual:
                return self.truth(self.method_call(a, "__eq__", [b], {}, node), node)
            return "(%s == %s)" % (a.code, b.code)
        elif {ta.k, tb.k} <= {"set", "fset"}:
            unify(ta.a[0], tb.a[0])
        elif {ta.k, tb.k} == {"int", "bool"}:
            a, b = self.coerce(a, INT, node), self.coerce(b, INT, node)
        elif {ta.k, tb.k} == {"int", "float"} or ta.k == tb.k == "float":
            a, b = self.coerce(a, T.FLOAT, node), self.coerce(b, T.FLOAT, node)
            return "(%s.r == %s.r)" % (a.code, b.code)
        elif {ta.k, tb.k} == {"vtuple", "tuple"}:
            return "false" if False else self.fail(node, "tuple comparison")
        else:
            unify(ta, tb, "comparison")
        if self.user_eq(a.ty) and "none" not in (ta.k, tb.k):
            self.fail(node, "comparison of %r" % find(a.ty))
        return "(%s == %s)" % (a.code, b.code)

    def user_eq(self, t):
        """Do values of this type hold objects with an __eq__ of their own (or compared by identity)?"""
        t = find(t)
        st = self.reg.structs.get(t.k[4:]) if t.k.startswith("obj:") else None
        if t.k.startswith("obj:"):
            return st is not None and bool(st.qual) and not self.is_record(t)
        return any(self.user_eq(x) for x in t.a)

    def static_eq(self, a, b, node):
        def key(e):
            if e.static is None:
                return None
            if e.static[0] == "class":
                return ("class", e.static[1].module, e.static[1].name)
            if e.static[0] == "func":
                return ("func", e.static[1], e.static[2].name)
            if e.static[0] == "method":
                return ("method", e.static[1].name, e.static[2])
            return None
        if a.static and a.static[0] == "dyn" and key(b):
            js = [j for j, c in enumerate(a.static[1]) if key(c) == key(b)]
            if any(key(c) is None for c in a.static[1]):
                self.fail(node, "comparison of functions")
            return "(" + (" || ".join("%s == %d" % (a.code, j) for j in js) or "false") + ")"
        ka, kb = key(a), key(b)
        if ka and kb:
            return "true" if ka == kb else "false"
        for x, y in ((a, b), (b, a)):
            if x.static is None and find(x.ty).k == "obj:Cls" and key(y):
                return "(%s.tag == %d)" % (x.code, self.asm.class_tag(y.static[1]))
            if x.static is None and find(x.ty).k == "obj:Func" and key(y):
                return "(%s == %s)" % (x.code, self.func_value(y, node))
            if x.static is None and find(x.ty).k == "obj:FuncTag" and key(y):
                return "(%s == %s)" % (x.code, self.static_to(y, find(x.ty), node).code)
        self.fail(node, "comparison of functions or classes")

    def func_value(self, e, node):
        """a function of the shell as a value"""
        s = e.static or ("",)
        k = (s[3].name, s[2]) if s[0] == "method" else ("", s[2].name) if s[0] == "func" and s[1].startswith("sudokutools.") else (s[1].name, "") if s[0] == "class" else None
        if k in self.reg.func_values:
            return self.reg.func_values[k]
        self.fail(node, "function as a value")

    def opaqued(self, e, node):
        """where objects of any kind are collected, a command or keyword is one of them"""
        if e.static is None and find(e.ty).k in ("obj:Command", "obj:Keyword") and any(x.k == "obj:Opaque" for t in self.c.kinds.values() for x in find(t).a):
            return self.coerce(e, T.parse("Opaque", []), node)
        return e

    def is_record(self, t):
        """a named tuple without methods of its own"""
        st = self.reg.structs.get(t.k[4:]) if t.k.startswith("obj:") else None
        ci = st and self.class_of_struct(st)
        return bool(ci) and not ci.methods and any(isinstance(b, ast.Call) and ast.unparse(b.func) == "namedtuple" for b in ci.bases)

    def contains(self, c, x, node):
        t = find(c.ty)
        if c.static is not None:
            if c.static[0] == "tuple":
                els = c.static[1]
                return "(" + " || ".join(self.equal(x, e, node) if e.static is None and x.static is None
                                         else self.static_eq(x, e, node) for e in els) + ")"
            if c.static[0] in ("dictconst",):
                keys = [self.expr(k) for k in c.static[2].keys]
                return "(" + " || ".join(self.equal(x, e, node) for e in keys) + ")"
            self.fail(node, "membership in a static value")
        if t.k in ("list", "vtuple", "set", "fset", "bag"):
            x = self.coerce(x, t.a[0], node)
            if find(t.a[0]).k.startswith("obj:") and find(t.a[0]).k[4:] not in T.IMMUTABLE_OBJ:
                self.fail(node, "membership test uses user equality")
            return "%s.contains(%s)" % (c.code, x.code)
        if t.k in ("dict", "ddict"):
            x = self.coerce(x, t.a[0], node)
            return "%s.dom().contains(%s)" % (c.code, x.code)
        if t.k == "str":
            x = self.coerce(x, STR, node)
            return "str_contains(%s, %s)" % (c.code, x.code)
        if t.k == "tuple":
            return "(" + " || ".join(self.equal(x, e, node) for e in self.static_elements(c, node)) + ")"
        self.fail(node, "membership in %r" % t)

    def e_IfExp(self, n, want):
        c = self.cond(n.test)
        sc = dict(self.scope)
        self.binders.append(("guard", c))
        self.narrow(n.test, True)
        a = self.expr(n.body, want=want)
        self.binders.pop()
        self.scope = dict(sc)
        self.binders.append(("guard", "!(%s)" % c))
        self.narrow(n.test, False)
        b = self.expr(n.orelse, want=want)
        self.binders.pop()
        self.scope = sc
        if want is not None:
            a, b = self.coerce(a, want, n), self.coerce(b, want, n)
        if a.static is not None or b.static is not None:
            if a.static is not None and b.static is not None:
                return E("(if %s { 0int } else { 1int })" % c, INT, None, ("dyn", [a, b]))
            self.fail(n, "conditional static value")
        return self.either(c, a, b, n)

    def either(self, c, a, b, node):
        """one of two objects; neither of them may be changed through the result"""
        if a.static is not None or b.static is not None:
            self.fail(node, "conditional static value")
        ka, kb = find(a.ty).k, find(b.ty).k
        if ka != kb and {ka, kb} & {"opt", "none"} and "?" not in (ka, kb):
            ty = a.ty if ka == "opt" else b.ty if kb == "opt" else T.opt(b.ty if ka == "none" else a.ty)
            a, b = self.coerce(a, ty, node), self.coerce(b, ty, node)
        ty = unify(a.ty, b.ty)
        code = "(if %s { %s } else { %s })" % (c, a.code, b.code)
        placed = [e for e in (a, b) if e.place is not None and T.mutable(ty)]
        if not placed:
            return E(code, ty)
        if self.binders:
            return E(code, ty, placed[0].place.itself()) if len(placed) == 1 else self.fail(node, "one of several objects under a binder")
        x = self.newlocal("held", ty)
        self.emit("proof { %s = %s; }" % (x, code))
        for e in placed:
            self.alias(x, e, node)
        return E(x, ty, Place(x))

    def e_NamedExpr(self, n, want):
        if self.binders:
            self.fail(n, "walrus under a binder")
        v = self.expr(n.value)
        self.setvar(n.target.id, v, n)
        return self.scope[n.target.id]

    # ------------------------------------------------------------------ subscripts and attributes
    def index(self, sl, base, node):
        i = self.coerce(self.expr(sl), INT, node)
        ln = "%s.len()" % base.code
        if isinstance(i.extra, dict) and "neg" in i.extra:
            k = i.extra["neg"]
            self.may_raise("IndexError", "%s < %d" % (ln, k), "index")
            return "(%s - %d)" % (ln, k)
        self.oblige("%s >= 0" % i.code, "index is not negative")
        self.may_raise("IndexError", "%s >= %s" % (i.code, ln), "index")
        return i.code

    def e_Subscript(self, n, want):
        base = self.expr(n.value)
        if base.static is not None and isinstance(n.slice, ast.Slice) and base.static[0] in ("dyn", "tuple"):
            return self.slice(base, n)
        if base.static is not None:
            return self.static_subscript(base, n)
        t = find(base.ty)
        if isinstance(n.slice, ast.Slice):
            return self.slice(base, n)
        if self.is_record(t) and isinstance(n.slice, ast.Constant) and type(n.slice.value) is int:
            st = self.reg.structs[t.k[4:]]
            self.check_namedtuple(self.class_of_struct(st), st, n)
            if 0 <= n.slice.value < len(st.fields):
                return self.attribute(base, st.fields[n.slice.value][0], n)
        if t.k.startswith("obj:"):
            return self.method_call(base, "__getitem__", [self.expr(n.slice)], {}, n)
        if t.k in ("list", "vtuple", "str"):
            i = self.index(n.slice, base, n)
            if t.k == "str":
                return E("char_at(%s, %s)" % (base.code, i), STR)
            return E("%s[%s]" % (base.code, i), t.a[0], base.place.ext(("seq", i)) if base.place else None)
        if t.k == "dict":
            k = self.coerce(self.expr(n.slice, want=t.a[0]), t.a[0], n)
            self.may_raise("KeyError", "!%s.dom().contains(%s)" % (base.code, k.code), "key lookup")
            return E("%s[%s]" % (base.code, k.code), t.a[1], base.place.ext(("map", k.code)) if base.place else None)
        if t.k == "ddict":
            return self.ddict_load(base, n)
        if t.k == "tuple":
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                i = n.slice.value
                if i < 0:
                    i += len(t.a)
                if not 0 <= i < len(t.a):
                    self.fail(n, "tuple index")
                return E("%s.%d" % (base.code, i), t.a[i], base.place.ext(("tup", i)) if base.place else None)
            if isinstance(n.slice, ast.UnaryOp):
                self.fail(n, "tuple index")
            i = self.coerce(self.expr(n.slice), INT, n)
            if len(t.a) == 2 and T.same(t.a[0], t.a[1]):
                self.may_raise("IndexError", "!(0 <= %s && %s < 2)" % (i.code, i.code), "index")
                return E("(if %s == 0 { %s.0 } else { %s.1 })" % (i.code, base.code, base.code), t.a[0])
        if t.k == "opt":
            return self.e_Subscript_of(self.coerce(base, t.a[0], n), n)
        self.fail(n, "subscript of %r" % t)

    def e_Subscript_of(self, base, n):
        nm = "__sub"
        self.scope[nm] = base
        m = ast.Subscript(value=ast.Name(id=nm, ctx=ast.Load()), slice=n.slice, ctx=ast.Load())
        ast.copy_location(m, n)
        ast.copy_location(m.value, n)
        r = self.e_Subscript(m, None)
        del self.scope[nm]
        return r

    def ddict_load(self, base, n):
        t = find(base.ty)
        k = self.coerce(self.expr(n.slice, want=t.a[0]), t.a[0], n)
        default = self.default_of(base, n)
        if default is None:
            self.fail(n, "default of defaultdict unknown")
        inner = base.place
        if self.binders or inner is None:
            if inner is not None:
                self.mark_fuzzy(inner.root)
            code = "dd_get(%s, %s, %s)" % (base.code, k.code, default)
            return E(code, t.a[1])
        # reading inserts the default
        self.check_writable(inner.root, n)
        self.mut_events.append(Mut(inner.root, len(inner.steps)))
        self.emit("proof { if !%s.dom().contains(%s) { %s = %s; } }" % (
            base.code, k.code, inner.root, inner.ext(("map", k.code)).updated(default)))
        return E("%s[%s]" % (base.code, k.code), t.a[1], inner.ext(("map", k.code)))

    def mark_fuzzy(self, root):
        self.fuzzy = getattr(self, "fuzzy", set()) | {root}

    def default_of(self, base, n):
        d = self.ddefaults.get(base.place.root) if base.place is not None else None
        return d

    @property
    def ddefaults(self):
        return self._ddef

    def slice(self, base, n):
        t = find(base.ty)
        s = n.slice
        if base.static is not None and base.static[0] in ("dyn", "tuple") and s.step is None and all(
                x is None or isinstance(x, ast.Constant) and type(x.value) is int for x in (s.lower, s.upper)):
            return self.static_slice(base, slice(s.lower and s.lower.value, s.upper and s.upper.value), n)
        if t.k not in ("list", "vtuple", "str"):
            self.fail(n, "slice of %r" % t)
        if s.step is not None:
            if ast.unparse(s.step) == "-1" and s.lower is None and s.upper is None:
                return E("rev(%s)" % base.code, base.ty,
                         within(base, t.a[0] if t.a else INT))
            self.fail(n, "slice step")

        def bound(x, dflt):
            if x is None:
                return dflt
            e = self.coerce(self.expr(x), INT, n)
            return "slice_idx(%s, %s.len() as int)" % (e.code, base.code)
        pl = within(base, t.a[0]) if t.a else None
        if s.upper is None and (s.lower is None or isinstance(s.lower, ast.Constant) and s.lower.value == 0 and type(s.lower.value) is int):
            return E(base.code, base.ty, pl)
        lo, hi = bound(s.lower, "0int"), bound(s.upper, "(%s.len() as int)" % base.code)
        return E("py_slice(%s, %s, %s)" % (base.code, lo, hi), base.ty, pl)

    def static_slice(self, base, sl, n):
        """a part of a tuple that is known but for its case; of strings: a sequence"""
        cases = [base] if base.static[0] == "tuple" else base.static[1]
        parts = []
        for c in cases:
            if c.static is not None and c.static[0] == "tuple":
                parts.append(c.static[1][sl])
            elif c.static is None and find(c.ty).k == "tuple":
                parts.append(self.static_elements(c, n)[sl])
            else:
                self.fail(n, "slice of a static value")
        if not all(x.static is None and find(x.ty).k == "str" for p in parts for x in p):
            self.fail(n, "slice of a static value")
        code = None
        for j, p in reversed(list(enumerate(parts))):
            x = "Seq::<Seq<char>>::empty()" + "".join(".push(%s)" % y.code for y in p)
            code = x if code is None else "(if %s == %d { %s } else { %s })" % (base.code, j, x, code)
        return E(code, T.vtup(STR))

    def static_subscript(self, base, n):
        s = base.static
        if s[0] == "dyn" and isinstance(n.slice, ast.Constant) and type(n.slice.value) is int:
            cases = [self.static_elements(c, n) for c in s[1]]
            k = n.slice.value
            if any(c is None or not -len(c) <= k < len(c) for c in cases):
                self.fail(n, "subscript of a static value")
            return E(base.code, INT, None, ("dyn", [c[k] for c in cases]))
        if s[0] == "dictconst" or s[0] == "dictexpr":
            node = s[-1]
            save_mod = self.modname
            if s[0] == "dictconst":
                self.asm.note_const(s[1], s[2])
            key = self.expr(n.slice)
            keys, vals = [], []
            sc = self.scope
            if s[0] == "dictconst":
                self.modname, self.scope = s[1], {}
            for k, v in zip(node.keys, node.values):
                keys.append(self.expr(k))
                vals.append(self.expr(v))
            self.modname, self.scope = save_mod, sc
            conds = []
            for k in keys:
                if k.static is not None or key.static is not None:
                    conds.append(self.static_eq(key, k, n))
                else:
                    conds.append(self.equal(key, k, n))
            self.may_raise("KeyError", "!(%s)" % " || ".join(conds), "key lookup")
            if all(v.static is None for v in vals):
                code = vals[-1].code
                for c, v in list(zip(conds, vals))[-2::-1]:
                    code = "(if %s { %s } else { %s })" % (c, v.code, code)
                return E(code, vals[0].ty)
            code = "%dint" % (len(vals) - 1)
            for j in range(len(vals) - 2, -1, -1):
                code = "(if %s { %dint } else { %s })" % (conds[j], j, code)
            return E(code, INT, None, ("dyn", vals))
        els = self.static_elements(base, n)
        if els is not None and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            return els[n.slice.value]
        self.fail(n, "subscript of a static value")

    def class_of_struct(self, st):
        if not st.qual:
            return None
        mod, name = st.qual.rsplit(".", 1)
        return self.prog.mods[mod].classes.get(name) if mod in self.prog.mods else None

    def field(self, base, attr, node):
        t = find(base.ty)
        if not t.k.startswith("obj:"):
            self.fail(node, "attribute %s of %r" % (attr, t))
        st = self.reg.structs.get(t.k[4:])
        if st is None:
            self.fail(node, "attribute %s of %r" % (attr, t))
        if attr.startswith("__") and not attr.endswith("__") and self.cls is not None:
            attr = "_" + self.cls.name.lstrip("_") + attr
        for f in st.fields:
            if f[0] == attr:
                return st, f
        return st, None if False else self.fail(node, "attribute %s of %s" % (attr, st.name))

    def e_Attribute(self, n, want):
        base = self.expr(n.value)
        return self.attribute(base, n.attr, n)

    def attribute(self, base, attr, n):
        if base.static is not None:
            s = base.static
            if s[0] == "module":
                if s[1] in self.prog.mods:
                    return self.from_resolution(self.prog.resolve(s[1], attr) or self.fail(n, "attribute"), n)
                full = s[1] + "." + attr
                if full in EXT_CONST:
                    return E(self.asm.lit(EXT_CONST[full]), STR, extra={"lit": EXT_CONST[full]})
                return E("?", NONE, static=("ext", full))
            if s[0] == "class":
                m = self.prog.find_method(s[1], self.mangle_attr(attr))
                if m:
                    return E("?", NONE, static=("method", m[0], m[1].name, s[1]))
                m = self.prog.find_method(s[1], attr)
                if m:
                    return E("?", NONE, static=("method", m[0], attr, s[1]))
                c = self.prog.find_classconst(s[1], attr)
                if c:
                    return self.expr(c[1])
                self.fail(n, "class attribute %s" % attr)
            if s[0] == "dyn":
                return E(base.code, INT, None, ("dyn", [self.attribute(c, attr, n) for c in s[1]]))
            if s[0] == "builtin":
                return E("?", NONE, static=("ext", s[1] + "." + attr))
            if s[0] == "superobj":
                return E("?", NONE, static=("superbound", s[1], attr))
            if s[0] == "ext":
                return E("?", NONE, static=("ext", s[1] + "." + attr))
            self.fail(n, "attribute %s of static value" % attr)
        t = find(base.ty)
        if t.k.startswith("obj:") and t.k[4:] in self.reg.unions:
            return self.union_field(base, t.k[4:], attr, n)
        if t.k.startswith("obj:"):
            st = self.reg.structs.get(t.k[4:])
            if st is not None:
                a = attr
                if a.startswith("__") and not a.endswith("__") and self.cls is not None:
                    a = "_" + self.cls.name.lstrip("_") + a
                for f in st.fields:
                    if f[0] == a:
                        return E("%s.%s" % (base.code, f[1]), f[2],
                                 base.place.ext(("attr", f[1], st.name)) if base.place else None)
            return E("?", NONE, static=("bound", attr, base))
        if t.k == "opt":
            return self.attribute(self.coerce(base, t.a[0], n), attr, n)
        return E("?", NONE, static=("bound", attr, base))

    def union_field(self, base, name, attr, n):
        """an attribute of an object of one of several classes"""
        ms = self.reg.unions[name]
        got = [(m, f) for m in ms for f in self.reg.structs[m].fields if f[0] == attr]
        if not got or not all(T.same(f[2], got[0][1][2]) for _, f in got):
            self.fail(n, "attribute %s of %s" % (attr, name))
        without = [m for m in ms if m not in [x for x, _ in got]]
        if without:
            self.may_raise("AttributeError", " || ".join("%s is %s" % (base.code, m) for m in without), "no attribute %s" % attr)
        code = "%s->%s_0.%s" % (base.code, got[-1][0], got[-1][1][1])
        for m, f in reversed(got[:-1]):
            code = "if %s is %s { %s->%s_0.%s } else { %s }" % (base.code, m, base.code, m, f[1], code)
        return E("(%s)" % code if len(got) > 1 else code, got[0][1][2])

    def mangle_attr(self, attr):
        return attr

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, want):
        code, et, pl = self.comp(n.elt, n.generators, n)
        return E(code, T.lst(et), pl)

    def e_GeneratorExp(self, n, want):
        rd0 = len(self.read_roots)
        code, et, pl = self.comp(n.elt, n.generators, n)
        return self.lazily(E(code, T.gen(et), pl), set(self.read_roots[rd0:]))

    def lazily(self, e, roots):
        """an iterator: reads these variables when it is consumed"""
        if roots:
            e.extra = dict(genroots=roots, genmods=[], borrowed=False, lazy=True)
        return e

    @staticmethod
    def reads(*srcs):
        out = set()
        for e in srcs:
            if e.static is None and e.place is not None and T.mutable(e.ty):
                out.add(e.place.root)
            if isinstance(e.extra, dict):
                out |= e.extra.get("genroots", set())
        return out

    def e_SetComp(self, n, want):
        code, et, ordered = self.comp(n.elt, n.generators, n)
        return E("%s.to_set()" % code, T.seta(et))

    def e_DictComp(self, n, want):
        if len(n.generators) != 1 or n.generators[0].ifs:
            self.fail(n, "dict comprehension")
        g = n.generators[0]
        src = self.expr(g.iter)
        it, ety = self.comp_source(src, g.iter)
        sc = dict(self.scope)
        v = self.fresh("k")
        self.bind_pattern(g.target, E(v, ety))
        self.binders.append(("all", v, ety, it, None))
        k = self.expr(n.key)
        if k.code != v:
            self.fail(n, "dict comprehension key")
        val = self.expr(n.value)
        if val.place is not None and T.mutable(val.ty) and not val.place.root == v:
            self.fail(n, "dict comprehension shares a mutable value")
        self.binders.pop()
        self.scope = sc
        return E("Map::new(%s.to_set(), |%s: %s| %s)" % (it, v, rs(ety), val.code), T.dct(ety, val.ty))

    def comp_source(self, src, node):
        """Sequence over which a comprehension runs, usable under a binder."""
        x = src.extra if isinstance(src.extra, dict) else {}
        if src.static is not None:
            if src.static[0] == "dictconst":
                els = [self.expr(k) for k in src.static[2].keys if isinstance(k, ast.Constant)]
                if len(els) == len(src.static[2].keys) and all(e.static is None for e in els):
                    ts = [e.ty for e in els if find(e.ty).k != "none"]
                    t = ts[0] if len(ts) == len(els) else T.opt(ts[0])
                    return "seq![%s]" % ", ".join(self.coerce(e, t, node).code for e in els), t
            self.fail(node, "comprehension over static values")
        t = find(src.ty)
        if t.k in ("list", "vtuple", "gen"):
            if self.binders:
                self.drain(src, node)
                return src.code, t.a[0]
            code, et, _, _ = self.iter_seq(src, node)
            return code, et
        if self.binders and t.k in ("set", "fset", "bag", "dict"):
            self.fail(node, "set iteration in an inner comprehension")
        code, et, _, st = self.iter_seq(src, node)
        return code, et

    def bind_pattern(self, t, e):
        if isinstance(t, ast.Name):
            self.scope[t.id] = e
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.static_elements(e, t)
            if parts is None or len(parts) != len(t.elts):
                raise Unsupported("comprehension pattern")
            for x, p in zip(t.elts, parts):
                self.bind_pattern(x, p)
        else:
            raise Unsupported("comprehension pattern")

    def comp(self, elt, gens, node):
        """-> (sequence code, element type, where the elements live if they are existing objects)"""
        sc = dict(self.scope)
        nb = len(self.binders)
        if any(g.is_async for g in gens):
            self.fail(node, "async")
        # first iterable
        g0 = gens[0]
        src = self.expr(g0.iter)
        srcs = [src]
        it, ety = self.comp_source(src, g0.iter)
        gi, rd0 = 1, len(self.read_roots)
        modroots = {p.root for p, _ in (src.extra.get("genmods", []) if isinstance(src.extra, dict) else [])}
        pats = [(g0.target, ety)]
        # merge following generators whose source does not depend on the bound names: cartesian product
        names = {x.id for x in ast.walk(g0.target) if isinstance(x, ast.Name)}
        ifs = list(g0.ifs)
        nest = None
        prodty = [ety]
        its = [it]
        while gi < len(gens) and not ifs:
            g = gens[gi]
            used = {x.id for x in ast.walk(g.iter) if isinstance(x, ast.Name)}
            if used & names:
                break
            s2 = self.expr(g.iter)
            srcs.append(s2)
            it2, e2 = self.comp_source(s2, g.iter)
            its.append(it2)
            prodty.append(e2)
            pats.append((g.target, e2))
            names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            ifs += g.ifs
            gi += 1
        if len(its) == 1:
            seq, sty = its[0], prodty[0]
        elif len(its) == 2:
            seq, sty = "prod(%s, %s)" % tuple(its), T.tup(*prodty)
        elif len(its) == 3:
            seq, sty = "prod3(%s, %s, %s)" % tuple(its), T.tup(*prodty)
        else:
            self.fail(node, "comprehension over many sources")
        v = self.fresh("x")
        ve = E(v, sty, Place(v, (), True) if T.mutable(sty) else None)
        self.pairs[v] = sty

        def source(pl):
            """an element of type sty lives there -> where in the sources"""
            if pl is None or pl.root != v:
                return pl
            ps = [x.place.parts() for x in srcs if x.place is not None]
            if len(ps) > 1:
                self.fail(node, "elements of several objects")
            return ps[0] if ps else None
        self.binders.append(("all", v, sty, seq, None))
        if len(its) == 1:
            self.bind_pattern(pats[0][0], ve)
        else:
            for i, (p, t) in enumerate(pats):
                self.bind_pattern(p, E("%s.%d" % (v, i), t, Place(v, (), True) if T.mutable(t) else None))
        conds = []
        for c in ifs:
            x = self.cond(c)
            conds.append(x)
            self.binders.append(("guard", x))
        if gi < len(gens):
            inner, et, pl = self.comp(elt, gens[gi:], node)
            if modroots & set(self.read_roots[rd0:]):
                self.fail(node, "reads what the running generator modifies")
            del self.binders[nb:]
            self.scope = sc
            pred = " && ".join(conds) if conds else "true"
            code = "flat(%s, |%s: %s| if %s { %s } else { Seq::empty() })" % (seq, v, rs(sty), pred, inner)
            return code, et, source(pl)
        e = self.expr(elt)
        if modroots & set(self.read_roots[rd0:]):
            self.fail(node, "reads what the running generator modifies")
        if e.static is not None:
            self.fail(node, "comprehension of static values")
        pl = e.place if T.mutable(e.ty) else None
        if pl is not None and pl.root not in bound_names(self):
            self.fail(node, "comprehension shares a mutable value")
        del self.binders[nb:]
        self.scope = sc
        if not conds and e.code == v:
            return seq, e.ty, source(pl)
        if not conds:
            code = "comp(%s, |%s: %s| true, |%s: %s| %s)" % (seq, v, rs(sty), v, rs(sty), e.code)
        else:
            code = "comp(%s, |%s: %s| %s, |%s: %s| %s)" % (
                seq, v, rs(sty), " && ".join(conds), v, rs(sty), e.code)
        return code, e.ty, source(pl)

    # ------------------------------------------------------------------ calls
    def e_Yield(self, n, want):
        self.fail(n, "yield as an expression")

    def eval_args(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                e = self.expr(a.value)
                els = self.static_elements(e, n)
                if els is None and e.static is None and find(e.ty).k == "tuple":
                    els = [E("%s.%d" % (e.code, i), x, e.place.ext(("tup", i)) if e.place else None) for i, x in enumerate(find(e.ty).a)]
                if els is None:
                    args.append(("star", e))
                else:
                    args.extend(els)
                    for x in els:
                        self.pending(x)
            else:
                args.append(self.expr(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                self.fail(n, "** argument")
            kw[k.arg] = self.expr(k.value)
        return args, kw

    def e_Call(self, n, want):
        f = n.func
        # constructs that need unevaluated arguments
        if isinstance(f, ast.Name) and f.id not in self.scope:
            r = self.prog.resolve(self.modname, f.id)
            if r is None and f.id in BUILTINS:
                return self.builtin(f.id, n, want)
            if r is not None and r[0] == "ext":
                return self.external(r[1], n, want)
        fe = self.expr(f)
        return self.call_value(fe, n, want)

    def call_value(self, fe, n, want):
        s = fe.static
        if s is None:
            if find(fe.ty).k == "obj:Unit":
                return self.call_unit(fe, n)
            if find(fe.ty).k == "obj:Sink":
                args, kw = self.eval_args(n)
                return self.call_sink(fe, args, n)
            if find(fe.ty).k == "obj:FuncTag":
                return self.call_functag(fe, n)
            if find(fe.ty).k == "obj:Cls":
                args, kw = self.eval_args(n)
                return self.construct_dyn(fe, args, kw, n)
            if find(fe.ty).k == "obj:Func" and "virtual.Func.__call__" in self.reg.fns:
                return self.call_func(fe, n)
            if find(fe.ty).k.startswith("obj:"):
                args, kw = self.eval_args(n)
                return self.method_call(fe, "__call__", args, kw, n)
            self.fail(n, "call of a value of type %r" % find(fe.ty))
        if s[0] == "func":
            args, kw = self.eval_args(n)
            return self.call_function(s[1] + "." + s[2].name, s[2], args, kw, n)
        if s[0] == "method":
            args, kw = self.eval_args(n)
            node = s[1].methods[s[2]]
            deco = [ast.unparse(d) for d in node.decorator_list]
            q = "%s.%s.%s" % (s[1].module, s[1].name, s[2])
            if "classmethod" in deco:
                return self.call_function(q, node, [E("?", NONE, static=("class", s[3]))] + args, kw, n, cls=s[1])
            return self.call_function(q, node, args, kw, n, cls=s[1])
        if s[0] == "bound":
            base = s[2]
            if base.static is None and not find(base.ty).k.startswith("obj:"):
                return self.builtin_method(base, s[1], n, want)
            args, kw = self.eval_args(n)
            return self.method_call(base, s[1], args, kw, n)
        if s[0] == "class":
            args, kw = self.eval_args(n)
            return self.construct(s[1], args, kw, n)
        if s[0] == "lambda":
            args, kw = self.eval_args(n)
            return self.call_lambda(s, args, kw, n)
        if s[0] == "ext":
            return self.external(s[1], n, want)
        if s[0] == "builtin":
            return self.builtin(s[1], n, want)
        if s[0] == "dyn":
            return self.call_dyn(fe, n, want)
        if s[0] == "superbound":
            args, kw = self.eval_args(n)
            bs = self.prog.base_classes(s[1])
            if len(bs) == 1 and bs[0] is None or not bs:
                if s[2] == "__init__":
                    return E("()", NONE)
                self.fail(n, "super method")
            m = self.prog.find_method(bs[0], s[2])
            if not m:
                self.fail(n, "super method")
            q = "%s.%s.%s" % (m[0].module, m[0].name, s[2])
            pc = self.reg.fns.get(q)
            if s[2] == "__init__" and self.c.ctor and pc is not None and pc.ctor:
                r = self.call_function(q, m[1], args, kw, n, cls=m[0], ctor=True)
                self.write(self.scope["self"].place, r.code, n)
                return E("()", NONE)
            return self.call_function(q, m[1], [self.scope["self"]] + args, kw, n, cls=m[0])
        self.fail(n, "call of %s" % s[0])

    def call_func(self, fe, n):
        """a function value is called with arguments that are only known as objects: see virtual.Func.__call__"""
        c = self.reg.fns["virtual.Func.__call__"]
        op = T.parse("Opaque", [])
        shell = self.scope.get("self")
        if shell is None or find(shell.ty).k != "obj:Shell" or shell.place is None:
            self.fail(n, "call of a function value outside the shell")
        code = "Seq::<Opaque>::empty()"
        for a in n.args:
            if isinstance(a, ast.Starred):
                e = self.expr(a.value)
                if find(e.ty).k not in ("list", "vtuple"):
                    self.fail(n, "starred argument")
                unify(find(e.ty).a[0], op)
                code = "%s.add(%s)" % (code, e.code) if code != "Seq::<Opaque>::empty()" else e.code
            else:
                code = "%s.push(%s)" % (code, self.coerce(self.expr(a), op, n).code)
        if len(n.keywords) == 1 and n.keywords[0].arg is None:
            kw = self.expr(n.keywords[0].value)
            if find(kw.ty).k != "obj:Opaque":
                self.fail(n, "keyword arguments")
        elif not n.keywords:
            kw = E("opaque_of(Map::<Seq<char>, Opaque>::empty())", op)
        else:
            self.fail(n, "keyword arguments")
        for root, at in self.handles:
            if any(m.lstrip("=") == root for m in self.mut_events[at:]):
                self.fail(n, "%s changes between the reference and the call" % root)
        return self.emit_call(c, [("self", fe), ("shell", shell), ("args", E(code, T.vtup(op))), ("kwargs", kw)], n)

    def call_lambda(self, s, args, kw, n):
        lam, sc0 = s[1], s[2]
        names = [a.arg for a in lam.args.args]
        if kw or len(args) != len(names) or lam.args.vararg or lam.args.defaults:
            self.fail(n, "lambda call")
        sc = self.scope
        self.scope = dict(sc0)
        for nm, a in zip(names, args):
            self.scope[nm] = a
            self.gen_arg(lam, nm, a, n)
        r = self.expr(lam.body)
        self.scope = sc
        return r

    def call_dyn(self, fe, n, want):
        """Dispatch over finitely many statically known callables."""
        cases = fe.static[1]
        args, kw = self.eval_args(n)
        if self.binders:
            self.fail(n, "dynamic dispatch under a binder")
        kinds = {c.static[0] for c in cases if c.static}
        if kinds == {"bound"} and all(find(c.static[2].ty).k.startswith("obj:") for c in cases):
            names = [c.static[1] for c in cases]
        res = None
        resvar = None
        igens = []
        depth = 0
        for j, c in enumerate(cases):
            if j < len(cases) - 1:
                self.emit("if test(Ghost(%s == %d)) {" % (fe.code, j))
                self.ind += 1
            else:
                pass
            r = self.apply_static(c, args, kw, n)
            if r.static is not None and r.static[0] == "igen":
                igens.append(("(%s == %d)" % (fe.code, j), r))
                if j < len(cases) - 1:
                    self.ind -= 1
                    self.emit("} else {")
                    self.ind += 1
                    depth += 1
                continue
            if r.static is not None or igens:
                self.mixed(n)
            if resvar is None:
                t = find(r.ty)
                if t.k == "gen":
                    t = T.lst(t.a[0])
                resvar = self.newlocal("d", t)
                res = r
            rr = r
            unify(self.locals[resvar], T.lst(find(r.ty).a[0]) if find(r.ty).k == "gen" else r.ty)
            self.emit("proof { %s = %s; }" % (resvar, rr.code))
            if j < len(cases) - 1:
                self.ind -= 1
                self.emit("} else {")
                self.ind += 1
                depth += 1
        for _ in range(depth):
            self.ind -= 1
            self.emit("}")
        if igens:
            if resvar is not None:
                self.mixed(n)
            return E("?", NONE, static=("igens", igens))
        if find(res.ty).k == "none":
            return E("()", NONE)
        return E(resvar, res.ty, None, None, res.extra)

    def mixed(self, n):
        """Some cases of a dispatch were taken as lists, others as running generators: take them all as running ones."""
        if self.iter_of is None or id(self.iter_of) in self.live_loops:
            self.fail(n, "dynamic dispatch to static result")
        self.live_loops.add(id(self.iter_of))
        raise Restart

    def apply_static(self, c, args, kw, n):
        s = c.static
        if s is None:
            self.fail(n, "call of a non-function")
        if s[0] == "bound":
            return self.method_call(s[2], s[1], args, kw, n)
        if s[0] == "func":
            return self.call_function(s[1] + "." + s[2].name, s[2], args, kw, n)
        if s[0] == "lambda":
            return self.call_lambda(s, args, kw, n)
        if s[0] == "method":
            node = s[1].methods[s[2]]
            q = "%s.%s.%s" % (s[1].module, s[1].name, s[2])
            if any(ast.unparse(d) == "classmethod" for d in node.decorator_list):
                args = [E("?", NONE, static=("class", s[3]))] + args
            return self.call_function(q, node, args, kw, n, cls=s[1])
        if s[0] == "class":
            return self.construct(s[1], args, kw, n)
        self.fail(n, "dispatch to %s" % s[0])

    def call_unit(self, fe, n):
        """A bound geometry method received as a parameter (tag 0 row, 1 column, 2 box)."""
        sud = self.scope.get("sudoku")
        if sud is None:
            self.fail(n, "unit function without sudoku")
        cases = [E("?", NONE, static=("bound", m, sud)) for m in ("row_of", "column_of", "box_of")]
        return self.call_dyn(E("%s.tag" % fe.code, INT, None, ("dyn", cases)), n, None)

    def call_functag(self, fe, n):
        self.asm.note("action dispatch")
        r = self.prog.resolve(self.modname, "Sudoku")
        cases = []
        for m in ("set_number", "set_candidates", "remove_candidates"):
            cases.append(self.attribute(E("?", NONE, static=("class", r[1])), m, n))
        return self.call_dyn(E("%s.tag" % fe.code, INT, None, ("dyn", cases)), n, None)

    def call_sink(self, fe, args, n):
        if len(args) != 1 or fe.place is None:
            self.fail(n, "callback call")
        st = self.reg.structs["Sink"]
        self.write(fe.place.ext(("attr", "items", "Sink")), "%s.items.push(%s)" % (fe.code, args[0].code), n)
        return E("()", NONE)

    def construct(self, ci, args, kw, n):
        m = self.prog.find_method(ci, "__init__")
        st = self.reg.struct_for_class("%s.%s" % (ci.module, ci.name))
        if m is None and st is not None:
            # namedtuple-like: positional fields
            vals = list(args) + [None] * (len(st.fields) - len(args))
            for i, f in enumerate(st.fields):
                if f[0] in kw:
                    vals[i] = kw[f[0]]
            if any(v is None for v in vals) or len(vals) != len(st.fields):
                self.fail(n, "constructor arguments of %s" % ci.name)
            self.check_namedtuple(ci, st, n)
            vals = [self.coerce(v, f[2], n) for v, f in zip(vals, st.fields)]
            return E("%s { %s }" % (st.name, ", ".join("%s: %s" % (f[1], v.code) for f, v in zip(st.fields, vals))),
                     T.obj(st.name))
        if m is None:
            self.fail(n, "constructor of %s" % ci.name)
        q = "%s.%s.__init__" % (m[0].module, m[0].name)
        return self.call_function(q, m[1], args, kw, n, cls=m[0], ctor=True)

    def check_namedtuple(self, ci, st, n):
        node = ci.node
        ok = False
        bases = ci.bases
        for b in bases:
            if isinstance(b, ast.Call) and ast.unparse(b.func) == "namedtuple" and len(b.args) == 2:
                try:
                    f = ast.literal_eval(b.args[1])
                except ValueError:
                    f = None
                if isinstance(f, str):
                    f = f.replace(",", " ").split()
                ok = f is not None and list(f) == [x[0] for x in st.fields]
        if not ok or ci.methods:
            self.fail(n, "%s is not the expected named tuple" % ci.name)

    def construct_dyn(self, fe, args, kw, n):
        """cls(...) inside a classmethod: the constructor of the declaring class (checked not overridden)."""
        ci = self.cls
        m = self.prog.find_method(ci, "__init__")
        for other in self.prog.mods[ci.module].classes.values():
            if ci in self.prog.mro(other) and other is not ci:
                if self.prog.find_method(other, "__init__")[1] is not m[1]:
                    self.fail(n, "constructor overridden in %s" % other.name)
        q = "%s.%s.__init__" % (m[0].module, m[0].name)
        r = self.call_function(q, m[1], args, kw, n, cls=m[0], ctor=True)
        st = self.reg.structs[find(r.ty).k[4:]]
        if any(f[1] == "cls" for f in st.fields):
            return E("%s { cls: %s, ..%s }" % (st.name, fe.code, r.code), r.ty)
        return r

    def dispatch(self, base, tag, name, args, kw, node):
        """Method of an object (or class) whose class is known by its tag only: one case per implementation."""
        if self.binders:
            self.fail(node, "dynamic dispatch under a binder")
        cls = t_is_cls = find(base.ty).k == "obj:Cls"
        groups = []
        for q, tg in self.reg.class_tags.items():
            mod, nm = q.rsplit(".", 1)
            ci = self.prog.mods[mod].classes.get(nm)
            if ci is None:
                self.fail(node, "class %s not found" % q)
            m = self.prog.find_method(ci, name)
            if m is None:
                continue
            for g in groups:
                if g[0][1] is m[1]:
                    g[1].append(tg)
                    break
            else:
                groups.append((m, [tg]))
        cases = []
        abstract = []
        for m, tgs in groups:
            cond = "(" + " || ".join("%s == %d" % (tag, x) for x in tgs) + ")"
            body = self.strip_doc(m[1].body)
            if len(body) == 1 and isinstance(body[0], ast.Raise):
                abstract.append(cond)
                continue
            cases.append((cond, m))
        if not cases:
            self.fail(node, "no implementation of %s" % name)
        self.oblige(" || ".join(c for c, _ in cases), "%s is implemented" % name)

        def call(m):
            deco = [ast.unparse(d) for d in m[1].decorator_list]
            q = "%s.%s.%s" % (m[0].module, m[0].name, m[1].name)
            if ("classmethod" in deco) != cls or "staticmethod" in deco:
                self.fail(node, "%s is a class method in some classes only" % name)
            return self.call_function(q, m[1], [base] + args, kw, node, cls=m[0])
        qs = ["%s.%s.%s" % (m[0].module, m[0].name, m[1].name) for _, m in cases]
        if any(self.interfering(q) is not None for q in qs):
            return E("?", NONE, static=("igens", [(c, call(m)) for c, m in cases]))
        if len(cases) == 1:
            return call(cases[0][1])
        res = None
        for j, (c, m) in enumerate(cases):
            if j < len(cases) - 1:
                self.emit("if test(Ghost(%s)) {" % c)
                self.ind += 1
            r = call(m)
            if r.static is not None:
                self.fail(node, "dynamic dispatch to static result")
            if find(r.ty).k != "none":
                if res is None:
                    res = self.newlocal("d", r.ty)
                unify(self.locals[res], r.ty)
                self.emit("proof { %s = %s; }" % (res, r.code))
            if j < len(cases) - 1:
                self.ind -= 1
                self.emit("} else {")
                self.ind += 1
        for _ in range(len(cases) - 1):
            self.ind -= 1
            self.emit("}")
        return E(res, self.locals[res]) if res is not None else E("()", NONE)

    def union_call(self, base, name, args, kw, node):
        """A method of an object of one of several classes"""
        u = find(base.ty).k[4:]
        b = self.newlocal("un", base.ty)
        self.emit("proof { %s = %s; }" % (b, base.code))
        ms, res = self.reg.unions[u], None
        for j, m in enumerate(ms):
            if j < len(ms) - 1:
                self.emit("if test(Ghost((%s is %s))) {" % (b, m))
                self.ind += 1
            r = self.method_call(E("%s->%s_0" % (b, m), T.obj(m)), name, args, kw, node)
            if r.static is not None:
                self.fail(node, "dynamic dispatch to static result")
            if find(r.ty).k != "none":
                if res is None:
                    res = self.newlocal("d", r.ty)
                unify(self.locals[res], r.ty)
                self.emit("proof { %s = %s; }" % (res, r.code))
            if j < len(ms) - 1:
                self.ind -= 1
                self.emit("} else {")
                self.ind += 1
        for _ in range(len(ms) - 1):
            self.ind -= 1
            self.emit("}")
        return E(res, self.locals[res]) if res is not None else E("()", NONE)

    def interfering(self, qual):
        """The contract of a generator that others may interfere with while it is suspended, if it applies here."""
        if qual in self.c.uses:
            return None
        c = self.reg.fns.get(qual)
        l = self.reg.fns.get(qual + "@live")
        if l is not None and (c is None or self.live_call):
            return l
        return None

    def make_igen(self, c, fnode, args, kw, node):
        bound = self.bind_args(fnode, args, kw, node)
        if [p for p, _ in bound] != [n for n, _ in c.params]:
            self.fail(node, "call of %s: parameters differ from the contract" % c.qual)
        vals = []
        for (p, v), (_, t) in zip(bound, c.params):
            if isinstance(v, tuple):
                self.fail(node, "default argument of an interfering generator")
            v = self.coerce(v, t, node)
            if p == c.interfere["param"]:
                if v.place is None:
                    self.fail(node, "interfering generator over a temporary")
            else:
                n = self.newlocal("ga", t)
                self.emit("proof { %s = %s; }" % (n, v.code))
                v = E(n, t, v.place if T.mutable(t) else None)
            vals.append((p, v))
        if any(find(t).k == "obj:Unit" for _, t in c.params):
            sud = dict(vals).get("sudoku")
            if sud is None or sud.place is None or sud.place.steps or "sudoku" not in self.scope or sud.place.root != self.scope["sudoku"].place.root:
                self.fail(node, "a geometry method together with another sudoku")
        ga = dict(self.c.ghost_args.get(c.qual.split(".")[-1], {}))
        gh = []
        for g, gt in c.ghosts:
            if g not in ga and g in {x for x, _ in self.c.ghosts}:
                ga[g] = g  # handed on
            if g not in ga:
                self.fail(node, "no ghost argument %s for %s" % (g, c.qual))
            n = self.fresh("gg")
            self.rawlocals[n] = gt
            self.emit("proof { %s = %s; }" % (n, self.spec(ga[g])))
            gh.append((g, n))
        self.callees.add(c.key)
        return E("?", NONE, static=("igen", c, vals, gh))

    def method_call(self, base, name, args, kw, node):
        t = find(base.ty)
        if t.k == "obj:Cls":
            if name.startswith("__") and not name.endswith("__"):
                m = self.cls.methods.get(name) if self.cls is not None else None
                if m is None:
                    self.fail(node, "private method %s" % name)
                return self.call_function("%s.%s.%s" % (self.cls.module, self.cls.name, name), m, [base] + args, kw, node, cls=self.cls)
            return self.dispatch(base, "%s.tag" % base.code, name, args, kw, node)
        if t.k[4:] in self.reg.unions:
            return self.union_call(base, name, args, kw, node)
        st = self.reg.structs.get(t.k[4:])
        if st is None:
            self.fail(node, "method %s of %r" % (name, t))
        virt = self.reg.fns.get("virtual.%s.%s" % (st.name, name))
        ci = self.class_of_struct(st)
        if virt is not None:
            return self.call_contract(virt, [n_ for n_, _ in virt.params], {}, None, [base] + args, kw, node)
        if ci is None:
            self.fail(node, "method %s of %s" % (name, st.name))
        nm = name
        if "%s.%s" % (ci.module, ci.name) in self.reg.class_tags:
            return self.dispatch(base, "%s.cls.tag" % base.code, name, args, kw, node)
        m = self.prog.find_method(ci, nm)
        if m is None:
            self.fail(node, "no method %s in %s" % (name, ci.name))
        deco = [ast.unparse(d) for d in m[1].decorator_list]
        q = "%s.%s.%s" % (m[0].module, m[0].name, nm)
        if "staticmethod" in deco:
            return self.call_function(q, m[1], args, kw, node, cls=m[0])
        if "classmethod" in deco:
            return self.call_function(q, m[1], [E("?", NONE, static=("class", ci))] + args, kw, node, cls=m[0])
        return self.call_function(q, m[1], [base] + args, kw, node, cls=m[0])

    def bind_args(self, fnode, args, kw, node, skip_self=False):
        """-> {param: E or ('default', ast)}"""
        a = fnode.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip_self:
            pos = pos[1:]
        out = {}
        rest = []
        args = list(args)
        for i, v in enumerate(args):
            if isinstance(v, tuple) and v[0] == "star":
                if a.vararg and i == len(pos):
                    out[a.vararg.arg] = v[1]
                    args = args[:i]
                    break
                self.fail(node, "starred argument")
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            self.fail(node, "too many arguments")
        if a.vararg and a.vararg.arg not in out:
            if rest:
                out[a.vararg.arg] = ("pack", rest)
            else:
                out[a.vararg.arg] = ("pack", [])
        for k, v in kw.items():
            if k in out or k not in pos + [x.arg for x in a.kwonlyargs]:
                self.fail(node, "keyword argument %s" % k)
            out[k] = v
        nd = len(a.defaults)
        allpos = [x.arg for x in a.posonlyargs + a.args]
        for nm, d in zip(allpos[len(allpos) - nd:], a.defaults):
            if nm not in out and not (skip_self and nm == allpos[0]):
                out[nm] = ("default", d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = ("default", d)
        order = pos + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs]
        for p in order:
            if p not in out:
                self.fail(node, "missing argument %s" % p)
        return [(p, out[p]) for p in order]

    def call_function(self, qual, fnode, args, kw, node, cls=None, ctor=False):
        c = self.reg.fns.get(self.c.uses.get(qual, qual))
        l = self.interfering(qual)
        if l is not None:
            return self.make_igen(l, fnode, args, kw, node)
        if c is None:
            return self.inline(qual, fnode, args, kw, node, cls, ctor)
        bound = self.bind_args(fnode, args, kw, node, skip_self=ctor)
        names = [p for p, _ in bound]
        if names != [n for n, _ in c.params]:
            self.fail(node, "call of %s: parameters differ from the contract" % qual)
        vals = []
        for (p, v), (_, t) in zip(bound, c.params):
            if isinstance(v, tuple):
                if v[0] == "default":
                    v = self.default_value(v[1], t, qual, node)
                else:
                    pk = find(t)
                    code = "Seq::<%s>::empty()" % rs(pk.a[0])
                    for x in v[1]:
                        code += ".push(%s)" % self.coerce(x, pk.a[0], node).code
                    v = E(code, T.vtup(pk.a[0]))
            vals.append((p, self.coerce(v, self.inst(t, c), node)))
        return self.emit_call(c, vals, node)

    def default_value(self, d, t, qual, node):
        if isinstance(d, ast.Lambda) and find(t).k == "obj:Sink":
            return E("Sink { items: Seq::empty() }", t)
        sc, self.scope = self.scope, {}
        e = self.expr(d, want=t)
        self.scope = sc
        return e

    def inst(self, t, c):
        """Instantiate generic parameters with fresh type variables (per call)."""
        if not c.generics:
            return t
        key = id(c), self.ncall
        if getattr(self, "_inst_key", None) != key:
            self._inst_key, self._inst = key, {}

        def go(x):
            x = find(x)
            if x.k.startswith("gen:") and x.k[4:] in c.generics:
                return self._inst.setdefault(x.k[4:], T.tv())
            if not x.a:
                return x
            return T.Ty(x.k, *[go(y) for y in x.a])
        return go(t)

    def call_contract(self, c, names, bound, fnode, args, kw, node):
        vals = []
        for (p, t), v in zip(c.params, args):
            vals.append((p, self.coerce(v, t, node)))
        return self.emit_call(c, vals, node)

    def emit_call(self, c, vals, node):
        self.callees.add(c.key)
        roots = set()
        for p, v in vals:
            if v.place is not None:
                roots.add(v.place.root)
                self.read_roots.append(v.place.root)
        rty = self.inst(c.returns, c) if not c.ctor else T.obj(self.reg.struct_for_class(c.ctor).name)
        mp = {mangle(p): "(%s)" % v.code if not v.code.isidentifier() else v.code for p, v in vals}
        mp["self"] = mp.get("self_", mp.get("self", "self"))
        if c.pure is not None:
            for nm, r in c.requires.items():
                self.oblige(subst(r, mp), "%s requires %s" % (short(c.qual), nm))
            for exc, cd in c.raises.items():
                self.may_raise(exc, "(%s)" % subst(cd, mp), "%s raises" % short(c.qual))
            return E("(%s)" % subst(c.pure, mp), rty)
        if self.binders:
            return self.call_family(c, vals, rty, mp, node)
        self.used([v for _, v in vals])
        self.hook("call:" + c.qual.split(".")[-1], mp)
        gargs = []
        ga = dict(self.c.ghost_args.get(c.qual.split(".")[-1], {}))
        for g, gt in c.ghosts:
            if g not in ga and g in {x for x, _ in self.c.ghosts}:
                ga[g] = g  # handed on
            if g not in ga:
                self.fail(node, "no ghost argument %s for %s" % (g, c.qual))
            gargs.append(self.spec(ga[g]))
        self.ncall += 1
        r = "call__%d" % self.ncall
        self.emit("let %s = %s(%s);" % (r, c.rust, ", ".join("Ghost((%s))" % a for a in [v.code for _, v in vals] + gargs)),
                  self.lab("call %s" % short(c.qual)))
        idx = 1
        genmods = []
        byname = dict(vals)
        for m in c.modifies:
            v = byname[m]
            comp = "%s@.%d" % (r, idx)
            idx += 1
            if c.is_gen:
                if v.place is not None:
                    genmods.append((v.place, comp))
                continue
            if v.place is None:
                continue          # a temporary: the effect is unobservable
            if isinstance(v.extra, dict) and v.extra.get("sink"):
                # the list holds the reported objects themselves, which may have changed since: only their class is known
                a = self.call_raw("any_value", [], T.lst(find(self.reg.structs["Sink"].fields[0][2]).a[0]))
                self.emit("assume(sunk(%s.items, %s@));" % (comp, a))
                self.asm.note("reported objects")
                self.write(v.place, "%s@" % a, node)
                continue
            self.write(v.place, comp, node)
        for exc in c.raises:
            how = self.catches(exc)
            if how is None:
                self.oblige("%s@.%d != %d" % (r, idx, self_exc(exc)), "no %s from %s" % (exc, short(c.qual)))
            else:
                self.may_raise(exc, "%s@.%d == %d" % (r, idx, self_exc(exc)), "raised by %s" % short(c.qual))
        code = "%s@.0" % r
        extra = None
        if c.is_gen:
            gr = set()
            if c.lazy != "immutable":
                gr = {v.place.root for _, v in vals if v.place is not None and T.mutable(v.ty)}
            extra = dict(genroots=gr, genmods=genmods, borrowed=c.borrowed)
        res = E(code, rty, None, None, extra)
        if c.returns_alias:
            # the result may alias an argument
            for p in c.returns_alias:
                if byname[p].place is not None:
                    res.place = Place(byname[p].place.root)
        self.hook("aftercall:" + c.qual.split(".")[-1], dict(mp, result=code))
        return res

    def call_family(self, c, vals, rty, mp, node):
        """The call happens once for every value of the bound variables (or only if the guards hold): one result per
        value, each satisfying the callee's postconditions; the preconditions are obligations for every value."""
        if c.modifies or c.raises or c.ghosts or c.returns_alias or c.random or c.virtual:
            self.fail(node, "call of %s (no pure contract) inside a comprehension or condition" % short(c.qual))
        for nm, r in c.requires.items():
            self.oblige(subst(r, mp), "%s requires %s" % (short(c.qual), nm))
        vs = [(b[1], b[2]) for b in self.binders if b[0] != "guard"]
        self.ncall += 1
        r = "call__%d" % self.ncall
        if vs:
            arg = vs[0][0] if len(vs) == 1 else "(%s)" % ", ".join(v for v, _ in vs)
            aty = rs(vs[0][1]) if len(vs) == 1 else "(%s)" % ", ".join(rs(t) for _, t in vs)
            self.emit("let %s: Ghost<spec_fn(%s) -> %s> = any_value();" % (r, aty, rs(rty)))
            code = "app(%s@, %s)" % (r, arg)
        else:
            self.emit("let %s: Ghost<%s> = any_value();" % (r, rs(rty)))
            code = "%s@" % r
        for nm, e in c.ensures.items():
            t = subst(re.sub(r"\bold\((\w+)\)", r"\1", e), dict(mp, result=code))
            self.emit("assume(%s);" % self.wrap(t), self.lab("call %s" % short(c.qual)))
        extra = dict(genroots=set(), genmods=[], borrowed=c.borrowed) if c.is_gen else None
        return E(code, rty, None, None, extra)

    # ------------------------------------------------------------------ inlining of helpers without contract
    def inline(self, qual, fnode, args, kw, node, cls, ctor):
        if qual in self.inline_stack or len(self.inline_stack) > 6:
            self.fail(node, "recursive helper %s without contract" % qual)
        if ctor:
            self.fail(node, "constructor %s has no contract" % qual)
        if self.trusted_external(qual):
            self.fail(node, "no contract for %s" % qual)
        for d in fnode.decorator_list:
            if ast.unparse(d) not in ("staticmethod", "classmethod"):
                self.fail(node, "decorator on %s" % qual)
        self.check_params(fnode)
        bound = self.bind_args(fnode, args, kw, node)
        body = self.strip_doc(fnode.body)
        modname = ".".join(qual.split(".")[:-1]) if cls is None else cls.module
        # pure expression helper: usable under binders too
        if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and not has_yield_(fnode):
            sc, mod, cl = self.scope, self.modname, self.cls
            newscope = {}
            for p, v in bound:
                if isinstance(v, tuple):
                    if v[0] == "default":
                        v = self.default_value(v[1], T.tv(), qual, node)
                    else:
                        self.fail(node, "*args of %s" % qual)
                newscope[p] = v
                self.gen_arg(fnode, p, v, node)
            self.scope, self.modname, self.cls = newscope, modname, cls
            self.outer.append(dict(scope=sc, modname=mod, cls=cl, ret=self.s_Return, sizes=(len(self.inline_stack), len(self.fn_nodes), len(self.inline_ret))))
            self.inline_stack.append(qual)
            self.fn_nodes.append(fnode)
            r = self.expr(body[0].value)
            self.fn_nodes.pop()
            self.inline_stack.pop()
            self.outer.pop()
            self.scope, self.modname, self.cls = sc, mod, cl
            return r
        if self.binders:
            self.fail(node, "call of %s (no contract) inside a comprehension or condition" % qual)
        if has_yield_(fnode):
            return self.inline_generator(qual, fnode, bound, node, modname, cls)
        return self.inline_body(qual, fnode, bound, node, modname, cls, body)

    def gen_arg(self, fnode, p, v, node):
        if v.static is not None and v.static[0] in ("igen", "igens"):
            why = lazy.problem(fnode, p, False)
        elif v.static is None and find(v.ty).k == "gen":
            why = lazy.problem(fnode, p, v.place is not None and v.place.root + "__pos" in self.locals)
        else:
            return
        if why:
            self.fail(node, why)

    def inline_body(self, qual, fnode, bound, node, modname, cls, body):
        body = normalise_tail(body, self.collect_nest)
        if body is None:
            self.fail(node, "helper %s returns from a loop" % qual)
        sc, mod, cl = self.scope, self.modname, self.cls
        newscope = {}
        stored = {x.id for x in ast.walk(fnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        pend = []
        for p, v in bound:
            if isinstance(v, tuple):
                if v[0] == "default":
                    v = self.default_value(v[1], T.tv(), qual, node)
                else:
                    self.fail(node, "*args of %s" % qual)
            self.gen_arg(fnode, p, v, node)
            if p in stored and v.static is None:
                if find(v.ty).k == "gen":
                    self.fail(node, "the generator parameter %s is bound again" % p)
                pend.append((p, v))
            else:
                newscope[p] = v
        self.scope, self.modname, self.cls = newscope, modname, cls
        self.outer.append(dict(scope=sc, modname=mod, cls=cl, ret=self.s_Return, sizes=(len(self.inline_stack), len(self.fn_nodes), len(self.inline_ret))))
        self.inline_stack.append(qual)
        self.fn_nodes.append(fnode)
        self.used([v for _, v in pend])
        args = [v for v in newscope.values() if v.static is None and not (v.place is not None and T.mutable(v.ty))]
        self.used(args)
        for p, v in pend:
            nm = self.newlocal(mangle(p), v.ty)
            self.emit("proof { %s = %s; }" % (nm, v.code))
            self.scope[p] = E(nm, v.ty, Place(nm))
        self.frames.append([])
        for v in args:
            self.lines.append(("", None))
            self.pending(v, len(self.lines) - 1)
        box = {"res": None, "var": None}
        saved = self.loops, self.trys
        self.loops = self.loops
        self.inline_ret.append(box)
        old_ret = self.s_Return
        self.s_Return = lambda s: self.inline_return(s, box)
        try:
            self.block_inline(body)
        finally:
            self.s_Return = old_ret
            if "s_Return" in self.__dict__ and len(self.inline_stack) == 2:
                del self.__dict__["s_Return"]
            self.frames.pop()
        self.inline_ret.pop()
        self.inline_stack.pop()
        self.fn_nodes.pop()
        self.outer.pop()
        self.scope, self.modname, self.cls = sc, mod, cl
        if box["res"] is None:
            return E("()", NONE)
        return box["res"]

    def inline_return(self, s, box):
        e = E("()", NONE) if s.value is None else self.expr(s.value)
        self.used([e])
        e = self.opaqued(e, s)
        if e.static is not None:
            if box["res"] is not None:
                self.fail(s, "helper returns several static values")
            box["res"] = e
            return False
        if box["var"] is None:
            t = find(e.ty)
            box["var"] = self.newlocal("h", T.tv() if t.k == "none" else e.ty)
            if t.k == "none":
                self.locals[box["var"]] = e.ty
        v = box["var"]
        if not T.same(self.locals[v], e.ty):
            self.fail(s, "helper returns values of different types")
        unify(self.locals[v], e.ty)
        self.emit("proof { %s = %s; }" % (v, e.code))
        if e.place is not None and T.mutable(e.ty) and not e.place.root.startswith("h__"):
            self.alias(v, e, s)
            self.mut_rebind(e.place.root) if e.place.root in self.locals and e.place.root not in [
                mangle(p) for p in self.param_ty] and not e.place.steps and not self.in_scope_outer(e.place.root) else None
        box["res"] = E(v, e.ty, Place(v), None, e.extra)
        return False

    def in_scope_outer(self, root):
        return False

    def inline_generator(self, qual, fnode, bound, node, modname, cls):
        self.fail(node, "generator %s has no contract" % qual)

    def trusted_external(self, qual):
        return False

    # ------------------------------------------------------------------ builtins
    def builtin(self, name, n, want):
        m = getattr(self, "b_" + name, None)
        if m is None:
            self.fail(n, "builtin %s" % name)
        return m(n, want)

    def plain_args(self, n, lo, hi=None, kws=()):
        args, kw = self.eval_args(n)
        hi = lo if hi is None else hi
        if not lo <= len(args) <= hi or any(isinstance(a, tuple) for a in args) or set(kw) - set(kws):
            self.fail(n, "arguments of %s" % ast.unparse(n.func))
        return (args, kw) if kws else args

    def b_len(self, n, want):
        e, = self.plain_args(n, 1)
        if e.static is not None:
            els = self.static_elements(e, n)
            if els is None:
                self.fail(n, "len")
            return E("%dint" % len(els), INT)
        t = find(e.ty)
        if t.k in ("list", "vtuple", "str", "set", "fset", "bag"):
            return E("(%s.len() as int)" % e.code, INT)
        if t.k in ("dict", "ddict"):
            self.check_fuzzy(e, n)
            return E("(%s.dom().len() as int)" % e.code, INT)
        if t.k.startswith("obj:"):
            return self.method_call(e, "__len__", [], {}, n)
        if t.k == "tuple":
            return E("%dint" % len(t.a), INT)
        if t.k == "gen":
            self.may_raise("TypeError", "true", "len of a generator")
            return E("arbitrary::<int>()", INT)
        self.fail(n, "len of %r" % t)

    def check_fuzzy(self, e, n):
        if e.place is not None and e.place.root in getattr(self, "fuzzy", set()):
            self.fail(n, "key set of a defaultdict after lookups in an expression")

    def b_range(self, n, want):
        a = [self.coerce(x, INT, n) for x in self.plain_args(n, 1, 3)]
        if len(a) == 3:
            if a[2].code in ("(-1int)",):
                return E("rev(irange(%s + 1, %s + 1))" % (a[1].code, a[0].code), T.vtup(INT))
            if a[2].code == "1int":
                return E("irange(%s, %s)" % (a[0].code, a[1].code), T.vtup(INT))
            self.oblige("%s > 0" % a[2].code, "range step")
            return E("irange_step(%s, %s, %s)" % tuple(x.code for x in a), T.vtup(INT))
        lo, hi = ("0int", a[0].code) if len(a) == 1 else (a[0].code, a[1].code)
        return E("irange(%s, %s)" % (lo, hi), T.vtup(INT))

    b___range__ = b_range

    def b___search__(self, n, want):
        if self.binders:
            self.fail(n, "search under a binder")
        gens, leaf, names = self.collect_nest(n.loop)
        test, x = self.search(gens, leaf, n.loop)
        for nm in names:
            self.scope[nm] = E("?", NONE, static=("conflict", nm))
        if x is not None:
            v = self.newlocal("found", x.ty)
            self.emit("proof { %s = %s; }" % (v, x.code))
            self.scope[n.found] = E(v, x.ty)
        return E("(%s)" % test, BOOL)

    def b___elements__(self, n, want):
        e = self.expr(n.args[0])
        if find(e.ty).k not in ("list", "vtuple", "str") and not (e.static is not None and e.static[0] == "tuple"):
            self.fail(n, "indexing a %r in a loop" % e.ty)
        return e

    def seq_of(self, e, n):
        """E -> (sequence code, element type) consuming iterators"""
        if e.static is None and find(e.ty).k in ("list", "vtuple") or self.binders:
            t = find(e.ty)
            self.drain(e, n)
            if t.k in ("list", "vtuple", "gen"):
                return e.code, t.a[0]
            if t.k == "str":
                return "chars_of(%s)" % e.code, STR
        code, et, _, st = self.iter_seq(e, n)
        if st is not None:
            self.fail(n, "sequence of static values")
        return code, et

    def b_list(self, n, want):
        args = self.plain_args(n, 0, 1)
        if not args:
            et = find(want).a[0] if want is not None and find(want).k == "list" else T.tv()
            return E("Seq::<%s>::empty()" % rs(et), T.lst(et))
        if args[0].static is not None and args[0].static[0] == "tuple":
            return args[0]
        code, et = self.seq_of(args[0], n)
        pl = within(args[0], et)
        return E(code, T.lst(et), pl)

    def b_tuple(self, n, want):
        args = self.plain_args(n, 0, 1)
        if not args:
            return E("Seq::<int>::empty()", T.vtup(T.tv()))
        if args[0].static is None and find(args[0].ty).k == "tuple":
            return args[0]
        if args[0].static is not None and args[0].static[0] == "tuple":
            return args[0]
        code, et = self.seq_of(args[0], n)
        return E(code, T.vtup(et), within(args[0], et))

    def set_like(self, n, want, ctor):
        args = self.plain_args(n, 0, 1)
        if not args:
            et = find(want).a[0] if want is not None and find(want).k in ("set", "fset", "bag") else T.tv()
            return E("Set::<%s>::empty()" % rs(et), ctor(et))
        e = args[0]
        t = find(e.ty)
        if t.k == "opt":
            e = self.coerce(e, t.a[0], n)
            t = find(e.ty)
        if t.k in ("set", "fset", "bag") and e.static is None:
            return E(e.code, ctor(t.a[0]))
        if t.k in ("dict", "ddict") and e.static is None:
            return E("%s.dom()" % e.code, ctor(t.a[0]))
        if t.k == "tuple" and e.static is None:
            b = self.coerce(e, T.bag(t.a[0]), n)
            return E(b.code, ctor(t.a[0]))
        if t.k.startswith("obj:Val"):
            return E("%s.s" % e.code, ctor(INT))
        code, et = self.seq_of(e, n)
        return E("%s.to_set()" % code, ctor(et))

    def b_set(self, n, want):
        return self.set_like(n, want, T.seta)

    def b_frozenset(self, n, want):
        return self.set_like(n, want, T.fset)

    def b_dict(self, n, want):
        if n.args or n.keywords:
            args, kw = self.eval_args(n)
            if len(args) == 1 and not kw and find(args[0].ty).k == "dict":
                t = find(args[0].ty)
                return E(args[0].code, args[0].ty, within(args[0], t.a[1]))
            self.fail(n, "dict(...)")
        kt, vt = T.tv(), T.tv()
        if want is not None and find(want).k == "dict":
            kt, vt = find(want).a
        return E("Map::<%s, %s>::empty()" % (rs(kt), rs(vt)), T.dct(kt, vt))

    def key_static(self, kw, n):
        f = kw["key"].static
        if f is not None and f[0] in ("builtin", "func"):          # key=len is key=lambda x: len(x)
            node = next(k.value for k in n.keywords if k.arg == "key")
            lam = ast.parse("lambda x__k: 0", mode="eval").body
            lam.body = ast.copy_location(ast.Call(func=node, args=[ast.Name(id="x__k", ctx=ast.Load())], keywords=[]), node)
            f = ("lambda", ast.fix_missing_locations(ast.copy_location(lam, node)), dict(self.scope))
        if f is None or f[0] != "lambda":
            self.fail(n, "key function")
        return f

    def key_closure(self, st, et, it, n):
        v = self.fresh("k")
        self.binders.append(("all", v, et, it, None))
        r = self.call_lambda(st, [E(v, et)], {}, n)
        r = self.coerce(r, INT, n)
        self.binders.pop()
        return "|%s: %s| %s" % (v, rs(et), r.code)

    def b_sorted(self, n, want):
        (args), kw = self.plain_args(n, 1, 1, kws=("key", "reverse"))
        if "reverse" in kw:
            self.fail(n, "sorted reverse")
        code, et = self.seq_of(args[0], n)
        if self.binders:
            if find(et).k == "int" and "key" not in kw:
                t = find(args[0].ty)
                return E("sort_ints(%s)" % code, T.lst(INT))
            self.fail(n, "sorted inside a comprehension")
        if "key" in kw:
            clo = self.key_closure(self.key_static(kw, n), et, code, n)
            c = self.call_raw("sorted_by", [code, clo], T.lst(et))
            return E(c + "@", T.lst(et), within(args[0], et))
        if find(et).k == "int":
            return E("sort_ints(%s)" % code, T.lst(INT))
        if find(et).k == "tuple" and [find(x).k for x in find(et).a] == ["int", "int"]:
            return E("sort_pairs(%s)" % code, T.lst(et))
        c = self.call_raw("sorted_any", [code], T.lst(et))
        return E(c + "@", T.lst(et), within(args[0], et))

    def minmax(self, n, which):
        args, kw = self.plain_args(n, 1, 8, kws=("key", "default"))
        if len(args) > 1:
            if kw:
                self.fail(n, which)
            res = self.coerce(args[0], INT, n).code
            for a in args[1:]:
                x = self.coerce(a, INT, n).code
                res = "(if %s %s %s { %s } else { %s })" % (res, "<=" if which == "min" else ">=", x, res, x)
            return E(res, INT)
        e = args[0]
        if e.static is not None:
            self.fail(n, which)
        t = find(e.ty)
        if "key" in kw:
            if self.binders:
                self.fail(n, which + " inside a comprehension")
            seq, et = self.seq_of(e, n)
            self.may_raise("ValueError", "%s.len() == 0" % seq, "%s of an empty iterable" % which)
            clo = self.key_closure(self.key_static(kw, n), et, seq, n)
            c = self.call_raw(which + "_by", [seq, clo], et)
            return E(c + "@", et, within(e, et))
        seq, et = self.seq_of(e, n)
        if find(et).k != "int":
            self.fail(n, "%s of %r" % (which, et))
        if "default" in kw:
            d = self.coerce(kw["default"], INT, n)
            return E("(if %s.len() == 0 { %s } else { seq_%s(%s) })" % (seq, d.code, which, seq), INT)
        self.may_raise("ValueError", "%s.len() == 0" % seq, "%s of an empty iterable" % which)
        return E("seq_%s(%s)" % (which, seq), INT)

    def b_min(self, n, want):
        return self.minmax(n, "min")

    def b_max(self, n, want):
        return self.minmax(n, "max")

    def b_sum(self, n, want):
        args = self.plain_args(n, 1)
        seq, et = self.seq_of(args[0], n)
        if find(et).k == "bool":
            seq = "%s.map_values(|b: bool| if b { 1int } else { 0int })" % seq
        elif find(et).k != "int":
            self.fail(n, "sum of %r" % et)
        return E("seq_sum(%s)" % seq, INT)

    def anyall(self, n, which):
        a = n.args
        if len(a) != 1 or n.keywords:
            self.fail(n, which)
        if isinstance(a[0], (ast.GeneratorExp, ast.ListComp)):
            g = a[0]
            if len(g.generators) == 1:
                gg = g.generators[0]
                sc = dict(self.scope)
                nb = len(self.binders)
                src = self.expr(gg.iter)
                t = find(src.ty)
                if src.static is None and t.k in ("set", "fset", "bag"):
                    it, ety = src.code, t.a[0]
                elif src.static is None and t.k in ("dict",):
                    it, ety = "%s.dom()" % src.code, t.a[0]
                elif src.static is not None and self.static_elements(src, n) is not None:
                    parts = []
                    for el in self.static_elements(src, n):
                        self.bind_pattern(gg.target, el)
                        cs = [self.cond(c) for c in gg.ifs]
                        b = self.cond(g.elt)
                        if cs:
                            b = "(%s %s %s)" % (" && ".join(cs), "&&" if which == "any" else "==>", b)
                        parts.append(b)
                    self.scope = sc
                    return E("(" + (" || " if which == "any" else " && ").join(parts or [
                        "false" if which == "any" else "true"]) + ")", BOOL)
                else:
                    it, ety = self.comp_source(src, gg.iter)
                v = self.fresh("q")
                self.binders.append(("all", v, ety, it, None))
                self.bind_pattern(gg.target, E(v, ety))
                conds = []
                for c in gg.ifs:
                    x = self.cond(c)
                    conds.append(x)
                    self.binders.append(("guard", x))
                body = self.cond(g.elt)
                del self.binders[nb:]
                self.scope = sc
                if which == "any":
                    return E("(exists|%s: %s| #[trigger] %s.contains(%s) && %s)" % (
                        v, rs(ety), it, v, " && ".join(conds + [body])), BOOL)
                return E("(forall|%s: %s| #[trigger] %s.contains(%s) ==> (%s))" % (
                    v, rs(ety), it, v, ("(%s) ==> (%s)" % (" && ".join(conds), body)) if conds else body), BOOL)
        e = self.expr(a[0])
        seq, et = self.seq_of(e, n)
        v = self.fresh("q")
        t = self.truth(E(v, et), n)
        if which == "any":
            return E("(exists|%s: %s| #[trigger] %s.contains(%s) && %s)" % (v, rs(et), seq, v, t), BOOL)
        return E("(forall|%s: %s| #[trigger] %s.contains(%s) ==> %s)" % (v, rs(et), seq, v, t), BOOL)

    def b_any(self, n, want):
        return self.anyall(n, "any")

    def b_all(self, n, want):
        return self.anyall(n, "all")

    def b_bool(self, n, want):
        if len(n.args) != 1 or n.keywords:
            self.fail(n, "bool")
        return E(self.cond(n.args[0]), BOOL)

    def b_int(self, n, want):
        e, = self.plain_args(n, 1)
        t = find(e.ty)
        if t.k in ("int", "bool"):
            return self.coerce(e, INT, n)
        if t.k == "str":
            self.may_raise("ValueError", "!is_int_str(%s)" % e.code, "int of a string")
            return E("str_int(%s)" % e.code, INT)
        if t.k == "opt":
            e = self.coerce(e, t.a[0], n)
            return self.coerce(e, INT, n)
        if t.k == "float":
            return E("py_trunc(%s)" % e.code, INT)
        if self.is_record(t):
            self.may_raise("TypeError", "true", "int of a named tuple")
            return E("arbitrary::<int>()", INT)
        self.fail(n, "int of %r" % t)

    def b_str(self, n, want):
        args = self.plain_args(n, 0, 1)
        if not args:
            return E("Seq::<char>::empty()", STR)
        return self.to_str(args[0], n)

    def b_abs(self, n, want):
        e = self.coerce(self.plain_args(n, 1)[0], INT, n)
        return E("(if %s >= 0 { %s } else { -%s })" % (e.code, e.code, e.code), INT)

    def b_divmod(self, n, want):
        a, b = [self.coerce(e, INT, n) for e in self.plain_args(n, 2)]
        q, r = self.binop(ast.FloorDiv, a, b, n), self.binop(ast.Mod, a, b, n)
        return E("(%s, %s)" % (q.code, r.code), T.tup(INT, INT))

    def b_reversed(self, n, want):
        e, = self.plain_args(n, 1)
        t = find(e.ty)
        if t.k not in ("list", "vtuple"):
            self.fail(n, "reversed of %r" % t)
        return self.lazily(E("rev(%s)" % e.code, T.gen(t.a[0]), within(e, t.a[0])), self.reads(e))

    def b_enumerate(self, n, want):
        e, = self.plain_args(n, 1)
        seq, et = self.seq_of(e, n)
        return self.lazily(self.made("enumer(%s)" % seq, T.gen(T.tup(INT, et)), [e], n), self.reads(e))

    def b_zip(self, n, want):
        a, b = self.plain_args(n, 2)
        x, xt = self.seq_of(a, n)
        y, yt = self.seq_of(b, n)
        return self.lazily(self.made("zip_seq(%s, %s)" % (x, y), T.gen(T.tup(xt, yt)), [a, b], n), self.reads(a, b))

    def b_iter(self, n, want):
        e, = self.plain_args(n, 1)
        t = find(e.ty)
        if t.k == "gen":
            return e
        seq, et = self.seq_of(e, n)
        return self.lazily(self.made(seq, T.gen(et), [e], n), self.reads(e))

    def b_input(self, n, want):
        self.eval_args(n)
        self.asm.note("input")
        self.may_raise("EOFError", self.call_raw("any_value::<bool>", [], BOOL) + "@", "input")
        return E(self.call_raw("any_value::<Seq<char>>", [], STR) + "@", STR)

    def b_print(self, n, want):
        self.eval_args(ast.Call(func=n.func, args=n.args, keywords=[]))
        self.asm.note("print")
        return E("()", NONE)

    def b_super(self, n, want):
        if n.args:
            r = self.expr(n.args[0])
            return E("?", NONE, static=("superobj", r.static[1]))
        return E("?", NONE, static=("superobj", self.cls))

    def instance_of(self, n, u):
        """the classes among those of u that isinstance(.., classes) holds for"""
        cs = [self.expr(x) for x in (n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]])]
        if not all(c.static and c.static[0] == "class" for c in cs):
            self.fail(n, "isinstance")
        ms = self.reg.unions.get(u, [u])
        if not all(self.reg.structs[m].qual for m in ms):
            self.fail(n, "isinstance")
        return [m for m in ms if any(c.static[1] in self.prog.mro(self.class_of_struct(self.reg.structs[m])) for c in cs)]

    def b_isinstance(self, n, want):
        if len(n.args) != 2 or n.keywords:
            self.fail(n, "isinstance")
        e = self.expr(n.args[0])
        t = find(e.ty)
        c = self.expr(n.args[1]) if t.k == "obj:ActionVal" else None
        if t.k == "obj:ActionVal" and c.static and c.static[0] == "class":
            return E("(%s.kind == %d)" % (e.code, self.asm.class_tag(c.static[1])), BOOL)
        if t.k == "obj:Outcome":
            c = self.expr(n.args[1])
            if not (c.static and c.static[0] == "class" and c.static[1].name == "Sudoku"):
                self.fail(n, "isinstance of a result")
            return E("(%s.kind == 1)" % e.code, BOOL)
        if t.k.startswith("obj:") and (t.k[4:] in self.reg.unions or t.k[4:] in self.reg.structs):
            u = t.k[4:]
            ms = self.instance_of(n, u)
            if u in self.reg.structs:
                return E("true" if ms else "false", BOOL)
            return E("(%s)" % (" || ".join("%s is %s" % (e.code, m) for m in ms) or "false"), BOOL)
        self.fail(n, "isinstance")

    def b___next__(self, n, want):
        e = self.b_next(n, want)
        if find(e.ty).k in ("none", "opt", "?") or find(e.ty).k == "obj:Opaque":
            self.fail(n, "next with a default of a generator that may yield None")
        return e

    def b_next(self, n, want):
        a = n.args
        if n.keywords or not 1 <= len(a) <= 2:
            self.fail(n, "next")
        if self.binders:
            self.fail(n, "next inside a comprehension")
        e = self.expr(a[0])
        if e.static is not None and e.static[0] in ("igen", "igens"):
            self.fail(n, "next on an interfering generator")
        t = find(e.ty)
        if t.k == "opt" and find(t.a[0]).k == "obj:Opaque":
            e = self.coerce(e, t.a[0], n)
            t = find(e.ty)
        if t.k == "obj:Opaque" and len(a) == 1:            # a generator that was stored
            self.may_raise("StopIteration", self.call_raw("any_value::<bool>", [], BOOL) + "@", "next")
            return E(self.call_raw("any_value::<Opaque>", [], t) + "@", t)
        if t.k != "gen":
            self.fail(n, "next of %r" % t)
        if isinstance(e.extra, dict) and e.extra.get("genmods"):
            self.fail(n, "next on a generator that modifies its arguments")
        if e.place is not None and not e.place.steps and e.place.root + "__pos" in self.locals:
            g, pos = e.place.root, e.place.root + "__pos"
        else:
            if e.place is not None and (e.place.steps or e.place.root in self.locals):
                self.fail(n, "next of a generator that is stored")
            g, pos = e.code, "0int"
        if len(a) == 2:
            d = self.expr(a[1])
            ty, some = t.a[0], "%s"
            if find(d.ty).k in ("none", "opt") and find(ty).k not in ("none", "opt", "?"):
                ty, some = T.opt(ty), "Some(%s)"
            d = self.coerce(d, ty, n)
            x = self.newlocal("nx", ty)
            self.emit("proof { %s = if %s < %s.len() { %s } else { %s }; }" % (x, pos, g, some % ("%s[%s]" % (g, pos)), d.code))
            if pos != "0int":
                self.emit("proof { if %s < %s.len() { %s = %s + 1; } }" % (pos, g, pos, pos))
                self.mut_rebind(pos)
            return self.holding(x, ty, [y for y in (E(x, ty, within(e, t.a[0])), d) if y.place is not None and T.mutable(ty)], n)
        self.may_raise("StopIteration", "%s >= %s.len()" % (pos, g), "next")
        x = self.newlocal("nx", t.a[0])
        self.emit("proof { %s = %s[%s]; }" % (x, g, pos))
        if pos != "0int":
            self.emit("proof { %s = %s + 1; }" % (pos, pos))
            self.mut_rebind(pos)
        return E(x, t.a[0], within(e, t.a[0]))

    # ------------------------------------------------------------------ external library functions
    def external(self, path, n, want):
        if path in ("itertools.product",):
            return self.x_product(n)
        if path == "ast.literal_eval":
            x = self.coerce(self.plain_args(n, 1)[0], STR, n)
            self.asm.note("ast.literal_eval: the value of a literal, or one of the five documented errors")
            for k in ("SyntaxError", "ValueError", "TypeError", "MemoryError", "RecursionError"):
                self.may_raise(k, "literal(%s) is %s" % (x.code, k), "not a literal")
            t = T.parse("Opaque", [])
            return E("literal(%s)->Value_0" % x.code, t)
        if path == "itertools.combinations":
            a, b = self.plain_args(n, 2)
            seq, et = self.seq_of(a, n)
            k = self.coerce(b, INT, n)
            self.oblige("%s >= 0" % k.code, "combinations size")
            c = self.call_raw("combinations", [seq, k.code], T.lst(T.lst(et)))
            return self.made(c + "@", T.vtup(T.vtup(et)), [a], n)
        if path == "collections.defaultdict":
            a = self.plain_args(n, 1)
            f = a[0].static
            if f is None:
                self.fail(n, "defaultdict factory")
            kt, vt = T.tv(), T.tv()
            if f[0] == "lambda":
                d = self.call_lambda(f, [], {}, n)
            elif f[0] == "builtin" and f[1] in ("set", "list", "int"):
                d = {"set": E("Set::<%s>::empty()" % rs(vt), T.seta(vt)), "list": E("Seq::<%s>::empty()" % rs(vt), T.lst(vt)),
                     "int": E("0int", INT)}[f[1]]
            else:
                self.fail(n, "defaultdict factory")
            return E("Map::<%s, %s>::empty()" % (rs(kt), rs(d.ty)), T.ddct(kt, d.ty), extra={"ddefault": d.code})
        if path == "random.shuffle":
            e, = self.plain_args(n, 1)
            if e.place is None or find(e.ty).k != "list":
                self.fail(n, "shuffle")
            c = self.call_raw("shuffled", [e.code], e.ty)
            self.write(e.place, c + "@", n)
            return E("()", NONE)
        if path == "random.choice":
            e, = self.plain_args(n, 1)
            seq, et = self.seq_of(e, n)
            self.may_raise("IndexError", "%s.len() == 0" % seq, "choice")
            c = self.call_raw("choice_of", [seq], et)
            return E(c + "@", et, within(e, et))
        if path == "random.sample":
            a, b = self.plain_args(n, 2)
            seq, et = self.seq_of(a, n)
            k = self.coerce(b, INT, n)
            self.may_raise("ValueError", "!(0 <= %s && %s <= %s.len())" % (k.code, k.code, seq), "sample")
            c = self.call_raw("sample_of", [seq, k.code], T.lst(et))
            return self.made(c + "@", T.lst(et), [a], n)
        if path in ("set.intersection", "set.union"):
            if path == "set.intersection" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
                seq, et = self.seq_of(self.expr(n.args[0].value), n)
                if find(et).k == "set":
                    self.may_raise("TypeError", "%s.len() == 0" % seq, "set.intersection of nothing")
                    return E("inter_all(%s)" % seq, et)
            self.fail(n, path)
        if path in ("sys.stderr.write", "sys.stderr.flush", "sys.stdout.write", "sys.stdout.flush"):
            self.eval_args(n)
            self.asm.note("output")
            return E("()", NONE)
        if path == "sys.exit":
            self.eval_args(n)
            self.asm.note("sys.exit ends the program")
            self.emit("assume(false);")
            return E("()", NONE)
        self.fail(n, "library function %s" % path)

    def x_product(self, n):
        rep = 1
        for k in n.keywords:
            if k.arg == "repeat" and isinstance(k.value, ast.Constant) and isinstance(k.value.value, int):
                rep = k.value.value
            else:
                self.fail(n, "product arguments")
        vals = [self.expr(a) for a in n.args]
        if any(v.static is not None for v in vals):
            return self.static_product(vals, n)
        seqs = [self.seq_of(v, n) for v in vals] * rep
        if len(seqs) == 2:
            return self.made("prod(%s, %s)" % (seqs[0][0], seqs[1][0]), T.vtup(T.tup(seqs[0][1], seqs[1][1])), vals, n)
        if len(seqs) == 3:
            return self.made("prod3(%s, %s, %s)" % tuple(s[0] for s in seqs), T.vtup(T.tup(*[s[1] for s in seqs])), vals, n)
        self.fail(n, "product of %d iterables" % len(seqs))

    def static_product(self, vals, n):
        """product(static tuple, sequence): the first component of an element stays a static value"""
        els = self.static_elements(vals[0], n)
        if len(vals) != 2 or els is None or vals[1].static is not None or n.keywords:
            self.fail(n, "product of static values")
        code, et = self.seq_of(vals[1], n)
        return E("prod(irange(0, %d), %s)" % (len(els), code), T.vtup(T.tup(INT, et)), extra={"parts": {0: els}})

    # ------------------------------------------------------------------ methods of builtin types
    def builtin_method(self, base, name, n, want):
        t = find(base.ty)
        args, kw = self.eval_args(n)
        if kw:
            self.fail(n, "keyword argument of %s" % name)
        if any(isinstance(a, tuple) for a in args):
            self.fail(n, "starred argument of %s" % name)
        if base.static is not None:
            self.fail(n, "method of a static value")
        if t.k == "?":
            if name in ("append", "extend"):
                unify(t, T.lst(T.tv()))
            elif name in ("add", "discard"):
                unify(t, T.seta(T.tv()))
            t = find(t)
        if t.k == "str":
            return self.str_method(base, name, args, n)
        if t.k == "float" and name == "is_integer" and not args:
            return E("(%s.r == %s.r.floor() as real)" % (base.code, base.code), BOOL)
        mut = {"list": ("append", "extend", "remove", "pop", "insert", "sort", "reverse", "clear"),
               "set": ("add", "remove", "discard", "update", "difference_update", "intersection_update", "pop", "clear"),
               "dict": ("pop", "update", "setdefault", "clear"), "ddict": ("pop",)}.get(t.k, ())
        if name in mut:
            return self.builtin_mut(base, name, args, n)
        if t.k in ("list", "vtuple"):
            if name == "index":
                x = self.coerce(args[0], t.a[0], n)
                self.may_raise("ValueError", "!%s.contains(%s)" % (base.code, x.code), "index of")
                return E("first_index(%s, %s)" % (base.code, x.code), INT)
            if name == "count":
                x = self.coerce(args[0], t.a[0], n)
                return E("count_in(%s, %s)" % (base.code, x.code), INT)
            if name == "copy" and not args:
                return E(base.code, base.ty, within(base, t.a[0]))
        if t.k in ("set", "fset"):
            op = {"union": "union", "difference": "difference", "intersection": "intersect"}.get(name)
            if op:
                code = base.code
                for a in args:
                    b = self.coerce(a, T.bag(t.a[0]), n)
                    code = "%s.%s(%s)" % (code, op, b.code)
                return E(code, base.ty)
            if name == "copy" and not args:
                return E(base.code, base.ty)
            if name == "issubset":
                return E("%s.subset_of(%s)" % (base.code, self.coerce(args[0], T.bag(t.a[0]), n).code), BOOL)
            if name == "issuperset":
                return E("%s.subset_of(%s)" % (self.coerce(args[0], T.bag(t.a[0]), n).code, base.code), BOOL)
            if name == "isdisjoint":
                x = self.coerce(args[0], T.bag(t.a[0]), n).code
                return E("%s.disjoint(%s)" % (base.code, x), BOOL)
        if t.k in ("dict", "ddict"):
            self.check_fuzzy(base, n)
            if name == "keys" and not args:
                return E("%s.dom()" % base.code, T.fset(t.a[0]))
            if name in ("items", "values") and not args:
                if self.binders:
                    self.fail(n, "%s() inside a comprehension" % name)
                if name == "items":
                    it = T.vtup(T.tup(t.a[0], t.a[1]))
                    return E(self.call_raw("enum_items", [base.code], it) + "@", it, within(base, t.a[1]))
                it = T.vtup(t.a[1])
                return E(self.call_raw("enum_values::<%s, %s>" % (rs(t.a[0]), rs(t.a[1])), [base.code], it) + "@", it, within(base, t.a[1]))
            if name == "get":
                k = self.coerce(args[0], t.a[0], n)
                if len(args) == 2:
                    d = self.coerce(args[1], t.a[1], n)
                    got = E("%s[%s]" % (base.code, k.code), t.a[1], within(base, t.a[1]))
                    return self.either("%s.dom().contains(%s)" % (base.code, k.code), got, d, n)
                return E("(if %s.dom().contains(%s) { Some(%s[%s]) } else { None })" % (
                    base.code, k.code, base.code, k.code), T.opt(t.a[1]), within(base, t.a[1]))
        self.fail(n, "method %s of %r" % (name, t))

    def builtin_mut(self, base, name, args, n):
        t = find(base.ty)
        pl = base.place
        if self.binders:
            self.fail(n, "%s inside a comprehension or condition" % name)
        if pl is None:
            # effect on a temporary
            self.fail(n, "%s on a temporary" % name)
        self.used([base] + list(args))
        b = base.code
        if t.k == "list":
            if name == "append":
                x = self.coerce(args[0], t.a[0], n)
                if x.place is not None and T.mutable(x.ty):
                    self.alias(pl.root, x, n, len(pl.steps) + 1)
                self.write(pl, "%s.push(%s)" % (b, x.code), n)
                return E("()", NONE)
            if name == "extend":
                code, et = self.seq_of(args[0], n)
                unify(t.a[0], et)
                if args[0].place is not None and T.mutable(et):
                    self.alias(pl.root, args[0], n, len(pl.steps) + 1)
                self.write(pl, "%s.add(%s)" % (b, code), n)
                return E("()", NONE)
            if name == "remove":
                x = self.coerce(args[0], t.a[0], n)
                self.may_raise("ValueError", "!%s.contains(%s)" % (b, x.code), "list.remove")
                self.write(pl, "remove_first(%s, %s)" % (b, x.code), n)
                return E("()", NONE)
            if name == "pop":
                v = self.newlocal("p", t.a[0])
                if not args:
                    self.may_raise("IndexError", "%s.len() == 0" % b, "pop from an empty list")
                    self.emit("proof { %s = %s.last(); }" % (v, b))
                    self.write(pl, "%s.drop_last()" % b, n)
                else:
                    i = self.coerce(args[0], INT, n)
                    self.may_raise("IndexError", "!(0 <= %s && %s < %s.len())" % (i.code, i.code, b), "pop index")
                    self.emit("proof { %s = %s[%s]; }" % (v, b, i.code))
                    self.write(pl, "%s.remove(%s)" % (b, i.code), n)
                return E(v, t.a[0])
            if name == "insert":
                i = self.coerce(args[0], INT, n)
                x = self.coerce(args[1], t.a[0], n)
                self.oblige("0 <= %s && %s <= %s.len()" % (i.code, i.code, b), "insert position")
                if x.place is not None and T.mutable(x.ty):
                    self.alias(pl.root, x, n, len(pl.steps) + 1)
                self.write(pl, "%s.insert(%s, %s)" % (b, i.code, x.code), n)
                return E("()", NONE)
            if name == "sort" and not args:
                if find(t.a[0]).k != "int":
                    self.fail(n, "sort")
                self.write(pl, "sort_ints(%s)" % b, n)
                return E("()", NONE)
            if name == "reverse" and not args:
                self.write(pl, "rev(%s)" % b, n)
                return E("()", NONE)
            if name == "clear" and not args:
                self.write(pl, "Seq::empty()", n)
                return E("()", NONE)
        if t.k == "set":
            if name == "add":
                x = self.coerce(args[0], t.a[0], n)
                self.write(pl, "%s.insert(%s)" % (b, x.code), n)
                return E("()", NONE)
            if name in ("remove", "discard"):
                x = self.coerce(args[0], t.a[0], n)
                if name == "remove":
                    self.may_raise("KeyError", "!%s.contains(%s)" % (b, x.code), "set.remove")
                self.write(pl, "%s.remove(%s)" % (b, x.code), n)
                return E("()", NONE)
            if name in ("update", "difference_update", "intersection_update"):
                op = {"update": "union", "difference_update": "difference", "intersection_update": "intersect"}[name]
                code = b
                for a in args:
                    x = self.coerce(a, T.bag(t.a[0]), n)
                    code = "%s.%s(%s)" % (code, op, x.code)
                self.write(pl, code, n)
                return E("()", NONE)
            if name == "clear":
                self.write(pl, "Set::empty()", n)
                return E("()", NONE)
            if name == "pop":
                self.may_raise("KeyError", "%s.len() == 0" % b, "set.pop")
                c = self.call_raw("enum_set", [b], T.lst(t.a[0]))
                v = self.newlocal("p", t.a[0])
                self.emit("proof { %s = %s@[0]; }" % (v, c))
                self.write(pl, "%s.remove(%s)" % (b, v), n)
                return E(v, t.a[0])
        if t.k in ("dict", "ddict"):
            if name == "pop":
                k = self.coerce(args[0], t.a[0], n)
                v = self.newlocal("p", t.a[1])
                if len(args) == 1:
                    self.may_raise("KeyError", "!%s.dom().contains(%s)" % (b, k.code), "dict.pop")
                    self.emit("proof { %s = %s[%s]; }" % (v, b, k.code))
                    self.write(pl, "%s.remove(%s)" % (b, k.code), n)
                    return E(v, t.a[1])
            if name == "clear":
                self.write(pl, "Map::empty()", n)
                return E("()", NONE)
        self.fail(n, "method %s of %r" % (name, t))

    def str_method(self, base, name, args, n):
        b = base.code
        if name == "join":
            e = args[0]
            seq, et = self.seq_of(e, n)
            if find(et).k != "str":
                self.may_raise("TypeError", "%s.len() > 0" % seq, "join of non-strings")
                return E("arbitrary::<Seq<char>>()", STR)
            return E("str_join(%s, %s)" % (b, seq), STR)
        A = []
        for a in args:
            A.append(a)
        if name == "split":
            if len(A) == 1:
                x = self.coerce(A[0], STR, n)
                self.may_raise("ValueError", "%s.len() == 0" % x.code, "empty separator")
                return E("str_split(%s, %s)" % (b, x.code), T.lst(STR))
            if len(A) == 2 and A[1].code == "1int":
                x = self.coerce(A[0], STR, n)
                self.may_raise("ValueError", "%s.len() == 0" % x.code, "empty separator")
                return E("str_split1(%s, %s)" % (b, x.code), T.lst(STR))
            if not A:
                return E("str_words(%s)" % b, T.lst(STR))
        if name == "replace" and len(A) == 2:
            return E("str_replace(%s, %s, %s)" % (b, self.coerce(A[0], STR, n).code, self.coerce(A[1], STR, n).code), STR)
        if name == "strip" and not A:
            return E("str_strip(%s)" % b, STR)
        if name in ("startswith", "endswith") and len(A) == 1:
            return E("str_%s(%s, %s)" % (name, b, self.coerce(A[0], STR, n).code), BOOL)
        if name == "partition" and len(A) == 1:
            return E("str_partition(%s, %s)" % (b, self.coerce(A[0], STR, n).code), T.tup(STR, STR, STR))
        if name in ("rjust", "ljust") and 1 <= len(A) <= 2:
            w = self.coerce(A[0], INT, n)
            return E("str_%s(%s, %s)" % (name, b, w.code), STR)
        if name == "find" and len(A) == 1:
            return E("str_find(%s, %s)" % (b, self.coerce(A[0], STR, n).code), INT)
        self.fail(n, "string method %s" % name)


BUILTINS = {"len", "range", "list", "tuple", "set", "frozenset", "dict", "sorted", "min", "max", "sum", "any", "all",
            "bool", "int", "str", "abs", "reversed", "enumerate", "zip", "iter", "next", "print", "super", "isinstance",
            "type", "repr", "map", "filter", "hash", "id", "object", "input", "__range__", "__elements__", "__search__", "__next__", "divmod"}
EXT_CONST = {"string.whitespace": " \t\n\r\x0b\x0c", "string.digits": "0123456789"}


def short(q):
    return q.split(".", 1)[1] if "." in q else q


def self_exc(x):
    from .trans import EXC
    return EXC[x]


def has_yield_(n):
    from .trans import has_yield
    return has_yield(n)


def normalise_tail(body, nest):
    """Rewrite so that every return is in tail position; None if impossible."""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            out.append(s)
            return out
        if isinstance(s, ast.If) and contains_return(s):
            rest = body[i + 1:]
            a = normalise_tail(list(s.body) + ([] if always_exits_(s.body) else list(rest)), nest)
            b = normalise_tail(list(s.orelse) + ([] if always_exits_(s.orelse) else list(rest)), nest)
            if a is None or b is None:
                return None
            new = ast.If(test=s.test, body=a or [ast.Pass()], orelse=b)
            ast.copy_location(new, s)
            out.append(new)
            return out
        if contains_return(s):
            c = nest(s) if isinstance(s, ast.For) else None
            if c is None or not isinstance(c[1], ast.Return):
                return None
            rest = normalise_tail(list(body[i + 1:]), nest)
            if rest is None:
                return None
            test = ast.Call(func=ast.Name(id="__search__", ctx=ast.Load()), args=[], keywords=[])
            test.loop, test.found = s, None
            v = c[1].value
            if v is not None and not isinstance(v, ast.Constant):
                test.found = "__found__%d" % s.lineno
                v = ast.Name(id=test.found, ctx=ast.Load())
            new = ast.copy_location(ast.If(test=test, body=[ast.Return(value=v)], orelse=rest), s)
            out.append(ast.fix_missing_locations(new))
            return out
        out.append(s)
    return out


def always_exits_(b):
    from .trans import always_exits
    return always_exits(b)


def contains_return(s):
    class V(ast.NodeVisitor):
        r = False

        def visit_Return(self, n):
            self.r = True

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    v.visit(s)
    return v.r


from .trans import E, Mut, Place, mangle    # noqa: E402
