"""Mechanical translation of one Python function to a Verus function over ghost data.

The Python statements become proof-block updates of ghost variables, the control flow stays control
flow, every operation that can raise becomes an obligation (or a branch, where the contract lists the
exception or a handler catches it), and every call becomes a call of the callee's contract."""
import ast
import os
import re

from . import lazy
from . import ty as T
from .ty import Restart, Unsupported, INT, BOOL, STR, NONE, find, rs, unify
from .contract import subst

EXC = {"KeyError": 1, "IndexError": 2, "ValueError": 3, "TypeError": 4, "StopIteration": 5,
       "RuntimeError": 6, "NotImplementedError": 7, "AssertionError": 8, "AttributeError": 9, "EOFError": 10, "KeyboardInterrupt": 11,
       "SyntaxError": 12, "MemoryError": 13, "RecursionError": 14}
EXC_PARENTS = {"LookupError": {"KeyError", "IndexError"}, "RuntimeError": {"RuntimeError", "NotImplementedError", "RecursionError"}, "Exception": set(EXC) - {"KeyboardInterrupt"}, "BaseException": set(EXC)}
RUST_KW = {"box", "type", "match", "ref", "loop", "fn", "let", "mut", "move", "use", "where", "impl", "struct",
           "enum", "trait", "mod", "pub", "self", "Self", "super", "crate", "const", "static", "dyn", "unsafe",
           "extern", "as", "in", "true", "false", "spec", "proof", "exec", "ghost", "tracked", "requires",
           "ensures", "invariant", "decreases", "forall", "exists", "choose", "int", "nat", "real", "abstract", "final",
           "override", "macro", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "async", "await",
           "result", "ret", "test", "out", "old", "is", "matches", "has", "assert", "assume", "broadcast", "open",
           "closed", "by", "via", "when", "recommends", "opens_invariants", "returns", "exc", "str", "char", "bool", "_"}


def mangle(n):
    return n + "_" if n in RUST_KW else n


LIB_FNS = set()


def lib_fns():
    """names of the functions of the theory"""
    if not LIB_FNS:
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
        for f in os.listdir(d):
            LIB_FNS.update(re.findall(r"\bfn (\w+)", open(os.path.join(d, f)).read()))
    return LIB_FNS


class Mut(str):
    """A variable that is modified (or keeps an object), with the depth inside it"""
    def __new__(cls, root, depth):
        r = str.__new__(cls, root)
        r.depth = depth
        return r


def m_depth(m):
    return getattr(m, "depth", 99)


class Events(list):
    """What is modified or bound again, in program order, each with the block it happens in"""
    def __init__(self, tr):
        list.__init__(self)
        self.tr = tr

    def append(self, e):
        if e.startswith("="):
            self.tr.settle(e[1:], 99)
        elif e != "out":
            self.tr.settle(str(e), m_depth(e))
        m = Mut(e, m_depth(e))
        m.path, m.rr = self.tr.path, len(self.tr.read_roots)
        list.append(self, m)


def as_generator(fn):
    """def f(..): return (x for ..)   as   def f(..): for ..: yield x"""
    body = [x for x in fn.body if not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    g = body[0].value if len(body) == 1 and isinstance(body[0], ast.Return) else None
    if not isinstance(g, ast.GeneratorExp) or any(x.is_async for x in g.generators) or not isinstance(g.generators[0].iter, ast.Name):
        return fn                   # (the first source is evaluated when the function is called)
    s = ast.Expr(ast.Yield(g.elt))
    for c in reversed(g.generators):
        for t in reversed(c.ifs):
            s = ast.If(test=t, body=[s], orelse=[])
        s = ast.For(target=c.target, iter=c.iter, body=[s], orelse=[])
    new = ast.FunctionDef(**dict(ast.iter_fields(fn), body=[s]))
    return ast.fix_missing_locations(ast.copy_location(new, fn))


class E:
    __slots__ = ("code", "ty", "place", "static", "extra")

    def __init__(self, code, ty, place=None, static=None, extra=None):
        self.code, self.ty, self.place, self.static, self.extra = code, ty, place, static, extra


class Place:
    """Where an object lives.  loose: a new object that holds what lives there (or a part of it), or perhaps that itself"""
    def __init__(self, root, steps=(), loose=False):
        self.root, self.steps, self.loose = root, tuple(steps), loose

    def get(self):
        c = self.root
        for s in self.steps:
            c = self.step_get(c, s)
        return c

    @staticmethod
    def step_get(c, s):
        if s[0] in ("seq", "map"):
            return "%s[%s]" % (c, s[1])
        return "%s.%s" % (c, s[1])

    def updated(self, new):
        if self.loose:
            raise Unsupported("something in %s is modified through another object that holds it" % self.root)

        def go(cur, steps):
            if not steps:
                return new
            s = steps[0]
            inner = go(self.step_get(cur, s), steps[1:])
            if s[0] == "seq":
                return "%s.update(%s, %s)" % (cur, s[1], inner)
            if s[0] == "map":
                return "%s.insert(%s, %s)" % (cur, s[1], inner)
            if s[0] == "attr":
                return "%s { %s: %s, ..%s }" % (s[2], s[1], inner, cur)
            raise Unsupported("update through tuple")
        return go(self.root, list(self.steps))

    def ext(self, step):
        return self if self.loose else Place(self.root, self.steps + (step,))

    def parts(self):
        """of a new object that holds the objects in the object here"""
        return self if self.loose else Place(self.root, self.steps + (("part",),), True)

    def itself(self):
        """of a new object that holds the object here, or perhaps of the object here"""
        return Place(self.root, self.steps, True)


class FnTrans:
    def __init__(self, asm, contract):
        self.asm, self.prog, self.reg, self.c = asm, asm.prog, asm.reg, contract
        self.copied, self.iterables, self.optionals = set(), set(), {}
        self.live_loops, self.live_call = set(), False

    def fail(self, node, msg):
        raise Unsupported("%s:%s: %s" % (self.modname, getattr(node, "lineno", "?"), msg))

    # ------------------------------------------------------------------ driver
    def translate(self):
        c = self.c
        self.modname, self.cls, self.node = self.prog.func_node(c.qual)
        if c.is_gen and not c.raises and not has_yield(self.node):
            self.node = as_generator(self.node)
        if self.prog.mods[self.modname].problems:
            raise Unsupported("%s: %s" % (self.modname, self.prog.mods[self.modname].problems[0]))
        for _ in range(20):
            try:
                return self.run()
            except Restart:
                continue
        raise Unsupported("translation does not stabilise")

    def run(self):
        c, node = self.c, self.node
        self.lines, self.ind = [], 1
        self.locals, self.scope = {}, {}
        self.tmp, self.loopno, self.ncall, self.ntry = 0, 0, 0, 0
        self.binders, self.hoist_ok = [], True
        self.trys, self.loops = [], []
        self.path, self.nblock = (), 0
        self.mut_events, self.alias_events, self.read_roots = Events(self), [], []
        self.handles = []
        self.outer, self.inline_ret = [], []     # where the inlined helpers are called
        self.frames, self.refilled = [], []      # operands evaluated, but not used yet
        self.alias_scopes = {}
        self.calls, self.gen_vars, self._ddef = [], [], {}
        self.rawlocals, self.live_call, self.iter_of = {}, False, None
        self.inline_stack = [c.qual]
        self.fn_nodes = [node]
        self.pairs = {}             # comprehension variables
        self.closers = []
        self.yield_mode = ("trace",)
        self.callees = set()
        self.lits = self.asm.lits
        deco = [ast.unparse(d) for d in node.decorator_list]
        kind = "method" if self.cls else "func"
        for d in deco:
            if d == "classmethod" and self.cls:
                kind = "classmethod"
            elif d == "staticmethod" and self.cls:
                kind = "static"
            else:
                raise Unsupported("decorator %s" % d)
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported("async")
        self.kind = kind
        self.is_gen = has_yield(node)
        if self.is_gen != bool(c.is_gen):
            raise Unsupported("%s: generator/function kind differs from its contract" % c.qual)
        pynames = self.check_params(node)
        cparams = {n: t for n, t in c.params}
        self.param_ty = {}
        expected = [n for n, _ in c.params]
        if c.ctor:
            if pynames[0] != "self":
                raise Unsupported("constructor without self")
            actual = pynames[1:]
        else:
            actual = pynames
        if actual != expected:
            raise Unsupported("%s: parameters %s differ from the contract's %s" % (c.qual, actual, expected))
        sig = []
        self.sigmap = {}         # python param -> rust name at entry
        for n in actual:
            t = cparams[n]
            m = mangle(n)
            self.param_ty[n] = t
            if t.k == "gen":
                self.gen_use(n, False, node)
            if n in self.copied or n in c.modifies or self.shared(n):
                sig.append((m + "__0", t))
                self.sigmap[n] = m + "__0"
                self.locals[m] = t
                self.scope[n] = E(m, t, Place(m))
            else:
                sig.append((m, t))
                self.sigmap[n] = m
                self.scope[n] = E(m, t, Place(m))
        self.entry_alias_roots = {mangle(n) for n in actual if T.mutable(cparams[n])}
        if c.ctor:
            st = self.reg.struct_for_class(c.ctor)
            self.locals["self_"] = T.obj(st.name)
            self.scope["self"] = E("self_", T.obj(st.name), Place("self_"))
        if self.is_gen:
            self.locals["out"] = c.returns
        # body
        for n in actual:
            if n in self.copied or n in c.modifies or self.shared(n):
                self.emit("proof { %s = %s; }" % (mangle(n), self.sigmap[n]))
        if self.is_gen:
            self.emit("proof { out = Seq::empty(); }")
        self.hook("entry")
        body = self.strip_doc(node.body)
        ended = self.block(body)
        if not ended:
            self.do_return(None, node)
        self.check_alias()
        for t in self.locals.values():
            if nested_gen(t):
                self.fail(node, "generators inside a container")
        head = self.header(sig)
        text = []
        decl = []
        for n, t in list(self.c.locals.items()) + list(self.c.outs.items()) + [("g0_" + n, t) for n, t in self.c.outs.items()] + list(self.rawlocals.items()):
            decl.append(("    let ghost mut %s: %s = arbitrary();" % (n, t), None))
        for n, t in self.locals.items():
            decl.append(("    let ghost mut %s: %s = arbitrary();" % (n, rs(t)), None))
        out = head + decl + self.lines + [("}", None)]
        clash = sorted((set(self.locals) | {m for m, _ in sig}) & lib_fns())
        out = [(self.eta(T.resolve_placeholders(l)), lab) for l, lab in out]
        if clash:                # a variable called like a function of the theory
            rx = re.compile(r"(?<![\w.:])(%s)\b(?!\s*(?:\(|::|!))" % "|".join(clash))
            out = [(rx.sub(r"\1_", l), lab) for l, lab in out]
        return out

    def shared(self, n):
        """the parameter others may change while this generator is suspended"""
        return self.c.interfere is not None and n == self.c.interfere["param"]

    def rely(self):
        return self.spec(self.c.interfere["rely"])

    def eta(self, line):
        """(x.0, x.1) is x when x is a pair"""
        for v, t in self.pairs.items():
            t = find(t)
            if t.k == "tuple" and len(t.a) == 2 and v in line:
                line = re.sub(r"\((?:%s\.0|\(%s\.0\)), (?:%s\.1|\(%s\.1\))\)" % (v, v, v, v), v, line)
        return line

    @staticmethod
    def strip_doc(body):
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            return body[1:]
        return body

    def check_params(self, node):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            names.append(a.vararg.arg)
        names += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            raise Unsupported("**kwargs")
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            if not self.immutable_default(d):
                raise Unsupported("default value %s" % ast.unparse(d))
        if node is self.node and self.c.defaults is not None:
            allpos = a.posonlyargs + a.args
            have = {x.arg: ast.unparse(d) for x, d in zip(allpos[len(allpos) - len(a.defaults):], a.defaults)}
            have.update({x.arg: ast.unparse(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            want = {k.arg: ast.unparse(k.value) for k in ast.parse("f(%s)" % self.c.defaults, mode="eval").body.keywords}
            if {k: have.get(k) for k in want} != want:
                raise Unsupported("default arguments %s differ from the contract's %s" % (have, want))
        return names

    @staticmethod
    def immutable_default(d):
        if isinstance(d, ast.Constant):
            return True
        if isinstance(d, ast.Tuple):
            return all(FnTrans.immutable_default(x) for x in d.elts)
        if isinstance(d, ast.UnaryOp):
            return isinstance(d.operand, ast.Constant)
        if isinstance(d, ast.Lambda):
            return True
        if ast.unparse(d) in ("sys.stdin", "sys.stdout"):
            return True
        return False

    def ret_components(self):
        """[(name, type)] of the returned ghost tuple."""
        c = self.c
        comps = [("result", T.obj(self.reg.struct_for_class(c.ctor).name) if c.ctor else c.returns)]
        for m in c.modifies:
            comps.append((m, self.param_ty[m] if hasattr(self, "param_ty") else dict(c.params)[m]))
        if c.raises:
            comps.append(("exc", INT))
        return comps

    def header(self, sig):
        return self.asm.header(self.c, sig, self.ret_components(), self.sigmap)

    # ------------------------------------------------------------------ emission
    def emit(self, text, label=None):
        for i, l in enumerate(text.split("\n")):
            self.lines.append(("    " * self.ind + l, label))

    def pr(self, text):
        self.emit("proof { %s }" % text)

    def hook(self, name, extra=None):
        h = self.c.hooks.get(name)
        if h:
            self.emit_proof(h, "hook:" + name, extra)

    def emit_proof(self, text, label, extra=None):
        if not text or not text.strip():
            return
        self.emit("proof {", None)
        self.ind += 1
        for l in self.spec(text, extra).strip("\n").split("\n"):
            self.emit(l, self.lab(label))
        self.ind -= 1
        self.emit("}", None)

    def lab(self, what):
        return "%s:%s" % (self.c.key, what)

    def spec(self, text, extra=None):
        """Contract text -> Verus text in the current scope."""
        def old(m):
            n = m.group(1)
            return "\x01%s\x02" % self.sigmap.get(n, n)
        text = re.sub(r"\bold\((\w+)\)", old, text)
        mp = {}
        for n, e in self.scope.items():
            if e.static is None and e.code != n and e.code.isidentifier():
                mp[n] = e.code
        mp["self"] = self.scope["self"].code if "self" in self.scope else "self_"
        if extra:
            mp.update(extra)
        parts = re.split("(\x01\\w+\x02)", text)
        return "".join(p[1:-1] if p[:1] == "\x01" else subst(p, mp) for p in parts)

    def fresh(self, base="t"):
        self.tmp += 1
        return "%s__%d" % (base, self.tmp)

    def newlocal(self, base, t):
        n = self.fresh(base)
        self.locals[n] = t
        return n

    # ------------------------------------------------------------------ obligations and exceptions
    def wrap(self, cond, kind="all"):
        for b in reversed(self.binders):
            if b[0] == "guard":
                cond = "((%s) ==> (%s))" % (b[1], cond) if kind == "all" else "((%s) && (%s))" % (b[1], cond)
            else:
                _, v, ty, it, iset = b
                if kind == "all":
                    cond = "(forall|%s: %s| #[trigger] %s.contains(%s) ==> (%s))" % (v, rs(ty), it, v, cond)
                else:
                    cond = "(exists|%s: %s| #[trigger] %s.contains(%s) && (%s))" % (v, rs(ty), it, v, cond)
        return cond

    def oblige(self, cond, what):
        if cond == "true":
            return
        self.emit("assert(%s);" % self.wrap(cond), self.lab(what))

    def catches(self, exc):
        """Which handler catches exc: ('try', record, handler) | ('contract',) | None"""
        if self.c.noexc and self.trys:
            return None         # the contract promises that the guarded statements do not raise
        for tr in reversed(self.trys):
            for h in tr["handlers"]:
                if h["names"] is None or exc in h["names"]:
                    return ("try", tr, h)
        if exc in self.c.raises:
            return ("contract",)
        return None

    def may_raise(self, exc, bad, what):
        """bad: spec condition under which exc is raised here."""
        if bad == "false":
            return
        how = self.catches(exc)
        if how is None:
            self.oblige("!(%s)" % bad, "no %s: %s" % (exc, what))
            return
        cond = self.wrap(bad, "any")
        self.emit("if test(Ghost((%s))) {" % cond)
        self.ind += 1
        flag = self.raise_now(exc, how)
        self.ind -= 1
        if flag:
            self.emit("} else {")
            self.ind += 1
            self.closers[-1] += 1
        else:
            self.emit("}")

    def raise_now(self, exc, how=None):
        """Emit the transfer of control for exc. Returns True if control continues after (flag set)."""
        how = how or self.catches(exc)
        if how is None:
            self.oblige("false", "uncaught %s" % exc)
            self.emit("return Ghost(arbitrary());")
            return False
        if how[0] == "contract":
            self.emit_return(None, EXC[exc])
            return False
        _, tr, h = how
        if h["inline"] and tr["loopdepth"] == len(self.loops):
            saved = self.trys
            self.trys = self.trys[:self.trys.index(tr)]
            cl = self.closers
            sc = dict(self.scope)
            self.closers = []
            here = None
            if tr["depth"] < len(self.outer):        # the handler belongs to a caller of the inlined helper
                here = (self.scope, self.modname, self.cls, self.s_Return, self.inline_stack, self.fn_nodes, self.inline_ret)
                o = self.outer[tr["depth"]]
                self.scope, self.modname, self.cls, self.s_Return = dict(o["scope"]), o["modname"], o["cls"], o["ret"]
                self.inline_stack, self.fn_nodes, self.inline_ret = [x[:n] for x, n in zip(here[4:], o["sizes"])]
                self.outer, saved_outer = self.outer[:tr["depth"]], self.outer
            self.bind_exc(h)
            if not self.block(h["body"]):
                raise Unsupported("handler falls through")
            self.closers = cl
            if here is not None:
                self.scope, self.modname, self.cls, self.s_Return, self.inline_stack, self.fn_nodes, self.inline_ret = here
                self.outer = saved_outer
            self.scope = sc
            self.trys = saved
            return False
        self.emit("proof { %s = %d; }" % (tr["flag"], EXC[exc]))
        tr["used"] = True
        tr["sets"] += 1
        self.mut_events.append(tr["flag"])
        return True

    def bind_exc(self, h):
        """the caught exception object: nothing is known of it"""
        if h["name"] and "PyExc" in self.reg.structs:
            self.scope[h["name"]] = E(self.call_raw("any_value::<PyExc>", [], T.obj("PyExc")) + "@", T.obj("PyExc"))

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        """Returns True if control cannot reach the end."""
        self.closers.append(0)
        ended = False
        self.nblock += 1
        path, self.path = self.path, self.path + (self.nblock,)
        for s in taken_out(stmts):
            if ended:
                break           # unreachable code is never executed
            ended = self.stmt(s)
        self.path = path
        n = self.closers.pop()
        for _ in range(n):
            self.ind -= 1
            self.emit("}")
        self.normal_end = ended      # no way past the end without an exception in flight
        return ended if n == 0 else False

    def stmt(self, s):
        frame = self.frames[-1] if self.frames and not isinstance(s, ast.Return) else None
        before = list(frame or [])
        ended = self.one_stmt(s)
        if frame is not None:            # what the statement evaluated is used
            frame[:] = [x for x in frame if any(x is y for y in before)]
        return ended

    def one_stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.fail(s, "statement %s" % type(s).__name__)
        before = [tr["sets"] for tr in self.trys]
        depth = len(self.trys)
        ended = m(s) or False
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try)) and not ended and self.trys:
            used = [tr for tr, b in zip(self.trys, before) if tr["sets"] > b]
            if used:
                self.emit("if test(Ghost((%s))) {" % " && ".join("%s == 0" % tr["flag"] for tr in used))
                self.ind += 1
                self.closers[-1] += 1
        return ended

    def s_Pass(self, s):
        pass

    def s_Assert(self, s):
        c = self.cond(s.test)
        if getattr(s, "same_bound", False):
            return self.oblige(c, "the bound of the counting loop keeps its value")
        self.may_raise("AssertionError", "!(%s)" % c, "assert")

    def s_Import(self, s):
        self.fail(s, "import inside a function")
    s_ImportFrom = s_Import

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Yield):
            return self.do_yield(v)
        if isinstance(v, ast.YieldFrom):
            return self.do_yield_from(v)
        e = self.expr(v, discard=True)

    def s_Return(self, s):
        if self.is_gen:
            if s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                self.fail(s, "generator returns a value")
            self.do_return(None, s)
            return True
        self.do_return(s.value, s)
        return True

    def do_return(self, value, node):
        if self.is_gen or self.c.ctor:
            self.emit_return(None, 0, normal=True)
            return
        if value is None and find(self.c.returns).k not in ("none", "opt"):
            self.oblige("false", "the end is not reached without a result")
            self.emit_return(E("arbitrary()", self.c.returns), 0, normal=True)
            return
        if value is None:
            e = E("()", NONE)
        else:
            e = self.expr(value, want=self.c.returns)
        e = self.coerce(e, self.c.returns, node)
        if e.place is not None and T.mutable(e.ty):
            self.alias("return", e, node)
        self.emit_return(e, 0, normal=True)

    def emit_return(self, e, exc, normal=False):
        comps = self.ret_components()
        vals = []
        for n, t in comps:
            if n == "result":
                if not normal:
                    vals.append("arbitrary()")
                elif self.is_gen:
                    vals.append("out")
                elif self.c.ctor:
                    vals.append("self_")
                else:
                    vals.append(e.code)
            elif n == "exc":
                vals.append(str(exc))
            else:
                vals.append(mangle(n))
        r = self.fresh("r")
        self.emit("let ghost %s: %s = %s;" % (r, rs(comps[0][1]), vals[0]))
        if normal:
            self.hook("return", {"result": r})
        else:
            self.hook("raise")
        if self.c.interfere and normal:
            for nm, t in self.c.done.items():
                self.emit("assert(%s);" % self.spec(t), self.lab("when exhausted: " + nm))
        vals[0] = r
        if normal and self.asm.smoke:
            self.emit("assert(false);", "smoke:" + self.c.key)
        self.emit("return Ghost((%s,));" % ", ".join(vals))

    def s_Raise(self, s):
        if s.exc is None:
            self.fail(s, "bare raise")
        x = s.exc
        if isinstance(x, ast.Call):
            for a in x.args:
                free = [y.id for y in ast.walk(a) if isinstance(y, ast.Name) and y.id not in self.scope]
                free = [y for y in free if any(isinstance(z, ast.Name) and z.id == y and isinstance(z.ctx, ast.Store) for z in ast.walk(self.fn_nodes[-1]))]
                if free:                  # a handler that runs before the variable got its value
                    self.oblige("false", "%s is bound" % free[0])
                elif not isinstance(a, ast.Constant):
                    self.expr(a)          # its evaluation must not raise something else
            x = x.func
        if not isinstance(x, ast.Name) or x.id not in EXC:
            self.fail(s, "raise %s" % ast.unparse(s.exc))
        self.raise_now(x.id)
        return True

    def s_If(self, s):
        st = self.static_bool(s.test)
        if st is not None:
            return self.block_inline(s.body if st else s.orelse)
        c = self.cond(s.test)
        self.emit("if test(Ghost((%s))) {" % c)
        self.ind += 1
        sc = dict(self.scope)
        self.narrow(s.test, True)
        e1 = self.block(s.body)
        sc1 = self.scope
        self.ind -= 1
        self.scope = dict(sc)
        e2 = False
        self.emit("} else {")
        self.ind += 1
        self.narrow(s.test, False)
        if s.orelse:
            e2 = self.block(s.orelse)
        self.ind -= 1
        self.emit("}")
        self.scope = self.merge(sc, sc1 if not e1 else None, self.scope if not e2 else None)
        return e1 and e2

    def block_inline(self, stmts):
        for s in stmts:
            if self.stmt(s):
                return True
        return False

    def static_bool(self, test):
        if isinstance(test, ast.Constant):
            return bool(test.value)
        return None

    def merge(self, base, a, b):
        if a is None:
            return b if b is not None else base
        if b is None:
            return a
        out = {}
        for n in set(a) | set(b):
            x, y = a.get(n), b.get(n)
            if x is not None and y is not None and x.code != y.code:
                x, y = self.widened(x, y), self.widened(y, x)
            if x is None:
                out[n] = y
            elif y is None:
                out[n] = x
            elif x is y or (x.code == y.code and x.static is None and y.static is None):
                out[n] = self.unnarrow(base.get(n), x, y)
            else:
                if x.static is None and y.static is None and {find(x.ty).k, find(y.ty).k} == {"str", "list"} and n not in self.iterables:
                    self.iterables.add(n)        # text or a list of texts: only iterated over
                    raise Restart()
                if x.static is None and y.static is None and "none" in (find(x.ty).k, find(y.ty).k):
                    self.optional(n, y if find(x.ty).k == "none" else x)
                out[n] = E("?", NONE, static=("conflict", n))
        return out

    @staticmethod
    def widened(x, y):
        """A narrowed optional next to the same variable as it was before"""
        def whole(e):
            return e.extra[1] if isinstance(e.extra, tuple) and e.extra and e.extra[0] == "narrowed" else e
        return whole(x) if whole(x).code == whole(y).code and x.static is None and y.static is None else x

    @staticmethod
    def unnarrow(orig, x, y):
        if find(x.ty).k == find(y.ty).k:
            return x
        if orig is not None:
            return orig
        return x

    def narrow(self, test, sense):
        """x is None / x is not None / x: refine the type of optional x."""
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg, t = not neg, t.operand
        name = None
        nonnull = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                name, nonnull = t.left.id, False
            elif isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                name, nonnull = t.left.id, True
        elif isinstance(t, ast.Name):
            name, nonnull = t.id, True
            if neg == sense:      # truthiness false does not imply None, but true implies not None
                return
        if name is None and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and t.func.id not in self.scope \
                and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id in self.scope:
            return self.narrow_class(t, neg != sense)
        if name is None or name not in self.scope:
            return
        e = self.scope[name]
        if e.static is None and find(e.ty).k == "opt" and (nonnull ^ neg) == sense:
            inner = find(e.ty).a[0]
            self.scope[name] = E("%s->Some_0" % e.code, inner, None, None, extra=("narrowed", e))

    def narrow_class(self, t, sense):
        """isinstance(x, C) for an x of one of several classes"""
        e = self.scope[t.args[0].id]
        if e.static is not None or not find(e.ty).k.startswith("obj:") or find(e.ty).k[4:] not in self.reg.unions:
            return
        u = find(e.ty).k[4:]
        is_ = self.instance_of(t, u)
        left = is_ if sense else [m for m in self.reg.unions[u] if m not in is_]
        if len(left) == 1:
            self.scope[t.args[0].id] = E("%s->%s_0" % (e.code, left[0]), T.obj(left[0]), None, None, extra=("narrowed", e))

    def s_Assign(self, s):
        if len(s.targets) != 1:
            # a = b = value : immutable values only
            v = self.expr(s.value)
            if T.mutable(v.ty):
                self.fail(s, "chained assignment of a mutable value")
            for t in s.targets:
                self.assign(t, v, s)
            return
        t = s.targets[0]
        want = None
        if isinstance(t, ast.Name) and t.id in self.scope and self.scope[t.id].static is None \
                and not isinstance(self.scope[t.id].extra, tuple):
            want = self.scope[t.id].ty
            if find(want).k == "none":
                want = None
        elif isinstance(t, ast.Name) and not self.in_inline() and not self.c.is_gen and t.id in self.returned_names():
            # an empty container that the function returns
            kinds = {"{}": "dict", "dict()": "dict", "[]": "list", "list()": "list", "set()": "set"}
            if kinds.get(ast.unparse(s.value)) == find(self.c.returns).k:
                want = self.c.returns
        if isinstance(t, ast.Name) and want is None and not self.in_inline() and t.id in self.c.kinds:
            want = self.c.kinds[t.id]
        self.apart = isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, ast.Tuple)
        v = self.expr(s.value, want=want)
        if isinstance(t, ast.Name):
            v = self.opaqued(v, s)
        self.assign(t, v, s)

    def returned_names(self):
        if not hasattr(self, "_returned"):
            self._returned = {x.value.id for x in ast.walk(self.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
        return self._returned

    def s_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.expr(s.value)
        self.assign(s.target, v, s)

    def setvar(self, name, v, node):
        """Bind python variable name to value v."""
        if self.shared(name) and not self.in_inline():
            self.fail(node, "the shared parameter %s is bound again" % name)
        if name in self.iterables and not self.in_inline():
            v = self.coerce(v, T.gen(STR), node)
        if name in self.optionals and not self.in_inline() and v.static is None and (find(v.ty).k == "none" or T.same(v.ty, self.optionals[name])):
            v = self.coerce(v, T.opt(self.optionals[name]), node)
        if v.static is not None:
            if v.static[0] in ("igen", "igens"):
                self.gen_use(name, False, node)
            if self.loops and name in self.scope and self.scope[name].static is None:
                self.fail(node, "variable %s changes kind in a loop" % name)
            self.scope[name] = E(v.code, v.ty, None, v.static, v.extra)
            if find(v.ty).k == "int" and v.static[0] == "dyn":
                m = self.newlocal(mangle(name), INT)
                self.emit("proof { %s = %s; }" % (m, v.code))
                self.scope[name] = E(m, INT, Place(m), v.static)
            return
        cur = self.scope.get(name)
        if cur is not None and isinstance(cur.extra, tuple) and cur.extra and cur.extra[0] == "narrowed":
            cur = cur.extra[1]
        if cur is not None and cur.static is None and find(cur.ty).k == "none" and self.loops:
            self.optional(name, v)
        if cur is not None and cur.static is None:
            if cur.place is not None and cur.code == cur.place.root and not cur.place.steps:
                if not T.same(cur.ty, v.ty):
                    k = find(cur.ty).k
                    if k == "float" and find(v.ty).k == "int" and self.loops:
                        v = self.coerce(v, cur.ty, node)
                    elif k == "opt" and T.fits(v.ty, find(cur.ty).a[0]):
                        v = self.coerce(v, cur.ty, node)
                    elif k == "opt" and T.same(find(cur.ty).a[0], v.ty) or k == "opt" and find(v.ty).k == "none":
                        v = self.coerce(v, cur.ty, node)
                    elif k == "vtuple" and find(v.ty).k == "list" and v.place is None \
                            and T.same(find(cur.ty).a[0], find(v.ty).a[0]):
                        unify(find(cur.ty).a[0], find(v.ty).a[0])
                        v = E(v.code, cur.ty)        # a fresh list that is only read from here on
                    else:
                        cur = None
                if cur is not None and name in self.param_ty and mangle(name) == cur.code and name not in self.copied \
                        and name not in self.c.modifies and not self.in_inline():
                    self.copied.add(name)
                    raise Restart()
            else:
                cur = None
        elif cur is not None and cur.static is not None:
            cur = None
        if cur is None:
            base = mangle(name)
            if base in self.locals or base in [mangle(p) for p in self.param_ty] or base in ("it", "ix"):
                if base in self.locals and name not in self.scope and T.same(self.locals[base], v.ty):
                    m = base
                elif base in self.locals and T.same(self.locals[base], v.ty) and not self.base_live(base):
                    m = base
                else:
                    m = self.variant_name(base, v.ty)
            else:
                m = base
            self.locals.setdefault(m, v.ty)
            unify(self.locals[m], v.ty)
            cur = E(m, self.locals[m], Place(m))
        else:
            unify(cur.ty, v.ty)
        isgen = find(v.ty).k == "gen"
        if isgen:
            self.gen_use(name, True, node)
            x = v.extra if isinstance(v.extra, dict) else {}
            if x.get("genmods") or x.get("borrowed"):
                self.fail(node, "a variable holds a generator with effects")
            if v.place is not None:
                self.fail(node, "two variables for one generator")
            if x.get("genroots"):
                self.gen_vars.append((cur.code, x["genroots"], len(self.mut_events), bool(self.loops)))
        self.mut_rebind(cur.code)
        if not isgen and v.place is not None and T.mutable(v.ty):
            self.alias(cur.code, v, node)
        if isinstance(v.extra, dict) and "ddefault" in v.extra:
            if self.ddefaults.setdefault(cur.code, v.extra["ddefault"]) != v.extra["ddefault"]:
                self.fail(node, "two default factories for one variable")
        if v.code != cur.code:
            self.emit("proof { %s = %s; }" % (cur.code, v.code))
        if isgen:
            self.locals[cur.code + "__pos"] = INT
            self.emit("proof { %s__pos = 0; }" % cur.code)
            self.mut_rebind(cur.code + "__pos")
        self.scope[name] = cur
        self.hook("assign:" + name)

    def gen_use(self, name, tracked, node):
        why = lazy.problem(self.fn_nodes[-1], name, tracked)
        if why:
            self.fail(node, why)

    def rest(self, e):
        """what a generator variable has not yielded yet"""
        if e.static is None and e.place is not None and not e.place.steps and e.code == e.place.root and e.code + "__pos" in self.locals:
            return E("%s.subrange(%s__pos, %s.len() as int)" % (e.code, e.code, e.code), e.ty, None, None, e.extra)
        return e

    def optional(self, name, v):
        """None at first, something else later"""
        t = find(v.ty)
        if v.static is None and t.k not in ("none", "?", "gen") and name not in self.optionals and not self.in_inline() and not T.mutable(t):
            self.optionals[name] = t
            raise Restart()

    def variant_name(self, base, ty):
        i = 2
        while True:
            m = "%s__v%d" % (base, i)
            if m not in self.locals:
                return m
            if T.same(self.locals[m], ty) and not self.base_live(m):
                return m
            i += 1

    def base_live(self, rust):
        return any(e.static is None and e.code == rust for e in self.scope.values())

    def in_inline(self):
        return len(self.inline_stack) > 1

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), node)
            # evaluate all parts before binding (the source may be rebound)
            safe = []
            for p in parts:
                if p.static is None and len(parts) > 1:
                    n = self.newlocal("u", p.ty)
                    self.emit("proof { %s = %s; }" % (n, p.code))
                    safe.append(E(n, p.ty, p.place))
                else:
                    safe.append(p)
            for x, p in zip(t.elts, safe):
                self.assign(x, p, node)
        elif isinstance(t, ast.Subscript):
            self.store_subscript(t, v, node)
        elif isinstance(t, ast.Attribute):
            base = self.beside([v], self.expr, t.value)
            st, fld = self.field(base, t.attr, node)
            v = self.coerce(v, fld[2], node)
            if base.place is None:
                self.fail(node, "assignment to attribute of a temporary")
            spot = base.place.ext(("attr", fld[1], st.name))
            # what was there before is overwritten by (a part of) itself
            if v.place is not None and T.mutable(v.ty) and (v.place.root, list(v.place.steps[:len(spot.steps)])) != (spot.root, list(spot.steps)):
                self.alias(base.place.root, v, node, len(base.place.steps) + 1)
            self.write(spot, v.code, node)
        else:
            self.fail(node, "assignment target")

    def unpack(self, v, n, node):
        t = find(v.ty)
        if v.static is not None:
            parts = self.static_elements(v, node)
            if parts is None or len(parts) != n:
                self.fail(node, "unpacking")
            return parts
        if t.k == "tuple":
            if len(t.a) != n:
                self.fail(node, "unpacking arity")
            st = v.extra.get("parts", {}) if isinstance(v.extra, dict) else {}
            if isinstance(v.extra, dict) and "els" in v.extra:
                return v.extra["els"]
            return [E("%s.%d" % (v.code, i), t.a[i],
                      v.place.ext(("tup", i)) if v.place and i not in st else None, ("dyn", st[i]) if i in st else None) for i in range(n)]
        if t.k in ("list", "vtuple"):
            self.may_raise("ValueError", "%s.len() != %d" % (v.code, n), "unpacking")
            return [E("%s[%d]" % (v.code, i), t.a[0],
                      v.place.ext(("seq", str(i))) if v.place else None) for i in range(n)]
        if t.k in ("set", "fset"):
            c = self.call_raw("enum_set", [v.code], T.lst(t.a[0])) + "@"
            self.may_raise("ValueError", "%s.len() != %d" % (c, n), "unpacking")
            return [E("%s[%d]" % (c, i), t.a[0]) for i in range(n)]
        if self.is_record(t):
            st = self.reg.structs[t.k[4:]]
            self.check_namedtuple(self.class_of_struct(st), st, node)
            if len(st.fields) != n:
                self.fail(node, "unpacking arity")
            return [self.attribute(v, f[0], node) for f in st.fields]
        self.fail(node, "unpacking of %r" % t)

    def write(self, place, code, node, depth=None):
        """depth: how deep inside its root the object that changes is, if not the object at that place"""
        """Place := code, functionally."""
        self.check_writable(place.root, node)
        self.mut_events.append(Mut(place.root, len(place.steps) if depth is None else depth))
        self.emit("proof { %s = %s; }" % (place.root, place.updated(code)))
        self.hook("mut:" + place.root)

    def check_writable(self, root, node):
        for n, t in self.param_ty.items():
            if mangle(n) == root and n not in self.c.modifies:
                if T.mutable(t):
                    self.fail(node, "parameter %s is modified but not in the contract's frame" % n)
                if n not in self.copied:
                    self.copied.add(n)
                    raise Restart()
        if root not in self.locals:
            self.fail(node, "cannot modify %s" % root)

    def mut_rebind(self, root):
        self.mut_events.append("=" + root)

    def store_subscript(self, t, v, node):
        base = self.beside([v], self.expr, t.value)
        bt = find(base.ty)
        if bt.k.startswith("obj:"):
            self.method_call(base, "__setitem__", [self.expr(t.slice), v], {}, node)
            return
        if base.place is None:
            self.fail(node, "item assignment on a temporary")
        if bt.k == "list" and isinstance(t.slice, ast.Slice):
            if v.place is not None and v.place.root == base.place.root:
                self.fail(node, "a slice assigned from a part of the same object")
            code, et = self.seq_of(v, node)
            unify(bt.a[0], et)
            if v.place is not None and T.mutable(et):
                self.alias(base.place.root, v, node, len(base.place.steps) + 1)
            self.write(base.place, self.without(base, t.slice, node, ".add(%s)" % code), node)
        elif bt.k == "list":
            i = self.beside([v, base], self.index, t.slice, base, node)
            v = self.coerce(v, bt.a[0], node)
            if v.place is not None and T.mutable(v.ty):
                self.alias(base.place.root, v, node, len(base.place.steps) + 1)
            self.write(base.place.ext(("seq", i)), v.code, node, len(base.place.steps))
        elif bt.k in ("dict", "ddict"):
            k = self.coerce(self.beside([v, base], self.expr, t.slice, want=bt.a[0]), bt.a[0], node)
            v = self.coerce(v, bt.a[1], node)
            if v.place is not None and T.mutable(v.ty):
                self.alias(base.place.root, v, node, len(base.place.steps) + 1)
            self.write(base.place.ext(("map", k.code)), v.code, node, len(base.place.steps))
        else:
            self.fail(node, "item assignment on %r" % bt)

    def without(self, base, sl, node, put):
        """base with the part sl replaced"""
        if sl.step is not None:
            self.fail(node, "slice step")
        n = "%s.len() as int" % base.code
        lo = "slice_idx(%s, %s)" % (self.coerce(self.expr(sl.lower), INT, node).code, n) if sl.lower is not None else "0int"
        hi = "slice_idx(%s, %s)" % (self.coerce(self.expr(sl.upper), INT, node).code, n) if sl.upper is not None else "(%s)" % n
        if hi == "(%s)" % n:
            return "py_slice(%s, 0int, %s)%s" % (base.code, lo, put)
        return "py_slice(%s, 0int, %s)%s.add(py_slice(%s, if %s < %s { %s } else { %s }, %s))" % (base.code, lo, put, base.code, hi, lo, lo, hi, n)

    def s_AugAssign(self, s):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.expr(load)
        ct = find(cur.ty)
        r = self.beside([cur], self.expr, s.value)
        if ct.k == "list" and isinstance(s.op, ast.Add):
            # in-place extend
            self.builtin_mut(cur, "extend", [r], s)
            return
        if ct.k in ("set",) and not isinstance(s.op, ast.Add):
            nm = {ast.Sub: "difference_update", ast.BitOr: "update", ast.BitAnd: "intersection_update"}.get(type(s.op))
            if nm is None or find(r.ty).k not in ("set", "fset"):
                self.fail(s, "augmented assignment on a set")
            self.builtin_mut(cur, nm, [r], s)
            return
        v = self.binop(type(s.op), cur, r, s)
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, s)
        elif cur.place is not None:
            v = self.coerce(v, cur.ty, s)
            self.write(cur.place, v.code, s)
        else:
            self.assign(t, v, s)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.expr(t.value)
                bt = find(base.ty)
                if bt.k == "dict" and base.place is not None:
                    k = self.coerce(self.expr(t.slice), bt.a[0], s)
                    self.may_raise("KeyError", "!%s.dom().contains(%s)" % (base.code, k.code), "del")
                    self.write(base.place, "%s.remove(%s)" % (base.code, k.code), s)
                    continue
                if bt.k == "list" and base.place is not None and isinstance(t.slice, ast.Slice):
                    self.write(base.place, self.without(base, t.slice, s, ""), s)
                    continue
                if bt.k == "list" and base.place is not None:
                    i = self.index(t.slice, base, s)
                    self.write(base.place, "%s.remove(%s)" % (base.code, i), s)
                    continue
            self.fail(s, "del")

    def s_Try(self, s):
        if s.finalbody:
            self.fail(s, "finally")
        self.ntry += 1
        flag = "exc__%d" % self.ntry
        rec = dict(handlers=[], flag=flag, loopdepth=len(self.loops), used=False, sets=0, depth=len(self.outer))
        for h in s.handlers:
            names = set()
            if h.type is None:
                names = None
            else:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    nm = ast.unparse(x)
                    if nm in EXC_PARENTS:
                        names |= EXC_PARENTS[nm]
                    elif nm in EXC:
                        names.add(nm)
                    else:
                        self.fail(s, "handler for %s" % nm)
            rec["handlers"].append(dict(names=names, body=h.body, inline=always_exits(h.body), name=h.name))
        self.locals[flag] = INT
        self.emit("proof { %s = 0; }" % flag)
        self.trys.append(rec)
        at = len(self.lines)
        ended = self.block(s.body)
        nended = self.normal_end
        self.trys.pop()
        if s.orelse and not ended:
            if rec["used"]:
                self.emit("if test(Ghost(%s == 0)) {" % flag)
                self.ind += 1
            e2 = self.block(s.orelse)
            if rec["used"]:
                self.ind -= 1
                self.emit("}")
            else:
                ended = e2
            nended = self.normal_end
        if rec["used"]:
            allend = not self.trys
            for h in rec["handlers"]:
                cond = "%s != 0" % flag if h["names"] is None else " || ".join(
                    "%s == %d" % (flag, EXC[n]) for n in sorted(h["names"]))
                self.emit("if test(Ghost((%s))) {" % cond)
                self.ind += 1
                sc = dict(self.scope)
                self.bind_exc(h)
                eh = self.block(h["body"])
                self.scope = sc if eh else self.merge(sc, sc, self.scope)
                allend = allend and eh
                self.ind -= 1
                self.emit("}")
            if nended and allend:
                # every path has returned; Rust cannot see it
                self.emit("assert(false);", self.lab("try:exhaustive"))
                self.emit("return Ghost(arbitrary());")
                return True
            return False
        return ended

    # ------------------------------------------------------------------ loops
    def s_Break(self, s):
        lp = self.loops[-1]
        self.emit("proof { %s = true; }" % lp["brk"])
        lp["broke"] = True
        self.loop_end(lp, True)
        self.emit("continue;")
        return True

    def s_Continue(self, s):
        self.loop_end(self.loops[-1])
        self.emit("continue;")
        return True

    def loop_end(self, lp, leaving=False):
        self.emit_proof(lp["spec"].end, "loop%d:end" % lp["no"])
        if not leaving:
            for _, _, t, q in lp.get("steps", []):
                self.emit("assert(%s);" % t, self.lab("loop%d: keeps to what %s relies on" % (lp["no"], q)))

    def loop_spec(self):
        from .contract import Loop
        k = self.loopno
        self.loopno += 1
        specs = self.c.loops
        return k, (specs[k] if k < len(specs) else Loop())

    def exc_guard(self):
        """flags of enclosing try regions that may be set inside the current loop"""
        return ["%s == 0" % tr["flag"] for tr in self.trys]

    def s_While(self, s):
        k, sp = self.loop_spec()
        rr0 = len(self.read_roots)
        brk = "brk%d" % k
        self.locals[brk] = BOOL
        self.emit("proof { %s = false; }" % brk)
        self.emit_proof(sp.before, "loop%d:before" % k)
        entry_scope = dict(self.scope)
        at = len(self.lines)
        simple = None
        mark = len(self.lines)
        # evaluate the condition once to see whether it is pure
        snap = (list(self.lines), self.tmp, self.ncall)
        const = self.static_bool(s.test)
        if const is not None:
            simple = "true" if const else "false"
        else:
            c = self.cond(s.test)
            if len(self.lines) == mark:
                simple = c
            else:
                self.lines, self.tmp, self.ncall = snap
        lp = dict(no=k, brk=brk, spec=sp, broke=False, ev0=len(self.mut_events), ev1=None, rr0=rr0,
                  jumps=any(isinstance(x, (ast.Continue, ast.Break)) for b in s.body for x in ast.walk(b)))
        guards = ["!%s" % brk] + self.exc_guard()
        head_at = len(self.lines)
        if simple is not None:
            self.emit("while test(Ghost((%s)))" % " && ".join(guards + ["(%s)" % simple]))
        else:
            stop = "stop%d" % k
            self.locals[stop] = BOOL
            self.emit("proof { %s = false; }" % stop)
            self.emit("while test(Ghost((%s)))" % " && ".join(guards + ["!%s" % stop]))
        self.emit_invs(sp, k, self.rely_invs(s.body, k))
        self.emit("{")
        self.ind += 1
        self.loops.append(lp)
        if simple is None:
            c = self.cond(s.test)
            self.emit("if test(Ghost(!(%s))) { proof { %s = true; } continue; }" % (c, stop))
        self.emit_proof(sp.start, "loop%d:start" % k)
        ended = self.block(s.body)
        if not ended:
            self.loop_end(lp)
        self.loops.pop()
        lp["ev1"] = len(self.mut_events)
        self.ind -= 1
        self.emit("}")
        self.scope_after_loop(entry_scope)
        self.after_loop(s, sp, k, brk)
        # 'while True' without break never falls through
        if const is True and not lp["broke"] and not self.trys:
            if len(guards) == 1:
                self.lines[head_at] = (self.lines[head_at][0].split("while")[0] + "loop", self.lines[head_at][1])
            return True

    def scope_after_loop(self, entry):
        # names bound in the loop stay visible (possibly unassigned in Python)
        cur = self.scope
        self.scope = {}
        for n in set(entry) | set(cur):
            if n in entry and n in cur:
                a, b = entry[n], cur[n]
                if a is b or (a.code == b.code and a.static == b.static):
                    self.scope[n] = a
                elif isinstance(b.extra, tuple) and b.extra and b.extra[0] == "narrowed":
                    self.scope[n] = a
                else:
                    self.scope[n] = E("?", NONE, static=("conflict", n))
            else:
                self.scope[n] = cur.get(n, entry.get(n))

    def emit_invs(self, sp, k, auto, is_for=False):
        invs = list(auto)
        for name, x in sp.inv.items():
            invs.append((self.spec(x), self.lab("loop%d:inv:%s" % (k, name))))
        if invs:
            self.emit("    invariant")
            for x, lab in invs:
                self.emit("        (%s)," % x.replace("\n", " "), lab)
        if sp.decreases is None and is_for:
            self.emit("    decreases it%d.len() - ix%d" % (k, k), self.lab("loop%d:decreases" % k))
        elif sp.decreases:
            self.emit("    decreases %s" % self.spec(sp.decreases), self.lab("loop%d:decreases" % k))

    def after_loop(self, s, sp, k, brk):
        self.emit_proof(sp.after, "loop%d:after" % k)
        if s.orelse:
            self.emit("if test(Ghost((%s))) {" % " && ".join(["!%s" % brk] + self.exc_guard()))
            self.ind += 1
            sc = dict(self.scope)
            e = self.block(s.orelse)
            self.scope = sc if e else self.merge(sc, sc, self.scope)
            self.ind -= 1
            self.emit("}")

    # -- loops that only collect are the comprehension they spell out ---------
    def snapshot(self):
        return dict(nl=len(self.lines), ind=self.ind, locals=dict(self.locals), scope=dict(self.scope), tmp=self.tmp,
                    ncall=self.ncall, loopno=self.loopno, binders=list(self.binders), me=len(self.mut_events), fr=[list(f) for f in self.frames], rf=len(self.refilled),
                    ae=len(self.alias_events), gv=len(self.gen_vars), rr=len(self.read_roots), callees=set(self.callees),
                    closers=list(self.closers), ntry=self.ntry, stack=list(self.inline_stack), nodes=list(self.fn_nodes), mod=self.modname, cls=self.cls,
                    sets=[tr["sets"] for tr in self.trys], loops=list(self.loops), trys=list(self.trys))

    def rollback(self, k):
        for i, e, code in reversed(self.refilled[k["rf"]:]):
            e.code = code
            if i < k["nl"]:
                self.lines[i] = ("", None)
        del self.refilled[k["rf"]:]
        self.frames = k["fr"]
        del self.lines[k["nl"]:]
        self.ind, self.locals, self.scope, self.tmp = k["ind"], k["locals"], k["scope"], k["tmp"]
        self.ncall, self.loopno, self.binders, self.callees = k["ncall"], k["loopno"], k["binders"], k["callees"]
        del self.mut_events[k["me"]:]
        del self.alias_events[k["ae"]:]
        self.alias_scopes = {i: v for i, v in self.alias_scopes.items() if i < k["ae"]}
        del self.gen_vars[k["gv"]:]
        del self.read_roots[k["rr"]:]
        self.closers, self.ntry, self.inline_stack = k["closers"], k["ntry"], k["stack"]
        self.fn_nodes = k["nodes"]
        self.modname, self.cls, self.loops, self.trys = k["mod"], k["cls"], k["loops"], k["trys"]
        for tr, n in zip(self.trys, k["sets"]):
            tr["sets"] = n

    def collect_nest(self, s):
        """for / if nest around one leaf statement -> (generators, leaf) or None"""
        gens = []

        def body(stmts, env):
            stmts = [x for x in stmts if not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(
                x.value, ast.Constant))]
            if not stmts:
                return None
            x = stmts[0]
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and len(stmts) > 1:
                nm = x.targets[0].id
                if any(isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Store)
                       for z in stmts[1:] for y in ast.walk(z)):
                    return None
                env = dict(env)
                env[nm] = replace_names(x.value, env)
                locs.append(nm)
                return body(stmts[1:], env)
            if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Continue) \
                    and len(stmts) > 1:
                gens[-1].ifs.append(ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=replace_names(x.test, env)), x))
                return body(stmts[1:], env)
            if isinstance(x, ast.If) and x.orelse and len(x.body) == 1 and isinstance(x.body[0], (ast.Continue, ast.Pass)) \
                    and (len(stmts) == 1 or isinstance(x.body[0], ast.Continue)):
                gens[-1].ifs.append(ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=replace_names(x.test, env)), x))
                return body(x.orelse + stmts[1:], env)
            if len(stmts) != 1:
                rc = ret_cond(stmts, env)
                if rc is None:
                    return None
                x = ast.copy_location(ast.If(test=rc[0], body=[rc[1]], orelse=[]), x)
                env = {}
            if isinstance(x, ast.If) and x.orelse and len(x.orelse) == 1 and isinstance(x.orelse[0], (ast.Continue, ast.Pass)):
                gens[-1].ifs.append(replace_names(x.test, env))
                return body(x.body, env)
            if isinstance(x, ast.If) and not x.orelse:
                gens[-1].ifs.append(replace_names(x.test, env))
                return body(x.body, env)
            if isinstance(x, ast.For) and not x.orelse:
                return loop(x, env)
            if isinstance(x, (ast.Expr, ast.Return, ast.AugAssign, ast.Assign)):
                return replace_names(x, env)
            return None

        def ret_cond(stmts, env):
            """Statements that do nothing but `return constant` under conditions: (condition, the return)."""
            alts, leaf = [], None
            env = dict(env)
            for x in stmts:
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    env[x.targets[0].id] = replace_names(x.value, env)
                    locs.append(x.targets[0].id)
                    continue
                if isinstance(x, ast.Return):
                    sub = (ast.Constant(value=True), x)
                elif isinstance(x, ast.If) and not x.orelse:
                    sub = ret_cond(x.body, env)
                    if sub is None:
                        return None
                    sub = (ast.BoolOp(op=ast.And(), values=[replace_names(x.test, env), sub[0]]), sub[1])
                else:
                    return None
                if not (sub[1].value is None or isinstance(sub[1].value, ast.Constant)):
                    return None
                if leaf is not None and ast.dump(leaf) != ast.dump(sub[1]):
                    return None
                leaf = sub[1]
                alts.append(sub[0])
            if leaf is None:
                return None
            return ast.BoolOp(op=ast.Or(), values=alts) if len(alts) > 1 else alts[0], leaf

        def loop(f, env):
            tn = target_names(f.target)
            if tn & set(env):
                return None
            gens.append(ast.comprehension(target=f.target, iter=replace_names(f.iter, env), ifs=[], is_async=0))
            locs.extend(tn)
            return body(f.body, env)
        locs = []
        if s.orelse:
            return None
        leaf = loop(s, {})
        if leaf is None:
            return None
        return gens, leaf, set(locs)

    def discard_leaf(self, leaf, names):
        """S.discard(e), S -= {e}"""
        v = leaf.value if isinstance(leaf, ast.Expr) else None
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
            and v.func.attr == "discard" and len(v.args) == 1 and not v.keywords and v.func.value.id in self.scope \
            and v.func.value.id not in names

    def collect(self, s):
        """Try to translate the loop as one comprehension; True when done ('exit' handled by the caller)."""
        c = self.collect_nest(s)
        if c is None:
            return None
        gens, leaf, names = c

        def uses(n, what):
            return any(isinstance(x, ast.Name) and x.id == what for x in ast.walk(n))

        def comp(elt):
            mark = len(self.lines)
            code, et, pl = self.comp(elt, gens, s)
            if pl is not None:
                raise Unsupported("existing objects collected")
            if any(l.strip().startswith("if test(") for l, _ in self.lines[mark:]):
                raise Unsupported("raising element")
            return code, et
        v = leaf.value if isinstance(leaf, (ast.Expr, ast.Return)) else None
        if isinstance(leaf, ast.Expr) and isinstance(v, ast.Yield) and v.value is not None and self.is_gen \
                and not self.in_inline() and not any(k in self.c.hooks for k in ("yield", "afteryield")):
            want = self.yield_type()
            code, et = comp(v.value)
            if not T.same(et, want):
                return None
            unify(et, want)
            self.pr("out = out.add(%s);" % code)
            self.mut_events.append("out")
        elif isinstance(leaf, ast.Expr) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and isinstance(v.func.value, ast.Name) and v.func.attr in ("append", "add") and len(v.args) == 1 \
                and not v.keywords and v.func.value.id in self.scope and v.func.value.id not in names \
                or self.discard_leaf(leaf, names):
            nm = v.func.value.id
            acc = self.scope[nm]
            if acc.static is not None or acc.place is None or any(uses(g, nm) for g in gens) or uses(v.args[0], nm):
                return None
            k = find(acc.ty)
            if k.k == "?":
                unify(k, T.lst(T.tv()) if v.func.attr == "append" else T.seta(T.tv()))
                k = find(acc.ty)
            if k.k != {"append": "list", "add": "set", "discard": "set"}[v.func.attr]:
                return None
            code, et = comp(v.args[0])
            if not T.same(et, k.a[0]):
                return None
            unify(et, k.a[0])
            self.write(acc.place, "%s.add(%s)" % (acc.code, code) if k.k == "list"
                       else "%s.%s(%s.to_set())" % (acc.code, "difference" if v.func.attr == "discard" else "union", code), s)
        elif isinstance(leaf, ast.Assign) and len(leaf.targets) == 1 and isinstance(leaf.targets[0], ast.Subscript) \
                and isinstance(leaf.targets[0].value, ast.Name) and leaf.targets[0].value.id in self.scope \
                and leaf.targets[0].value.id not in names:
            nm = leaf.targets[0].value.id
            acc = self.scope[nm]
            if acc.static is not None or acc.place is None or any(uses(g, nm) for g in gens) or uses(leaf.value, nm) \
                    or uses(leaf.targets[0].slice, nm):
                return None
            k = find(acc.ty)
            if k.k == "?":
                unify(k, T.dct(T.tv(), T.tv()))
                k = find(acc.ty)
            if k.k != "dict":
                return None
            code, et = comp(ast.copy_location(ast.Tuple(elts=[leaf.targets[0].slice, leaf.value], ctx=ast.Load()), leaf))
            et = find(et)
            if not T.same(et.a[0], k.a[0]) or not T.same(et.a[1], k.a[1]):
                return None
            unify(et.a[0], k.a[0])
            unify(et.a[1], k.a[1])
            self.write(acc.place, "map_add(%s, %s)" % (acc.code, code), s)
        elif isinstance(leaf, ast.AugAssign) and isinstance(leaf.op, ast.Add) and isinstance(leaf.target, ast.Name) \
                and leaf.target.id in self.scope and leaf.target.id not in names:
            nm = leaf.target.id
            acc = self.scope[nm]
            if acc.static is not None or find(acc.ty).k != "int" or any(uses(g, nm) for g in gens) or uses(leaf.value, nm):
                return None
            code, et = comp(leaf.value)
            if find(et).k != "int":
                return None
            code = "(%s.len() as int)" % code if isinstance(leaf.value, ast.Constant) and leaf.value.value == 1 \
                else "seq_sum(%s)" % code
            self.setvar(nm, E("(%s + %s)" % (acc.code, code), INT), s)
        elif isinstance(leaf, ast.Return) and not self.in_inline():
            test, x = self.search(gens, leaf, s)
            self.emit("if test(Ghost((%s))) {" % test)
            self.ind += 1
            if x is not None:
                self.scope["__found__"] = x
                v = ast.copy_location(ast.Name("__found__", ast.Load()), leaf)
            self.do_return(v, leaf)
            self.ind -= 1
            self.emit("}")
        else:
            return None
        for n in names:
            self.scope[n] = E("?", NONE, static=("conflict", n))
        return True

    def search(self, gens, leaf, s):
        """a loop that does nothing but return the first thing it finds -> (whether there is one, what it returns if not a constant)"""
        const = leaf.value is None or isinstance(leaf.value, ast.Constant)
        if const and len(gens) == 1 and not gens[0].ifs:
            src = self.expr(gens[0].iter)
            return "seq_any(%s)" % self.comp_source(src, s)[0], None
        mark = len(self.lines)
        code, et, pl = self.comp(ast.Constant(value=True) if const else leaf.value, gens, s)
        if pl is not None or any(l.strip().startswith("if test(") for l, _ in self.lines[mark:]):
            self.fail(s, "a search that returns an existing object or may raise")
        return "seq_any(%s)" % code, None if const else E("%s[0]" % code, et)

    def s_For(self, s):
        if not (self.c.interfere and has_yield(ast.Module(body=[s], type_ignores=[]))):
            snap = self.snapshot()
            try:
                if self.collect(s):
                    return
            except Unsupported:
                pass
            self.rollback(snap)
        self.live_call, self.iter_of = id(s) in self.live_loops, s
        src = self.expr(s.iter)
        self.live_call, self.iter_of = False, None
        if src.static is not None and src.static[0] in ("igen", "igens"):
            return self.for_igen(s, src)
        if len(s.body) == 1 and isinstance(s.body[0], ast.Break) and not s.orelse and src.static is None and find(src.ty).k in ("list", "vtuple", "set", "fset", "bag") \
                and not (src.place is not None and T.mutable(find(src.ty).a[0])):
            return self.first_of(s, src)
        return self.for_over(s, src)

    def first_of(self, s, src):
        """for x in xs: break"""
        code, ety, _, _ = self.iter_seq(src, s)
        it = self.newlocal("it", T.lst(ety))
        self.emit("proof { %s = %s; }" % (it, code))
        self.emit("if test(Ghost((seq_any(%s)))) {" % it)
        self.ind += 1
        sc = dict(self.scope)
        self.bind_target(s.target, E("%s[0]" % it, ety), s)
        self.ind -= 1
        self.emit("}")
        self.scope = self.merge(sc, self.scope, sc)

    def for_igen(self, s, src):
        """A loop over a generator that sees the changes the loop body makes to one of its arguments."""
        cases = []

        def add(cond, e):
            if e.static is None:
                # some cases were taken as lists, others as running generators
                if id(s) in self.live_loops:
                    self.fail(s, "a running generator mixed with others")
                self.live_loops.add(id(s))
                raise Restart
            if e.static[0] == "igen":
                cases.append((cond,) + e.static[1:])
            else:
                for c, x in e.static[1]:
                    add(c if cond is None else "(%s && %s)" % (cond, c), x)
        add(None, src)
        ety = find(cases[0][1].returns).a[0]
        auto, preds, nones, steps, frozen = [], [], [], [], set()
        outs = {}
        for cond, c, vals, gh in cases:
            mp = {x: v.code for p, v in vals for x in (p, mangle(p))}
            mp.update(dict(gh))
            for g, t in c.outs.items():
                n = outs.get(g)
                if n is None:
                    r = self.fresh("any")
                    n = outs[g] = "o%d_%s" % (self.loopno, g)
                    self.rawlocals[n] = t
                    self.emit("let %s: Ghost<%s> = any_value();" % (r, t))
                    self.pr("%s = %s@;" % (n, r))
                mp[g] = n
            imp = (lambda x, cond=cond: x) if cond is None else (lambda x, cond=cond: "(%s ==> (%s))" % (cond, x))
            for nm, r in c.requires.items():
                self.oblige(imp(subst(r, mp)), "%s requires %s" % (short(c.qual), nm))
            param = c.interfere["param"]
            texts = [c.interfere["rely"], c.interfere.get("step", "")] + list(c.yields.values()) + list(c.done.values())
            oldre = re.compile(r"\bold\(\s*(?:%s|%s)\s*\)" % (re.escape(param), re.escape(mangle(param))))
            if any(oldre.search(t) for t in texts):
                v = dict(vals)[param]
                snap = self.newlocal("atcall", v.ty)
                self.pr("%s = %s;" % (snap, v.code))
                texts_sub = lambda t, mp, snap=snap, oldre=oldre: subst(oldre.sub("\x04", t), mp).replace("\x04", snap)
            else:
                texts_sub = subst
            # every other `old(...)` in these texts would be the caller's own argument
            if any("old(" in oldre.sub("", t) for t in texts):
                self.fail(s, "old() of something else than the shared argument in the contract of %s" % c.qual)
            for p, v in vals:
                if p != c.interfere["param"] and v.place is not None:
                    frozen.add(v.place.root)
            auto.append((imp(texts_sub(c.interfere["rely"], mp)), self.lab("%s: the loop keeps to the rely condition" % short(c.qual))))
            for nm, t in c.yields.items():
                preds.append(imp(texts_sub(t, dict(mp, yielded="\x03"))))
            if "step" in c.interfere:
                v = dict(vals)[c.interfere["param"]]
                was = self.newlocal("was", v.ty)
                steps.append((was, v.code, imp(texts_sub(c.interfere["step"], dict(mp, was=was))), short(c.qual)))
            for nm, t in c.done.items():
                nones.append(imp(texts_sub(t, dict(mp, out="it%d" % self.loopno))))
        r = self.fresh("any")
        self.emit("let %s: Ghost<Seq<%s>> = any_value();" % (r, rs(ety)))
        return self.for_over(s, E("%s@" % r, T.lst(ety), None, None, dict(igen=(auto, preds, nones, steps), genroots=frozen)))

    def steady(self, s):
        """variables that every full turn of the loop s changes by the same number, or sets to the same constant"""
        from .norm import own_jumps
        out = []
        stores = [x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)] + list(target_names(s.target))
        for i, x in enumerate(s.body):
            t = x.target if isinstance(x, ast.AugAssign) else x.targets[0] if isinstance(x, ast.Assign) and len(x.targets) == 1 else None
            if not isinstance(t, ast.Name) or stores.count(t.id) != 1 or t.id not in self.scope or own_jumps(s.body[:i], ast.Continue):
                continue
            e = self.scope[t.id]
            if e.static is not None or e.place is None or e.place.steps or e.place.loose or e.code != e.place.root or e.code not in self.locals:
                continue
            ty = find(e.ty).k
            if ty == "int" and isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.value, ast.Constant) and type(x.value.value) is int:
                c = x.value.value * (1 if isinstance(x.op, ast.Add) else -1)
            elif ty in ("int", "bool") and isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and type(x.value.value) is {"int": int, "bool": bool}[ty]:
                c = self.expr(x.value)
            else:
                continue
            was = self.newlocal("was", e.ty)
            self.emit("proof { %s = %s; }" % (was, e.code))
            out.append((t.id, was, c))
        return out

    def for_over(self, s, src):
        itcode, ety, stab, statics = self.iter_seq(src, s, loop=True)
        k, sp = self.loop_spec()
        it, ix, brk = "it%d" % k, "ix%d" % k, "brk%d" % k
        self.locals[it], self.locals[ix], self.locals[brk] = T.lst(ety), INT, BOOL
        self.emit("proof { %s = %s; %s = 0; %s = false; }" % (it, itcode, ix, brk))
        if statics and "Cls" in self.reg.structs and all(x.static and x.static[0] == "class" for x in statics):
            # the classes a static list of classes runs over, for use in hooks
            w = T.parse("Cls")
            self.rawlocals["cs%d" % k] = "Seq<Cls>"
            self.pr("cs%d = seq![%s];" % (k, ", ".join(self.static_to(x, w, s).code for x in statics)))
        elif statics and "Unit" in self.reg.structs and all(x.static and x.static[0] == "bound" and x.static[1] in ("row_of", "column_of", "box_of") for x in statics):
            w = T.parse("Unit")
            self.rawlocals["us%d" % k] = "Seq<Unit>"
            self.pr("us%d = seq![%s];" % (k, ", ".join(self.static_to(x, w, s).code for x in statics)))
        srcroots = set()
        place_code = None
        if src.place is not None and not src.place.loose and find(src.ty).k in ("list", "set", "dict", "ddict"):
            place_code = (src.place, find(src.ty).k)
            srcsnap = self.newlocal("src%d" % k, src.ty)
            self.emit("proof { %s = %s; }" % (srcsnap, src.code))
        genroots = src.extra.get("genroots", set()) if isinstance(src.extra, dict) else set()
        genmods = src.extra.get("genmods", []) if isinstance(src.extra, dict) else []
        igen = src.extra.get("igen") if isinstance(src.extra, dict) else None
        self.emit_proof(sp.before, "loop%d:before" % k)
        entry_scope = dict(self.scope)
        lp = dict(no=k, brk=brk, spec=sp, broke=False, ev0=len(self.mut_events), ev1=None, rr0=len(self.read_roots),
                  jumps=any(isinstance(x, (ast.Continue, ast.Break)) for b in s.body for x in ast.walk(b)))
        guards = ["!%s" % brk] + self.exc_guard() + ["%s < %s.len()" % (ix, it)]
        steady = self.steady(s)
        self.emit("while test(Ghost((%s)))" % " && ".join(guards))
        inv_at = len(self.lines)
        ev0 = len(self.mut_events)
        rd0 = len(self.read_roots)
        self.emit("{")
        self.ind += 1
        self.loops.append(lp)
        tgt = E("%s[%s]" % (it, ix), ety, src.place.ext(("seq", ix)) if src.place is not None and T.mutable(ety) else None)
        if isinstance(src.extra, dict) and "parts" in src.extra:
            tgt.extra = {"parts": src.extra["parts"]}
        if statics is not None:
            tgt.static = ("dyn", statics)
        elif isinstance(src.extra, dict) and src.extra.get("borrowed"):
            tgt.place = Place("borrowed:" + next(iter(genroots), "gen"))
        if igen:
            for t in igen[1]:
                self.emit("assume(%s);" % t.replace("\x03", "%s[%s]" % (it, ix)))
            for was, cur, _, _ in igen[3]:
                self.pr("%s = %s;" % (was, cur))
            lp["steps"] = igen[3]
        # evaluate element then advance
        al0 = len(self.alias_events)
        self.bind_target(s.target, tgt, s)
        al1 = len(self.alias_events)
        self.emit("proof { %s = %s + 1; }" % (ix, ix))
        self.emit_proof(sp.start, "loop%d:start" % k)
        ended = self.block(s.body)
        if not ended:
            self.loop_end(lp)
        self.loops.pop()
        lp["ev1"] = len(self.mut_events)
        self.ind -= 1
        self.emit("}")
        outside = self.used_outside(s)
        for i in range(al0, al1):          # a target that is dead outside the loop
            if not self.in_inline() and self.alias_events[i][0] in {mangle(n) for n in target_names(s.target)} - outside:
                self.alias_scopes[i] = (ev0, len(self.mut_events))
        if genmods and any(isinstance(x, (ast.Return, ast.Break)) for b in s.body for x in ast.walk(b)):
            self.fail(s, "leaves a loop over a generator with effects early")
        body_events = self.mut_events[ev0:]
        body_muts = {e for e in body_events if not e.startswith("=")}
        body_rebinds = {e[1:] for e in body_events if e.startswith("=")}
        auto = [("0 <= %s && %s <= %s.len()" % (ix, ix, it), self.lab("loop%d:auto" % k))]
        if place_code is not None:
            pl, kind = place_code
            if pl.root in body_muts:
                for stp in pl.steps:
                    if stp[0] in ("seq", "map"):
                        for w in re.findall(r"[A-Za-z_]\w*", stp[1]):
                            if w in body_muts or w in body_rebinds:
                                self.fail(s, "iterated container cannot be tracked")
                conds = []
                cur = pl.root
                for stp in pl.steps:
                    if stp[0] == "map":
                        conds.append("%s.dom().contains(%s)" % (cur, stp[1]))
                    cur = Place.step_get(cur, stp)
                if kind in ("dict", "ddict"):
                    conds.append("%s.dom() == %s.dom()" % (cur, srcsnap))
                else:
                    conds.append("%s == %s" % (cur, srcsnap))
                auto.append((" && ".join(conds), self.lab("loop%d:iterated container unchanged" % k)))
        if igen:
            auto += igen[0]
        for v, was, c in steady:
            if v in self.scope and self.scope[v].code == entry_scope[v].code:
                now = "%s + %s * %s" % (was, ix, c) if isinstance(c, int) else "if %s == 0 { %s } else { %s }" % (ix, was, c.code)
                auto.append(("%s ==> %s == (%s)" % (" && ".join(["!%s" % brk] + self.exc_guard()), entry_scope[v].code, now), self.lab("loop%d:auto" % k)))
        auto += self.rely_invs(s.body, k)
        if genroots & body_muts and not igen and id(s) not in self.live_loops:
            self.live_loops.add(id(s))
            raise Restart
        if genroots & body_muts:
            self.fail(s, "loop body modifies %s, which the running generator reads" % ", ".join(genroots & body_muts))
        if genmods:
            modroots = {p.root for p, _ in genmods}
            if (set(self.read_roots[rd0:]) & modroots) - {mangle(n) for n in target_names(s.target)}:
                self.fail(s, "loop body reads %s, which the running generator modifies" % ", ".join(modroots))
        # insert the invariants
        save, self.lines = self.lines, []
        sc, self.scope = self.scope, self.inv_scope(entry_scope, self.scope)
        self.emit_invs(sp, k, auto, True)
        self.scope = sc
        self.lines = save[:inv_at] + self.lines + save[inv_at:]
        self.scope_after_loop(entry_scope)
        if igen:
            for t in igen[2]:
                self.emit("assume(%s ==> (%s));" % (" && ".join(["!%s" % brk, "%s == %s.len()" % (ix, it)] + self.exc_guard()), t))
        for p, code in genmods:
            if p.root in {mangle(n) for n in target_names(s.target)}:
                continue          # rebound by the loop target
            self.write(p, code, s)
        self.after_loop(s, sp, k, brk)

    def rely_invs(self, body, k):
        if not self.c.interfere or not has_yield(ast.Module(body=body, type_ignores=[])):
            return []
        p = mangle(self.c.interfere["param"])
        auto = [(self.rely(), self.lab("loop%d:rely" % k)),
                ("out.len() == 0 ==> %s == %s" % (p, self.sigmap[self.c.interfere["param"]]), self.lab("loop%d:unchanged before the first yield" % k))]
        for g in self.c.outs:
            auto.append(("out.len() > 0 ==> %s == g0_%s" % (g, g), self.lab("loop%d:%s stays the same" % (k, g))))
        return auto

    def used_outside(self, loop):
        """the targets of the loop that are read outside of its body (anywhere in the function) or captured"""
        inside = {id(x) for b in loop.body for x in ast.walk(b)}
        nested = any(isinstance(y, (ast.For, ast.While)) and y is not loop and any(z is loop for z in ast.walk(y)) for y in ast.walk(self.node))
        end = (loop.end_lineno, loop.end_col_offset) if getattr(loop, "end_lineno", None) else None
        out = {x.id for x in ast.walk(self.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store) and id(x) not in inside
               and (nested or end is None or not getattr(x, "lineno", None) or (x.lineno, x.col_offset) > end)}
        for b in loop.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp)):
                    out |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        return {mangle(n) for n in out}

    @staticmethod
    def inv_scope(entry, cur):
        out = dict(cur)
        out.update(entry)
        return out

    def bind_target(self, t, e, node):
        self.assign(t, e, node)

    def drain(self, src, node):
        """The generator runs to its end here: its effects happen, its elements must be values of their own."""
        x = src.extra if isinstance(src.extra, dict) else {}
        t = find(src.ty)
        if t.k != "gen":
            return
        if x.get("borrowed") and T.mutable(t.a[0]):
            self.fail(node, "collects the elements of a generator that yields one changing object")
        if x.get("genmods") and self.binders:
            self.fail(node, "a generator with effects inside a comprehension")
        for p, code in x.get("genmods", []):
            self.write(p, code, node)
        if self.binders and src.place is not None and src.place.root + "__pos" in self.locals:
            self.fail(node, "consumes a generator variable inside a comprehension")

    def iter_seq(self, src, node, loop=False):
        """-> (sequence code, element type, stability, static elements)"""
        if not loop and src.static is None:
            self.drain(src, node)
        if src.static is not None:
            els = self.static_elements(src, node)
            if els is None:
                self.fail(node, "iteration over a static value")
            return "irange(0, %d)" % len(els), INT, None, els
        t = find(src.ty)
        x = src.extra if isinstance(src.extra, dict) else {}
        if "dynseq" in x:
            return src.code, t.a[0], None, None
        if t.k in ("list", "vtuple"):
            return src.code, t.a[0], None, None
        if t.k == "gen":
            if src.place is not None and not src.place.steps and src.place.root + "__pos" in self.locals:
                g = src.place.root
                code = "%s.subrange(%s__pos, %s.len() as int)" % (g, g, g)
                n = self.newlocal("g", T.lst(t.a[0]))
                self.emit("proof { %s = %s; %s__pos = %s.len() as int; }" % (n, code, g, g))
                return n, t.a[0], None, None
            return src.code, t.a[0], None, None
        if t.k in ("set", "fset", "bag"):
            c = self.call_raw("enum_set", [src.code], T.lst(t.a[0]))
            return c + "@", t.a[0], None, None
        if t.k in ("dict", "ddict"):
            c = self.call_raw("enum_set", ["%s.dom()" % src.code], T.lst(t.a[0]))
            return c + "@", t.a[0], None, None
        if t.k == "str":
            return "chars_of(%s)" % src.code, STR, None, None
        if t.k.startswith("obj:"):
            r = self.method_call(src, "__iter__", [], {}, node)
            return self.iter_seq(r, node)
        if t.k == "tuple":
            els = self.static_elements(src, node)
            if els and all(T.same(e.ty, els[0].ty) for e in els):
                code = "Seq::empty()"
                for e in els:
                    code = "%s.push(%s)" % (code, e.code)
                return code, els[0].ty, None, None
        self.fail(node, "iteration over %r" % t)

    def static_elements(self, v, node):
        if v.static is not None:
            if v.static[0] == "tuple":
                return v.static[1]
            if v.static[0] == "dyn":
                # every case is a tuple of the same length -> element-wise dyn
                cases = [self.static_elements(c, node) for c in v.static[1]]
                if any(c is None for c in cases) or len({len(c) for c in cases}) != 1:
                    return None
                out = []
                for i in range(len(cases[0])):
                    col = [c[i] for c in cases]
                    if all(e.static is None for e in col):
                        code = col[-1].code
                        for j in range(len(col) - 2, -1, -1):
                            code = "(if %s == %d { %s } else { %s })" % (v.code, j, col[j].code, code)
                        out.append(E(code, col[0].ty))
                    else:
                        out.append(E(v.code, INT, None, ("dyn", col)))
                return out
            return None
        t = find(v.ty)
        if t.k == "tuple":
            return [E("%s.%d" % (v.code, i), a, v.place.ext(("tup", i)) if v.place else None) for i, a in enumerate(t.a)]
        return None

    # ------------------------------------------------------------------ generators
    def do_yield(self, v):
        if self.binders:
            self.fail(v, "yield in expression")
        val = self.expr(v.value, want=self.yield_type()) if v.value is not None else E("()", NONE)
        val = self.coerce(val, self.yield_type(), v)
        if val.place is not None and T.mutable(val.ty) and not self.c.borrowed:
            self.alias("yield", val, v)
        self.hook("yield", {"yielded": val.code})
        if self.c.interfere:
            for nm, t in self.c.yields.items():
                self.emit("assert(%s);" % self.spec(t, {"yielded": val.code}), self.lab("yields " + nm))
            for g in self.c.outs:
                self.emit("assert(out.len() == 0 || %s == g0_%s);" % (g, g), self.lab("%s stays the same" % g))
                self.pr("g0_%s = %s;" % (g, g))
        self.pr("out = out.push(%s);" % val.code)
        self.mut_events.append("out")
        if self.c.interfere:          # the consumer runs and may change the shared parameter, within the rely condition
            p = mangle(self.c.interfere["param"])
            r = self.fresh("any")
            self.emit("let %s: Ghost<%s> = any_value();" % (r, rs(self.param_ty[self.c.interfere["param"]])))
            was = self.newlocal("was", self.param_ty[self.c.interfere["param"]])
            self.mut_events.append(p)
            self.pr("%s = %s; %s = %s@;" % (was, p, p, r))
            self.emit("assume(%s);" % self.rely())
            if "step" in self.c.interfere:
                self.emit("assume(%s);" % self.spec(self.c.interfere["step"], {"was": was}))
        self.hook("afteryield")

    def yield_type(self):
        return find(self.c.returns).a[0]

    def do_yield_from(self, v):
        loop = ast.For(target=ast.Name(id="__yf", ctx=ast.Store()), iter=v.value,
                       body=[ast.Expr(ast.Yield(ast.Name(id="__yf", ctx=ast.Load())))], orelse=[])
        ast.copy_location(loop, v)
        ast.fix_missing_locations(loop)
        return self.s_For(loop)

    # ------------------------------------------------------------------ aliasing
    def alias(self, dst, e, node, depth=0):
        """depth: how deep inside dst the object is kept"""
        t = find(e.ty)
        if t.k.startswith("obj:") and t.k[4:] in self.reg.structs and self.reg.structs[t.k[4:]].stream:
            self.asm.note("%s: the stream is used through one object only" % t.k[4:])
            return
        d = Mut(dst, depth)
        d.path, d.loops, d.rr = self.path, list(self.loops), len(self.read_roots)
        self.alias_events.append((d, e.place.root, getattr(node, "lineno", 0), len(self.mut_events), e))

    def check_alias(self):
        """A mutable value reachable from two variables must not be modified through either."""
        muts = [m for m in self.mut_events if not m.startswith("=")]
        for var, roots, at, inloop in self.gen_vars:
            if roots & {m.lstrip("=") for m in (self.mut_events if inloop else self.mut_events[at:])}:
                raise Unsupported("%s is modified while the generator %s may still run" % (", ".join(sorted(roots)), var))
        aliased = {x[1] for x in self.alias_events}
        for no, (dst, src, line, at, e) in enumerate(self.alias_events):
            if src.startswith("borrowed:"):
                if dst.startswith("=") or dst == "return" or dst == "yield":
                    raise Unsupported("line %d: a borrowed element escapes" % line)
                # binding the loop variable itself: it may only be read or yielded
                if no in self.alias_scopes and dst not in aliased:
                    a, b = self.alias_scopes[no]
                    if dst not in {m for m in self.mut_events[a:b] if not m.startswith("=")}:
                        continue
                if dst in muts:
                    raise Unsupported("line %d: a borrowed element is modified" % line)
                continue
            if dst == src:
                if not m_depth(dst):
                    continue            # the variable now holds (a part of) what it held
                raise Unsupported("line %d: two parts of %s are one object" % (line, src))
            if dst == "return":
                if src in self.entry_alias_roots and src not in {mangle(x) for x in self.c.returns_alias}:
                    raise Unsupported("line %d: returns an alias of parameter %s" % (line, src))
                held, work = {src}, [src]       # what the result may hold
                while work:
                    x = work.pop()
                    for d, r, ln, _, y in self.alias_events:
                        if d == x and r not in held:
                            held.add(r)
                            work.append(r)
                            if r in self.entry_alias_roots and r not in {mangle(z) for z in self.c.returns_alias}:
                                raise Unsupported("line %d: the result holds an alias of parameter %s" % (ln, r))
                continue
            if dst == "yield":
                later = self.mut_events[at:]
                if src in self.entry_alias_roots or src in muts:
                    raise Unsupported("line %d: yields an alias of %s" % (line, src))
                continue
            # rebinding of the source right away counts as a move
            if self.moved(dst, src, at) or self.given_up(no):
                continue
            if no in self.alias_scopes and dst not in aliased:
                a, b = self.alias_scopes[no]
                if not {dst, src} & {m for m in self.mut_events[a:b] if not m.startswith("=")}:
                    continue
            # changing a container that holds the object, at a level above it, leaves the object alone
            if any(m == dst and m_depth(m) >= m_depth(dst) or m == src and m_depth(m) >= len(e.place.steps) for m in muts):
                raise Unsupported("line %d: %s aliases %s and one of them is modified" % (line, dst, src))
            if dst in self.entry_alias_roots:
                raise Unsupported("line %d: %s stored into parameter %s" % (line, src, dst))
            if src in self.entry_alias_roots and dst == "self_" and self.c.ctor:
                raise Unsupported("line %d: constructor keeps an alias of %s" % (line, src))

    def moved(self, dst, src, at):
        """After dst = src one of the two is bound to something else before either is modified."""
        if src.startswith("u__"):
            return True
        ev = self.mut_events

        def settled(a, b):
            for e in ev[a:b]:
                if e in ("=" + src, "=" + dst):
                    if dst.path[:len(e.path)] == e.path:
                        return True
                    if e == "=" + src:
                        continue
                elif e in (src, dst):
                    return False
            return None
        for lp in reversed(dst.loops):
            r = settled(at, lp["ev1"])
            if r is False or r and not lp["jumps"]:
                return bool(r)
            if settled(lp["ev0"], at) is False:
                return False
            at = lp["ev1"]
        return settled(at, len(ev)) is not False

    def given_up(self, no):
        """A local object is stored and its variable is never used again."""
        d, src, _, at, e = self.alias_events[no]
        if src not in self.locals or src in self.entry_alias_roots or e.place.steps or src in self.read_roots[d.rr:]:
            return False
        if any(src in (x[0], x[1]) for i, x in enumerate(self.alias_events) if i != no) or any(src in g[1] for g in self.gen_vars):
            return False
        if not d.loops:
            return True
        bound = [m for m in self.mut_events[d.loops[-1]["ev0"]:at] if m == "=" + src and d.path[:len(m.path)] == m.path]
        return bool(bound) and not any(src in self.read_roots[lp["rr0"]:bound[0].rr] for lp in d.loops)

    # ------------------------------------------------------------------ calls
    def call_raw(self, fname, args, rty=None):
        if self.binders:
            raise Unsupported("call of %s under a binder" % fname)
        self.ncall += 1
        r = "call__%d" % self.ncall
        ann = ": Ghost<%s>" % rs(rty) if rty is not None else ""
        self.emit("let %s%s = %s(%s);" % (r, ann, fname, ", ".join("Ghost((%s))" % a for a in args)))
        return r


def nested_gen(t, top=True):
    t = find(t)
    return t.k == "gen" and not top or any(nested_gen(a, False) for a in t.a or ())


from .expr import ExprMixin, short        # noqa: E402


def taken_out(stmts):
    """x = e[i]; del e[i] is x = e.pop(i)"""
    res = []
    for s in stmts:
        p = res[-1] if res else None
        if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(p, ast.Assign) \
                and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.Subscript) \
                and ast.unparse(p.value) == ast.unparse(s.targets[0]) and all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.expr_context)) for x in ast.walk(p.value)) \
                and p.targets[0].id not in {x.id for x in ast.walk(p.value) if isinstance(x, ast.Name)}:
            f = ast.Attribute(p.value.value, "pop", ast.Load())
            v = ast.copy_location(ast.Call(f, [p.value.slice], []), p.value)
            res[-1] = ast.fix_missing_locations(ast.copy_location(ast.Assign(p.targets, v), p))
            continue
        res.append(s)
    return res


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t):
        if not hasattr(n, "lineno"):
            n.lineno = 0
    return t


def has_yield(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found


def always_exits(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return always_exits(s.body) and always_exits(s.orelse)
    if isinstance(s, (ast.Continue, ast.Break)):
        return True
    return False


class _Rep(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return self.env[n.id]
        return n


def replace_names(node, env):
    import copy
    return _Rep(env).visit(copy.deepcopy(node)) if env else node


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


class Translator(ExprMixin, FnTrans):
    pass
