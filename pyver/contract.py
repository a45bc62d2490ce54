"""Sidecar contracts: registry and the small DSL used by /verif/contracts/*.py."""
import re

from . import ty as T


class Contract:
    def __init__(self, qual, params, returns, requires=None, ensures=None, modifies=(), raises=None,
                 pure=None, loops=(), hooks=None, generics="", ghosts="", ghost_args=None, trusted=None,
                 lazy=None, borrowed=False, returns_alias=(), decreases=None, is_gen=False, ctor=False,
                 rlimit=None, theory=("prelude_facts",), attrs=(), note=None, sinks=None, exc_ensures=None, interfere=None,
                 consts=None, spinoff=True, yields=None, dyn=None, variant=None, virtual=None,
                 total=False, defaults=None, uses=(), needs=(), implementations=(), noexc=False, random=False, locals=None, outs=None, done=None, kinds=None, handles=False):
        self.locals = dict(locals or {})      # ghost variables only the hooks read and write
        self.kinds = {k: T.parse(v, []) for k, v in (kinds or {}).items()}    # types of local containers
        self.handles = handles    # references to objects may be handed to function values
        self.noexc, self.random = noexc, random
        self.defaults = defaults
        self.uses = {u.split("@")[0]: u for u in uses}      # the variant of a callee's contract that applies here
        self.total, self.needs, self.implementations = total, tuple(needs), tuple(implementations)
        self.qual = qual
        self.generics = [g.strip() for g in generics.split(",") if g.strip()]
        self.params = []
        if params.strip():
            for p in split_top(params):
                n, t = p.split(":", 1)
                self.params.append((n.strip(), T.parse(t, self.generics)))
        self.ghosts = []
        if ghosts.strip():
            for p in split_top(ghosts):
                n, t = p.split(":", 1)
                self.ghosts.append((n.strip(), t.strip()))
        self.returns = T.parse(returns, self.generics)
        self.requires = dict(requires or {})
        self.ensures = dict(ensures or {})
        self.modifies = [m.strip() for m in (modifies.split(",") if isinstance(modifies, str) else modifies) if m.strip()]
        self.raises = dict(raises or {})
        self.exc_ensures = dict(exc_ensures or {})
        self.pure, self.loops, self.hooks = pure, list(loops), dict(hooks or {})
        self.ghost_args = dict(ghost_args or {})
        self.trusted, self.lazy, self.borrowed = trusted, lazy, borrowed
        self.returns_alias = set(returns_alias)
        self.decreases, self.is_gen, self.ctor = decreases, is_gen, ctor
        self.rlimit, self.theory, self.attrs, self.note = rlimit, tuple(theory), tuple(attrs), note
        self.interfere = interfere
        self.outs = dict(outs or {})          # ghost values fixed before the first yield
        self.done = dict(done or {})          # what holds when the generator is exhausted
        self.yields = dict(yields or {})
        self.variant = variant
        self.virtual = virtual
        self.spinoff = spinoff
        if pure is not None and "pure" not in self.ensures:
            self.ensures["pure"] = "result == (%s)" % pure

    @property
    def rust(self):
        q = self.qual
        parts = q.split(".")
        name = "__".join(parts[1:]) if len(parts) > 1 else q
        name = name.replace("<", "").replace(">", "")
        return "f_" + name + ("_" + self.variant if self.variant else "")

    @property
    def key(self):
        return self.qual + ("@" + self.variant if self.variant else "")


class Loop:
    def __init__(self, inv=None, before="", start="", end="", after="", decreases=None):
        self.inv, self.before, self.start, self.end, self.after = dict(inv or {}), before, start, end, after
        self.decreases = decreases


class Struct:
    def __init__(self, name, qual, fields, immutable=False, stream=False):
        self.name, self.qual = name, qual
        self.fields = []           # (python attribute, rust field, Ty)
        for f in fields:
            py, rsname, t = f
            self.fields.append((py, rsname, T.parse(t)))
        self.immutable = immutable
        self.stream = stream       # input or output of the program, assumed to be used through one object only


def split_top(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "[(<{":
            depth += 1
        elif ch in "])>}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


class Registry:
    def __init__(self):
        self.fns, self.structs, self.class_tags, self.unions = {}, {}, {}, {}
        self.func_values = {}     # (class, method) -> the value of type Func

    def fn(self, qual, params="", returns="None", **kw):
        c = Contract(qual, params, returns, **kw)
        self.fns[c.key] = c
        return c

    def struct(self, name, qual, fields, immutable=False, stream=False):
        self.structs[name] = Struct(name, qual, fields, immutable, stream)
        if immutable:
            T.IMMUTABLE_OBJ.add(name)

    def union(self, name, members):
        """objects of one of several classes"""
        self.unions[name] = list(members)
        T.IMMUTABLE_OBJ.add(name)

    def struct_for_class(self, qual):
        for s in self.structs.values():
            if s.qual == qual:
                return s
        return None


IDENT = re.compile(r"(?<![\w.'])([A-Za-z_]\w*)(?!\w)")


def subst(text, mapping):
    """Token substitution of free identifiers (not after a dot)."""
    if not mapping:
        return text

    def r(m):
        w = m.group(1)
        return mapping.get(w, w)
    return IDENT.sub(r, text)
