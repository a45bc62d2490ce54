"""Types of the translated Python subset and their Verus counterparts."""
import ast
import itertools

_counter = itertools.count()


class Unsupported(Exception):
    """The construct is outside the translated subset (named extraction failure)."""


class Restart(Exception):
    """Translate the function again, knowing more."""


class Ty:
    __slots__ = ("k", "a", "ref", "id")

    def __init__(self, k, *a):
        self.k, self.a, self.ref, self.id = k, a, None, next(_counter)

    def __repr__(self):
        t = find(self)
        return t.k + ("[%s]" % ",".join(map(repr, t.a)) if t.a else "")


INT, BOOL, STR, NONE = Ty("int"), Ty("bool"), Ty("str"), Ty("none")
FLOAT = Ty("float")


def tup(*a): return Ty("tuple", *a)
def lst(t): return Ty("list", t)
def seta(t): return Ty("set", t)
def fset(t): return Ty("fset", t)
def vtup(t): return Ty("vtuple", t)
def bag(t): return Ty("bag", t)
def dct(k, v): return Ty("dict", k, v)
def ddct(k, v): return Ty("ddict", k, v)
def opt(t): return Ty("opt", t)
def gen(t): return Ty("gen", t)
def obj(n): return Ty("obj:" + n)
def tv(): return Ty("?")


def find(t):
    while t.k == "?" and t.ref is not None:
        t = t.ref
    return t


def unify(a, b, what=""):
    a, b = find(a), find(b)
    if a is b:
        return a
    if a.k == "?":
        a.ref = b
        return b
    if b.k == "?":
        b.ref = a
        return a
    if a.k != b.k or len(a.a) != len(b.a):
        raise Unsupported("type mismatch %r / %r %s" % (a, b, what))
    for x, y in zip(a.a, b.a):
        unify(x, y, what)
    return a


def same(a, b):
    a, b = find(a), find(b)
    if a.k == "?" or b.k == "?":
        return True
    return a.k == b.k and len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))


def fits(a, b):
    """Same type but for Python numbers that may be floats where integers are expected"""
    a, b = find(a), find(b)
    if a.k == "tuple" and b.k == "tuple" and len(a.a) == len(b.a):
        return all(fits(x, y) for x, y in zip(a.a, b.a))
    return same(a, b) or a.k == "float" and b.k == "int"


def rs(t):
    """Verus type; unresolved variables are emitted as placeholders."""
    t = find(t)
    if t.k == "?":
        return "\u00ab%d\u00bb" % reg(t)
    k = t.k
    if k in ("int", "bool"):
        return k
    if k == "float":
        return "PyNum"
    if k == "str":
        return "Seq<char>"
    if k == "none":
        return "()"
    if k == "tuple":
        return "(" + ", ".join(rs(x) for x in t.a) + ("," if len(t.a) == 1 else "") + ")"
    if k in ("list", "gen", "vtuple"):
        return "Seq<%s>" % rs(t.a[0])
    if k in ("set", "fset", "bag"):
        return "Set<%s>" % rs(t.a[0])
    if k in ("dict", "ddict"):
        return "Map<%s, %s>" % (rs(t.a[0]), rs(t.a[1]))
    if k == "opt":
        return "Option<%s>" % rs(t.a[0])
    if k.startswith("obj:"):
        return k[4:]
    if k.startswith("gen:"):
        return k[4:]
    if k.startswith("spec:"):
        return k[5:]
    raise Unsupported("no Verus type for %r" % t)


_registry = {}


def reg(t):
    _registry[t.id] = t
    return t.id


def resolve_placeholders(text):
    import re

    def sub(m):
        t = find(_registry[int(m.group(1))])
        if t.k == "?":
            return "int"      # a container that is never given an element
        return resolve_placeholders(rs(t))
    return re.sub("\u00ab(\\d+)\u00bb", sub, text)


def mutable(t):
    t = find(t)
    if t.k in ("list", "set", "dict", "ddict", "?", "gen"):
        return True
    if t.k.startswith("obj:"):
        return t.k[4:] not in IMMUTABLE_OBJ
    if t.k.startswith("gen:") or t.k.startswith("spec:"):
        return False
    if t.k == "bag":
        return True
    if t.k == "fset":
        return t.a[0].k != "?" and mutable(t.a[0]) if t.a else False
    return any(mutable(x) for x in t.a)


IMMUTABLE_OBJ = {"Cls", "Action", "Tag"}


def parse(s, generics=()):
    """'list[tuple[int,int]]' -> Ty"""
    node = ast.parse(s.strip(), mode="eval").body

    def go(n):
        if isinstance(n, ast.Constant) and n.value is None:
            return NONE
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return Ty("spec:" + n.value)
        if isinstance(n, ast.Name):
            if n.id in generics:
                return Ty("gen:" + n.id)
            if n.id in ("int", "bool", "str", "float"):
                return {"int": INT, "bool": BOOL, "str": STR, "float": FLOAT}[n.id]
            return obj(n.id)
        if isinstance(n, ast.Subscript):
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            name = n.value.id
            name = {"frozenset": "fset"}.get(name, name)
            if name not in ("tuple", "list", "vtuple", "set", "fset", "bag", "dict", "ddict", "opt", "gen"):
                raise Unsupported("type " + s)
            return Ty(name, *[go(x) for x in args])
        raise Unsupported("type " + s)
    return go(node)
