"""Does the translation mean what CPython does?  Random functions are run by CPython and then given to the
verifier with the contract `result != <what CPython returned>`: a translation that accepts one of them is wrong.
   python3 selftest/fuzz.py [SEED [COUNT]]      prints WRONG and the function for every such case."""
import os
import random
import shutil
import signal
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyver.asm import Asm           # noqa: E402
from pyver.contract import Registry  # noqa: E402
from pyver.front import Program      # noqa: E402
from pyver import verus              # noqa: E402

VARS = {"a": "int", "b": "int", "xs": "list", "ys": "list", "zs": "nest", "ws": "nest", "d": "dict", "e": "dict", "s": "set", "t": "set", "p": "pair", "u": "str", "w": "str", "o": "obj", "q": "obj"}
PRE = """from itertools import combinations, product


class Cell(object):
    def __init__(self, v, ks):
        self.v = v
        self.ks = list(ks)

    def add(self, k):
        self.ks.append(k)
        self.v += 1
        return self.v

    def shared(self):
        return self.ks

    def fresh(self):
        return list(self.ks)


def grow(xs, k):
    xs.append(k)
    return xs


def longer(xs, k):
    return xs + [k]


def evens(xs):
    for x in xs:
        if x % 2 == 0:
            yield x


def pick(xs, ys, c):
    if c:
        return xs
    return ys


def late(v, xs):
    xs.append(9)
    return v


def swap(zs):
    zs[0], zs[1] = zs[1], zs[0]


"""


class Gen:
    def __init__(self, r):
        self.r, self.out, self.ind, self.k = r, [], 1, 0
        self.have = {}
        kinds = ["int", "list"] + r.sample(["nest", "dict", "set", "pair", "str", "obj"], 2)
        self.vars = {v: t for v, t in VARS.items() if t in kinds}

    def of(self, ty):
        return [v for v, t in self.have.items() if t == ty]

    def emit(self, x):
        self.out.append("    " * self.ind + x)

    def int(self, depth=0):
        r = self.r
        c = [lambda: str(r.randint(0, 4))] * 3
        if self.of("int"):
            c += [lambda: r.choice(self.of("int"))] * 2
        if depth < 2:
            c += [lambda: "(%s %s %s)" % (self.int(depth + 1), r.choice("+-*"), self.int(depth + 1))]
            if self.of("list"):
                c += [lambda: "len(%s)" % self.list(depth + 1), lambda: "%s[%d]" % (self.var("list"), r.randint(0, 2))]
            if self.of("list"):
                c += [lambda: "%s.pop()" % self.var("list"), lambda: "late(%s, %s)" % (self.int(depth + 1), self.var("list"))]
            if self.of("obj"):
                c += [lambda: "%s.add(%s)" % (self.var("obj"), self.int(depth + 1))]
            if self.of("nest"):
                c += [lambda: "%s[%d][%d]" % (self.var("nest"), r.randint(0, 1), r.randint(0, 1)), lambda: "len(%s)" % self.var("nest")]
            if self.of("dict"):
                c += [lambda: "len(%s[%d])" % (self.var("dict"), r.randint(0, 2))]
            if self.of("pair"):
                c += [lambda: "%s[1][0]" % self.var("pair"), lambda: "%s[0]" % self.var("pair")]
            c += [lambda: "(%s if %s else %s)" % (self.int(depth + 1), self.cond(depth + 1), self.int(depth + 1))]
            if self.of("str"):
                c += [lambda: "len(%s)" % self.str(depth + 1), lambda: "int(str(%s))" % self.int(depth + 1), lambda: "%s.count(%s)" % (self.var("str"), r.choice(("'a'", "'b'")))]
            if self.of("obj"):
                c += [lambda: "%s.v" % self.var("obj"), lambda: "len(%s.ks)" % self.var("obj"), lambda: "%s.ks[0]" % self.var("obj")]
            c += [lambda: "len({v for v in %s})" % self.list(depth + 1), lambda: "len([v for v, k in zip(%s, %s) if v < k])" % (self.list(depth + 1), self.list(depth + 1)),
                  lambda: "len(list(combinations(%s, 2)))" % self.list(depth + 1), lambda: "max(%s, default=3)" % self.list(depth + 1), lambda: "len(list(evens(%s)))" % self.list(depth + 1),
                  lambda: "next(evens(%s))" % self.list(depth + 1), lambda: "sum(i * v for i, v in enumerate(%s))" % self.list(depth + 1), lambda: "-%s" % self.int(depth + 1), lambda: "abs(%s)" % self.int(depth + 1),
                  lambda: "%s.index(%s)" % (self.list(depth + 1), self.int(depth + 1)), lambda: "len(set(%s))" % self.list(depth + 1)]
            c += [lambda: "sum(%s)" % self.list(depth + 1), lambda: "min(%s, %s)" % (self.int(depth + 1), self.int(depth + 1)),
                  lambda: "(%s // %d)" % (self.int(depth + 1), r.choice((1, 2, 3, -2))), lambda: "(%s %% %d)" % (self.int(depth + 1), r.choice((2, 3, -3)))]
        return r.choice(c)()

    def cond(self, depth=0):
        r = self.r
        c = [lambda: "%s %s %s" % (self.int(depth + 1), r.choice(("<", "<=", "==", "!=", ">", ">=")), self.int(depth + 1)), lambda: "n %s %d" % (r.choice(("<", ">", "==")), r.randint(0, 3))]
        if self.of("list"):
            c += [lambda: "%s in %s" % (self.int(depth + 1), self.var("list")), lambda: self.var("list"), lambda: "%s == %s" % (self.var("list"), self.var("list"))]
        if self.of("set"):
            c += [lambda: "%s not in %s" % (self.int(depth + 1), self.var("set"))]
        if self.of("dict"):
            c += [lambda: "%s in %s" % (self.int(depth + 1), self.var("dict"))]
        if self.of("str"):
            c += [lambda: "%s in %s" % (self.str(2), self.var("str")), lambda: "%s == %s" % (self.var("str"), self.str(depth + 1)), lambda: self.var("str")]
        c += [lambda: "any(v > %d for v in %s)" % (r.randint(0, 4), self.list(depth + 1)), lambda: "all(v != %d for v in %s)" % (r.randint(0, 4), self.list(depth + 1))]
        if depth < 1:
            c += [lambda: "%s %s %s" % (self.cond(depth + 1), r.choice(("and", "or")), self.cond(depth + 1)), lambda: "not (%s)" % self.cond(depth + 1)]
        return r.choice(c)()

    def var(self, ty):
        return self.r.choice(self.of(ty))

    def list(self, depth=0):
        r = self.r
        c = [lambda: "[%s]" % ", ".join(self.int(2) for _ in range(r.randint(1, 3)))]
        if self.of("list"):
            c += [lambda: self.var("list")] * 3
        if self.of("list"):
            c += [lambda: "grow(%s, %s)" % (self.var("list"), self.int(2))]
        if self.of("nest"):
            c += [lambda: "%s[%d]" % (self.var("nest"), r.randint(0, 1))] * 2
        if self.of("dict"):
            c += [lambda: "%s[%d]" % (self.var("dict"), r.randint(0, 2))]
        if self.of("nest"):
            Z = lambda: self.var("nest")
            c += [lambda: "next(v for v in %s if len(v) > %d)" % (Z(), r.randint(0, 1)), lambda: "max(%s, key=len)" % Z(), lambda: "sorted(%s, key=len)[0]" % Z(), lambda: "%s.pop()" % Z(), lambda: "list(%s)[0]" % Z(),
                  lambda: "[v for k, v in enumerate(%s)][0]" % Z(), lambda: "[v for z in [%s, %s] for v in z][0]" % (Z(), Z()), lambda: "[v for k in range(2) for v in %s][-1]" % Z()]
        if self.of("dict"):
            c += [lambda: "list(%s.values())[0]" % self.var("dict"), lambda: "%s.get(%d, %s)" % (self.var("dict"), r.randint(0, 3), self.list(2))]
        if self.of("pair"):
            c += [lambda: "%s[1]" % self.var("pair")]
        if self.of("obj"):
            c += [lambda: "%s.ks" % self.var("obj"), lambda: "%s.shared()" % self.var("obj"), lambda: "%s.fresh()" % self.var("obj")]
        if depth < 2:
            c += [lambda: "(%s + %s)" % (self.list(depth + 1), self.list(depth + 1)), lambda: "%s[%s]" % (self.list(depth + 1), r.choice((":", "1:", ":1", ":-1", "0:2", "::-1"))),
                  lambda: "(%s if %s else %s)" % (self.list(depth + 1), self.cond(depth + 1), self.list(depth + 1)), lambda: "list(%s)" % self.list(depth + 1),
                  lambda: "longer(%s, %s)" % (self.list(depth + 1), self.int(2)), lambda: "list(evens(%s))" % self.list(depth + 1),
                  lambda: "pick(%s, %s, %s)" % (self.list(depth + 1), self.list(depth + 1), self.cond(depth + 1)), lambda: "(%s or %s)" % (self.list(depth + 1), self.list(depth + 1)),
                  lambda: "[v + %s for v in %s if v > %d]" % (self.int(2), self.list(depth + 1), r.randint(0, 2)), lambda: "sorted(%s)" % self.list(depth + 1)]
        return r.choice(c)()

    def nest(self, depth=0):
        r = self.r
        c = [lambda: "[%s]" % ", ".join(self.list(1) for _ in range(r.randint(1, 3)))] * 2
        if self.of("nest"):
            c += [lambda: self.var("nest"), lambda: "%s[%s]" % (self.var("nest"), r.choice((":", "1:", ":1", "::-1"))), lambda: "list(%s)" % self.var("nest"),
                  lambda: "[list(v) for v in %s]" % self.var("nest"), lambda: "[v[:] for v in %s]" % self.var("nest"), lambda: "[v for v in %s]" % self.var("nest")]
        if depth < 1:
            c += [lambda: "(%s + %s)" % (self.nest(1), self.nest(1)), lambda: "(%s if %s else %s)" % (self.nest(1), self.cond(1), self.nest(1))]
        return r.choice(c)()

    def set(self):
        r = self.r
        c = [lambda: "{%s}" % ", ".join(self.int(2) for _ in range(r.randint(1, 3))), lambda: "set(%s)" % self.list(1)]
        if self.of("set"):
            c += [lambda: self.var("set"), lambda: "(%s %s %s)" % (self.var("set"), r.choice("|&-"), self.var("set"))]
        return r.choice(c)()

    def dict(self):
        r = self.r
        c = [lambda: "{%s}" % ", ".join("%d: %s" % (i, self.list(1)) for i in range(r.randint(1, 3)))]
        if self.of("dict"):
            c += [lambda: self.var("dict"), lambda: "dict(%s)" % self.var("dict")]
        return r.choice(c)()

    def str(self, depth=0):
        r = self.r
        c = [lambda: "'%s'" % "".join(r.choice("ab,1") for _ in range(r.randint(0, 4)))] * 2
        if self.of("str"):
            c += [lambda: self.var("str")]
        if depth < 2:
            c += [lambda: "(%s + %s)" % (self.str(depth + 1), self.str(depth + 1)), lambda: "%s[%s]" % (self.str(depth + 1), r.choice((":", "1:", ":1", ":-1", "0:2", "0", "-1"))), lambda: "str(%s)" % self.int(depth + 1),
                  lambda: "%s.join(['a', %s])" % (self.str(depth + 1), self.str(depth + 1)), lambda: "(%s * %d)" % (self.str(depth + 1), r.randint(0, 2)), lambda: "'%%s-%%d' %% (%s, %s)" % (self.str(depth + 1), self.int(depth + 1)),
                  lambda: "%s.replace(%s, %s)" % (self.str(depth + 1), r.choice(("'a'", "','", "'b'")), self.str(2)), lambda: "%s.split(',')[0]" % self.str(depth + 1), lambda: "%s.strip()" % self.str(depth + 1),
                  lambda: "%s.ljust(%d)" % (self.str(depth + 1), r.randint(0, 6)), lambda: "%s.rjust(%d, '1')" % (self.str(depth + 1), r.randint(0, 6)), lambda: "''.join(sorted(%s))" % self.str(depth + 1)]
        return r.choice(c)()

    def obj(self):
        r = self.r
        if self.of("obj") and r.random() < .3:
            return self.var("obj")
        return "Cell(%s, %s)" % (self.int(1), self.list(1))

    def value(self, ty):
        if ty == "pair":
            return "(%s, %s)" % (self.int(1), self.list(1))
        return getattr(self, ty)()

    def stmt(self, depth=0):
        r = self.r
        new = [v for v in self.vars if v not in self.have]
        x = r.random()
        if x < .33 and (new or self.have) and not depth or not self.have:
            v = r.choice(new or list(self.vars))
            val = self.value(VARS[v])
            self.emit("%s = %s" % (v, val))
            self.have[v] = VARS[v]
            return
        c = []
        if self.of("int"):
            c += [lambda: self.emit("%s %s= %s" % (self.var("int"), r.choice("+-*"), self.int(1))), lambda: self.emit("%s = %s" % (self.var("int"), self.int()))]
        if self.of("list"):
            L = lambda: self.var("list")
            c += [lambda: self.emit("%s.append(%s)" % (L(), self.int(1)))] * 2 + [
                lambda: self.emit("%s = %s" % (L(), self.list())), lambda: self.emit("%s[%d] = %s" % (L(), r.randint(0, 1), self.int(1))),
                lambda: self.emit("%s += %s" % (L(), self.list(1))), lambda: self.emit("%s.extend(%s)" % (L(), self.list(1))), lambda: self.emit("del %s[%s]" % (L(), r.choice(("0", "1", "1:", ":1")))),
                lambda: self.emit("%s[%s] = %s" % (L(), r.choice(("1:", ":1", ":")), self.list(1))),
                lambda: self.emit("%s.pop(%s)" % (L(), r.choice(("", "0")))), lambda: self.emit("%s.insert(%d, %s)" % (L(), r.randint(0, 1), self.int(1))),
                lambda: self.emit("%s.sort()" % L()), lambda: self.emit("%s.reverse()" % L())]
            if len(self.of("list")) > 1:
                c += [lambda: self.emit("xs, ys = %s, %s" % (self.list(1), self.list(1)))]
        if self.of("nest"):
            Z = lambda: self.var("nest")
            c += [lambda: self.emit("%s[%d].append(%s)" % (Z(), r.randint(0, 1), self.int(1)))] * 2 + [
                lambda: self.emit("%s[%d] = %s" % (Z(), r.randint(0, 1), self.list(1))), lambda: self.emit("%s.append(%s)" % (Z(), self.list(1))), lambda: self.emit("%s = %s" % (Z(), self.nest())),
                lambda: self.emit("%s.extend(%s)" % (Z(), self.nest())), lambda: self.emit("%s += %s" % (Z(), self.nest())), lambda: self.emit("%s[%d][%d] = %s" % (Z(), r.randint(0, 1), r.randint(0, 1), self.int(1)))]
            if self.of("list"):
                c += [lambda: self.emit("%s = %s[%d]" % (self.var("list"), Z(), r.randint(0, 1))), lambda: self.emit("%s = %s.pop()" % (self.var("list"), Z()))]
        if self.of("dict"):
            D = lambda: self.var("dict")
            c += [lambda: self.emit("%s[%d].append(%s)" % (D(), r.randint(0, 2), self.int(1))), lambda: self.emit("%s[%d] = %s" % (D(), r.randint(0, 2), self.list(1))), lambda: self.emit("%s = %s" % (D(), self.dict())),
                  lambda: self.emit("del %s[%d]" % (D(), r.randint(0, 2)))]
            if self.of("list"):
                c += [lambda: self.emit("%s = %s.get(%d, %s)" % (self.var("list"), D(), r.randint(0, 3), self.list(1))), lambda: self.emit("%s = %s.pop(%d)" % (self.var("list"), D(), r.randint(0, 2)))]
        if self.of("set"):
            S = lambda: self.var("set")
            c += [lambda: self.emit("%s.add(%s)" % (S(), self.int(1))), lambda: self.emit("%s.discard(%s)" % (S(), self.int(1))), lambda: self.emit("%s = %s" % (S(), self.set())),
                  lambda: self.emit("%s %s= %s" % (S(), r.choice("|&-"), S())), lambda: self.emit("%s.update(%s)" % (S(), self.list(1)))]
        if self.of("pair"):
            c += [lambda: self.emit("p[1].append(%s)" % self.int(1)), lambda: self.emit("p = %s" % self.value("pair"))]
            if self.of("list") and self.of("int"):
                c += [lambda: self.emit("%s, %s = p" % (self.var("int"), self.var("list")))]
        if self.of("str"):
            U = lambda: self.var("str")
            c += [lambda: self.emit("%s = %s" % (U(), self.str())), lambda: self.emit("%s += %s" % (U(), self.str(1)))]
        if self.of("obj"):
            O = lambda: self.var("obj")
            c += [lambda: self.emit("%s.add(%s)" % (O(), self.int(1))), lambda: self.emit("%s.v = %s" % (O(), self.int(1))), lambda: self.emit("%s.ks = %s" % (O(), self.list(1))), lambda: self.emit("%s.ks.append(%s)" % (O(), self.int(1))),
                  lambda: self.emit("%s = %s" % (O(), self.obj())), lambda: self.emit("%s.ks[0] = %s" % (O(), self.int(1)))]
        if self.of("list"):
            c += [lambda: self.emit("grow(%s, %s)" % (self.var("list"), self.int(1)))]
        if self.of("nest"):
            c += [lambda: self.emit("swap(%s)" % self.var("nest")), lambda: self.emit("grow(%s[%d], %s)" % (self.var("nest"), r.randint(0, 1), self.int(1)))]
        if depth < 2:
            def attempt():
                self.emit("try:")
                self.block(depth)
                self.emit("except %s:" % r.choice(("IndexError", "ValueError", "KeyError", "(IndexError, ValueError)", "StopIteration")))
                self.block(depth)
            c += [attempt] * 2

            def branch():
                self.emit("if %s:" % self.cond())
                self.block(depth)
                if r.random() < .5:
                    self.emit("else:")
                    self.block(depth)

            def loop():
                self.k += 1
                v = "v%d" % self.k
                src = r.choice([self.list(1), "range(%d)" % r.randint(0, 2)] + ([self.nest(1)] if r.random() < .3 else []))
                self.emit("for %s in %s:" % (v, src))
                self.block(depth)

            def each():
                self.k += 1
                v = "v%d" % self.k
                z = self.var("nest")
                self.emit(r.choice(("for %s in %s:" % (v, z), "for %s in %s[::-1]:" % (v, z), "for k%d, %s in enumerate(%s):" % (self.k, v, z), "for %s in [v for v in %s if v]:" % (v, z), "for %s, _ in zip(%s, [1, 2, 3]):" % (v, z))))
                self.emit("    " + r.choice(("%s.append(%s)" % (v, self.int(1)), "%s[0] = %s" % (v, self.int(1)), "grow(%s, 3)" % v, "%s.pop()" % v, "%s.extend(%s)" % (v, v), "%s = %s + [1]" % (v, v), "%s += [1]" % v)))
            if self.of("nest"):
                c += [each] * 2
            c += [branch] * 3 + ([loop] if r.random() < .25 else [])
        r.choice(c)()

    def block(self, depth):
        self.ind += 1
        keep = dict(self.have)
        for _ in range(self.r.randint(1, 2)):
            self.stmt(depth + 1)
        self.have = keep
        self.ind -= 1

    def result(self):
        r = self.r
        parts = []
        for v, t in self.have.items():
            if t == "int":
                parts.append(v)
            elif t == "list":
                parts += ["len(%s)" % v, "(%s[0] if %s else 7)" % (v, v), "(%s[-1] if %s else 7)" % (v, v)]
            elif t == "nest":
                parts += ["len(%s)" % v] + ["(len(%s[%d]) if len(%s) > %d else 7)" % (v, i, v, i) for i in (0, 1, 2)] + ["(%s[0][0] if %s and %s[0] else 7)" % (v, v, v)]
            elif t == "dict":
                parts += ["(len(%s[%d]) if %d in %s else 7)" % (v, i, i, v) for i in (0, 1, 2)]
            elif t == "set":
                parts += ["(1 if %d in %s else 0)" % (i, v) for i in (0, 1, 2, 3)]
            elif t == "str":
                parts += ["len(%s)" % v] + ["(1 if %s in %s else 0)" % (x, v) for x in ("'a'", "'1'")] + ["(1 if %s and %s[0] == 'a' else 0)" % (v, v)]
            elif t == "obj":
                parts += ["%s.v" % v, "len(%s.ks)" % v, "(%s.ks[0] if %s.ks else 7)" % (v, v)]
            else:
                parts += ["%s[0]" % v, "len(%s[1])" % v]
        return r.sample(parts, min(len(parts), 3))


def late(*_):
    raise RuntimeError("no end")


def functions(seed, count):
    signal.signal(signal.SIGALRM, late)
    r = random.Random(seed)
    fs = []
    while len(fs) < count:
        g = Gen(random.Random(r.randrange(1 << 40)))
        for _ in range(r.randint(2, 8)):
            g.stmt()
        n = r.randint(0, 3)
        for part in g.result():
            name = "f%d" % len(fs)
            src = "def %s(n):\n%s\n    return %s\n" % (name, "\n".join(g.out), part)
            env = {}
            signal.setitimer(signal.ITIMER_REAL, .2)
            try:
                exec(PRE + src, env)
                k = env[name](n)
            except Exception:
                continue
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(k, bool) or not isinstance(k, int) or abs(k) > 10 ** 6:
                continue
            fs.append((name, n, k, src))
    return fs


def check(fs, claim):
    """names of the functions the verifier accepts with the contract `claim`"""
    d = tempfile.mkdtemp(prefix="fuzz")
    try:
        os.mkdir(d + "/sudokutools")
        open(d + "/sudokutools/__init__.py", "w").close()
        with open(d + "/sudokutools/fz.py", "w") as f:
            f.write(PRE + "\n\n".join(x[3] for x in fs))
        R = Registry()
        R.struct("Cell", "sudokutools.fz.Cell", [("v", "v", "int"), ("ks", "ks", "list[int]")])
        R.fn("sudokutools.fz.evens", "xs: list[int]", "gen[int]", is_gen=True, trusted="test", ensures={"evens": "result == comp(xs, |x: int| x % 2 == 0, |x: int| x)"})
        R.fn("sudokutools.fz.Cell.__init__", "v: int, ks: list[int]", "None", ctor="sudokutools.fz.Cell", trusted="test", ensures={"v": "result.v == v", "ks": "result.ks == ks"})
        for name, n, k, _ in fs:
            R.fn("sudokutools.fz." + name, "n: int", "int", requires={"n": "n == %d" % n}, ensures={"claim": claim % k}, theory=("prelude_facts",))
        keys, mistyped = list(R.fns), 0
        while True:
            asm = Asm(Program(d, "sudokutools"), R)
            lines = asm.assemble(keys, ["strings"])
            r = verus.run(lines, keep="/tmp/fuzz.rs", threads=8)
            if r.verified is not None and (r.verified or r.failed):
                break
            odd = {e["fn"].split("__")[-1] for e in r.errors if e["fn"] and "_fz__" in e["fn"]}
            if not odd:
                break
            for e in r.errors[:3] if "-v" in sys.argv else ():
                print("TYPE", e["message"], e["lines"][:1])
            mistyped += len(odd)
            keys = [k for k in keys if k.split(".")[-1] not in odd]
            fs = [x for x in fs if x[0] not in odd]
        if r.verified is None or not r.verified and not r.failed:
            print([e for e in r.errors][:5])
            raise SystemExit("no answer")
        bad = {e["fn"] for e in r.errors}
        return [x for x in fs if "sudokutools.fz." + x[0] not in asm.stubs and not any(x[0] == (b or "").split("__")[-1] for b in bad)], asm.stubs
    finally:
        shutil.rmtree(d)


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 300
    fs = functions(seed, count)
    wrong, stubs = check(fs, "result != %d")
    for x in wrong:
        print("WRONG: verified not to return %d for n = %d, which it does\n%s" % (x[2], x[1], x[3]))
    if "-v" in sys.argv:
        import collections
        import re
        c = collections.Counter(re.sub(r"[0-9]+", "N", str(w).split(": ", 1)[-1])[:80] for w in stubs.values())
        for w, k in c.most_common(40):
            print("%5d %s" % (k, w))
    right, _ = check(fs, "result == %d")
    print("seed %d: %d functions, %d outside the subset, %d proved to return what they return, %d wrong" % (seed, len(fs), len(stubs), len(right), len(wrong)))
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
