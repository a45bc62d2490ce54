import io
import random
import re
import sys

from refute import model as M
from refute.base import Bad, eq, ok

BOUND = "histories of up to 40 shell lines (push, pop, set, set_candidates, remove_candidates, stack, loops, faulty commands, several commands in a line), interactive and not, default 3x3 boxes or decoded 2x2 boxes"


class Model:
    """What the shell should do."""

    def __init__(self, s):
        self.s, self.stack, self.n, self.rec, self.running = s, [], None, [], True

    def do(self, c):
        """True if the command reports an error"""
        k = c[0]
        if k == "exit":
            self.running = False
        elif self.n and k != "loop":
            self.rec.append(c)
        elif k == "loop":
            return self.loop(c[1])
        else:
            return self.run(c)

    def loop(self, a):
        if a == "end":
            if not self.n:
                return True
            n, rec = self.n, self.rec
            self.n, self.rec = None, []
            bad = False
            for _ in range(n):
                for c in rec:
                    bad = self.run(c) or bad
            return bad
        if not isinstance(a, int) or a <= 0 or self.n:
            return True
        self.n = a

    def run(self, c):
        k = c[0]
        g, cs = self.s
        if k == "push":
            self.stack.append((dict(g), dict(cs)))
        elif k == "pop":
            if not self.stack:
                return True
            p = len(self.stack) - 1 if c[1] is None else c[1]
            if not 0 <= p < len(self.stack):
                return True
            self.s = self.stack.pop(p)
        elif k in ("set", "set_candidates", "remove_candidates"):
            if (c[1], c[2]) not in g:
                return True
            if k == "set":
                g[c[1], c[2]] = c[3]
            elif k == "set_candidates":
                cs[c[1], c[2]] = frozenset(c[3])
            else:
                cs[c[1], c[2]] = cs[c[1], c[2]] - frozenset(c[3])
        elif k == "bad":
            return True
        return False


def text(c):
    k = c[0]
    if k == "pop":
        return "pop" if c[1] is None else "pop %d" % c[1]
    if k == "set":
        return "set %d %d %d" % c[1:]
    if k in ("set_candidates", "remove_candidates"):
        return "%s %d %d (%s)" % (k, c[1], c[2], "".join("%d," % v for v in c[3]) if c[3] else "")
    if k == "loop":
        return "loop %s" % c[1]
    if k == "bad":
        return c[1]
    return k


def draw(r, n):
    f = lambda: r.randrange(n) if r.random() < .97 else n + 7
    x = r.random()
    if x < .22:
        return ("push",)
    if x < .4:
        return ("pop", r.choice((None, None, 0, 0, 1, 2, 3, 5, -1, 100)))
    if x < .6:
        return ("set", f(), f(), r.randint(0, n))
    if x < .75:
        return (r.choice(("set_candidates", "remove_candidates")), f(), f(), tuple(r.sample(range(1, n + 1), r.randint(0, 3))))
    if x < .82:
        return ("loop", r.choice((1, 2, 3, 4, 0, -1)))
    if x < .92:
        return ("loop", "end")
    if x < .95:
        return ("bad", r.choice(("set 1 1 1 1 1", "push 20", "get 0 0 3", "pop 1 2 3")))
    if x < .97:
        return ("stack",)
    if x < .985:
        return ("exit",)
    return ("loop", "end")


def history(seed):
    r = random.Random(seed)
    from sudokutools.shell import Shell
    interactive = r.random() < .7
    sh = Shell(interactive=interactive, infile=io.StringIO(), outfile=io.StringIO())
    n = 9
    if r.random() < .4:
        sh.execute_line("new (2,2)")
        n = 4
    m = Model(M.snap(sh.sudoku))
    done = []
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        for _ in range(r.randint(1, 40)):
            cs = [draw(r, n) for _ in range(r.choice((1, 1, 1, 2, 3, 5)))]
            line = r.choice(("; ", ";", " ;  ")).join(text(c) for c in cs)
            done.append(line)
            ended = False
            depth0 = sys.stderr.tell()
            if interactive:
                bads = [m.do(c) for c in cs]
                sh.execute_line(line)
            else:
                # the first error ends the program
                try:
                    for c, piece in zip(cs, [text(c) for c in cs]):
                        before = (m.s[0].copy(), m.s[1].copy(), list(m.stack)) if c[0] != "loop" else None
                        bad = m.do(c)
                        sh.execute_line(piece)
                        ok(not bad, "no error is reported by %r after %r" % (piece, done))
                except SystemExit:
                    ok(bad, "%r reports an error after %r" % (piece, done))
                    ended = c[0] == "loop" and c[1] == "end"
                    if not ended:
                        compare(sh, m, done)
                    return
                bads = []
            compare(sh, m, done)
            if interactive:
                eq(sys.stderr.tell() > depth0, any(bads), "whether %r reports an error after %r" % (line, done))
            if r.random() < .1:
                sh.sudoku[0, 0] = r.randint(0, n)                      # changes made elsewhere stay out of the snapshots
                m.s[0][0, 0] = sh.sudoku[0, 0]
                done.append("(field (0, 0) set to %d)" % sh.sudoku[0, 0])
                compare(sh, m, done)
        if interactive and not m.n:
            k = sh.outfile.tell()
            sh.execute_line("stack")
            eq([int(x) for x in re.findall(r"[0-9]+", sh.outfile.getvalue()[k:])], [len(m.stack)], "what stack tells after %r" % done)
    finally:
        sys.stderr = err


def compare(sh, m, done):
    for a, b, what in [(M.snap(sh.sudoku), m.s, "the current sudoku")] + \
            [(M.snap(x), y, "stack[%d]" % i) for i, (x, y) in enumerate(zip(sh.stack, m.stack))]:
        for p in b[0]:
            if a[0].get(p) != b[0][p] or a[1].get(p) != b[1][p]:
                raise Bad("%s after %r: field %r has number %r and candidates %r, expected %r and %r" % (
                    what, done, p, a[0].get(p), sorted(a[1].get(p, ())), b[0][p], sorted(b[1][p])))
    eq(len(sh.stack), len(m.stack), "size of the stack after %r" % done)
    eq(sh.running, m.running, "shell.running after %r" % done)


def search(ctx):
    while ctx.left() > 0:
        ctx.run("history", history, ctx.rng.randrange(1 << 30))
