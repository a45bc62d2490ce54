import io
import random
import sys

from refute import model as M
from refute.base import eq, ok
from refute.c19 import Model, compare, draw, text

BOUND = "scripts of up to 25 command lines (comments, blank lines, lines continued with a backslash, several commands in a line, loops, faulty commands, exit, interrupts at the prompt), interactive and not"


class Input(io.StringIO):
    """at these calls of readline the user interrupts"""
    at = ()
    calls = 0

    def readline(self, *a):
        self.calls += 1
        if self.calls in self.at:
            raise KeyboardInterrupt
        return super(Input, self).readline(*a)


def blank(r):
    return "".join(r.choice(" \t") for _ in range(r.choice((0, 0, 0, 1, 3))))


def comment(r):
    return r.choice(("", "", "", "", "# text", "#", "# push; exit", "## set 0 0 1 \\", "# \\", "#\\ #"))


def pieces(r, s):
    """s taken apart after blanks or semicolons"""
    cuts = [i + 1 for i, c in enumerate(s[:-1]) if c in " ;"]
    at = sorted(r.sample(cuts, min(len(cuts), r.choice((0, 0, 0, 1, 1, 2, 3)))))
    return [s[i:j] for i, j in zip([0] + at, at + [len(s)])]


def script(r, n, interactive):
    """the raw lines and, for each, the commands it completes (None: it completes nothing)"""
    out = []
    for _ in range(r.randint(0, 25)):
        x = r.random()
        if x < .15:
            out.append((blank(r) + comment(r), []))
            continue
        if x < .2 and interactive:
            out.append((blank(r) + "push \\\\" + blank(r) + comment(r), None))       # two backslashes: one stays
            out.append((blank(r) + comment(r), [("bad", "push \\")]))
            continue
        cs = [draw(r, n) for _ in range(r.choice((1, 1, 1, 2, 3)))]
        if not interactive:
            cs = [c for c in cs if c[0] in ("push", "set", "set_candidates", "stack", "exit") and all(not isinstance(v, int) or v < n + 1 for v in c[1:3])] or [("push",)]
            cs = [c if c[0] not in ("set", "set_candidates") else (c[0], c[1] % n, c[2] % n, c[3]) for c in cs]
        ps = pieces(r, r.choice(("; ", ";", " ;  ")).join(text(c) for c in cs))
        for p in ps[:-1]:
            out.append((blank(r) + p + "\\" + blank(r) + (r.choice(("", "", "# more", "#\\"))), None))
        if r.random() < .1 and len(ps) == 1:
            out.append((blank(r) + ps[0] + "\\" + blank(r), None))
            out.append((blank(r) + comment(r), cs))
        else:
            out.append((blank(r) + ps[-1] + blank(r) + comment(r), cs))
    if r.random() < .15:
        out.append(("push\\", None))
    return out


def history(seed):
    r = random.Random(seed)
    from sudokutools.shell import Shell
    interactive = r.random() < .6
    n = 9
    lines = script(r, n, interactive)
    src = "\n".join(l for l, _ in lines) + ("\n" if lines and (not lines[-1][0] or r.random() < .7) else "")
    infile = Input(src)
    infile.at = ()
    if interactive and r.random() < .2:
        # an interrupt at the prompt is an empty line; here only where nothing waits for its rest
        free = [i for i in range(len(lines)) if i == 0 or lines[i - 1][1] is not None]
        infile.at = tuple(i + 1 for i in free if r.random() < .2)
        k = 0
        at = []
        for i in range(len(lines)):
            if i + 1 in infile.at:
                k += 1
                at.append(i + k)
        infile.at = tuple(at)
    sh = Shell(interactive=interactive, infile=infile, outfile=io.StringIO())
    m = Model(M.snap(sh.sudoku))
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        sh.run()
    finally:
        sys.stderr = err
    used = 0
    for l, cs in lines:
        if not m.running:
            break
        used += len(l) + 1
        for c in cs or ():
            bad = m.do(c)
            ok(interactive or not bad, "the script is free of errors")
    done = src.split("\n") + (["(interrupted at the prompts %r)" % (infile.at,)] if infile.at else [])
    compare(sh, m, done)
    eq(len(src[infile.tell():].splitlines()), len(src[used:].splitlines()), "lines left unread after %r" % done)


def search(ctx):
    while ctx.left() > 0:
        ctx.run("script", history, ctx.rng.randrange(1 << 30))
