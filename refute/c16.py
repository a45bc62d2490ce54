from refute.base import eq, dims
from refute import model as M

BOUND = "sudokus of side <= 12 (one-digit values without number separator), with and without candidates, random white space and separators"
WS = " \t\n\r\x0b\x0c"


def search(ctx):
    import random
    rng = ctx.rng
    from sudokutools.sudoku import Sudoku

    def text(w, h, g, rx, cx):
        n = w * h
        return rx.join(cx.join(str(g[r, c]) for c in range(n)) for r in range(n))

    def cells(w, h, cs):
        return ["".join(str(v) for v in sorted(cs[p])) for p in M.fields(w, h)]

    def check(s, w, h, g, cs, what):
        eq(s.box_size, (w, h), "box size read back" + what)
        eq(M.nums(s), g, "numbers read back" + what)
        eq(M.cands(s), cs, "candidates read back" + what)

    def strew(rng, t):
        out = [rng.choice(WS) * rng.randint(0, 2)]
        for c in t:
            out.append(c)
            if rng.random() < 0.2:
                out.append(rng.choice(WS) * rng.randint(1, 2))
        return "".join(out)

    def one_digit(w, h, seed):
        rng = random.Random(seed)
        g = M.noise(w, h, rng, 0, 9, rng.choice((0, .3, 1)))
        none = {p: frozenset() for p in g}
        cs = {p: frozenset(v for v in range(0, 10) if rng.random() < d) for d in [rng.choice((0, .2, .7, 1))] for p in g}
        if rng.random() < 0.15:
            few = rng.sample(sorted(g), rng.randint(0, 1)) + [max(g)] * rng.randint(0, 1)
            cs = {p: frozenset([rng.choice((0, 1, 9))] if p in few else []) for p in g}
        s = M.make(w, h, g, cs)
        before = M.snap(s)
        what = " of %s %s" % (M.line(w, h, g), sorted((p, sorted(v)) for p, v in cs.items())[:20])
        rx = "".join(rng.choice(WS) for _ in range(rng.randint(0, 2)))
        cx = "".join(rng.choice(WS) for _ in range(rng.randint(0, 2)))
        for a, b in (("", ""), (rx, cx), ("/", "; ")):
            t = s.encode(row_sep=a, col_sep=b)
            eq(t, text(w, h, g, a, b), "encode(%r, %r)" % (a, b) + what)
            u = s.encode(a, b, include_candidates=True)
            eq(u, t + "|" + ",".join(cells(w, h, cs)), "encode(%r, %r, include_candidates=True)" % (a, b) + what)
            if a == "/":
                continue
            for v, k in ((t, none), (u, cs)):
                for x in (v, strew(rng, v)):
                    for sep in (None, ""):
                        check(Sudoku.decode(x, number_sep=sep, box_size=(w, h)), w, h, g, k, " from %r (box size given)" % x + what)
                    if w == h:
                        check(Sudoku.decode(x), w, h, g, k, " from %r" % x + what)
        eq(s.encode(), text(w, h, g, "", ""), "default encoding" + what)
        eq(M.snap(s), before, "sudoku after encoding" + what)
        # other marks
        e, sx, kx = rng.choice(((".", "|", ","), (".", "#", ";"), ("x", "::", "--"), ("_", ";", "|"), ("*", "\n", ",")))
        t = "".join(e if g[p] == 0 else str(g[p]) for p in M.fields(w, h))
        for incl in (False, True):
            v = t + (sx + kx.join(cells(w, h, cs)) if incl else "")
            if v.strip() != v:
                continue
            check(Sudoku.decode(v, empty=e, sudoku_sep=sx, candidate_sep=kx, box_size=(w, h)), w, h, g, cs if incl else none, " from %r with empty=%r, sudoku_sep=%r, candidate_sep=%r" % (v, e, sx, kx))

    def separated(w, h, seed):
        rng = random.Random(seed)
        g = M.noise(w, h, rng, 0, rng.choice((9, w * h, 12345)), rng.choice((0, .3, 1)))
        none = {p: frozenset() for p in g}
        s = M.make(w, h, g)
        x = rng.choice((" ", ",", ";", "-", "::", ", ", "a", "\t", ".", "; ", "\n"))
        blanks = [c for c in WS if c not in x]
        rx, cx = rng.choice([x] + blanks), rng.choice((x, x, rng.choice(blanks)))
        what = " of %s" % M.line(w, h, g)
        t = s.encode(row_sep=rx, col_sep=cx)
        eq(t, text(w, h, g, rx, cx), "encode(%r, %r)" % (rx, cx) + what)
        check(Sudoku.decode(t, number_sep=x, box_size=(w, h)), w, h, g, none, " from %r with number_sep=%r (box size given)" % (t, x))
        if w == h:
            check(Sudoku.decode(t, number_sep=x), w, h, g, none, " from %r with number_sep=%r" % (t, x))
        e = rng.choice((".", "--", "xy"))
        if not set(e) & set(x):
            t = x.join(e if g[p] == 0 else str(g[p]) for p in M.fields(w, h))
            check(Sudoku.decode(t, empty=e, number_sep=x, box_size=(w, h)), w, h, g, none, " from %r with empty=%r, number_sep=%r" % (t, e, x))

    sizes = dims(12)
    k = 0
    while ctx.left() > 0 and k < (20000 if ctx.thorough else 700):
        w, h = sizes[k // 2 % len(sizes)]
        if k % 10 >= 8:
            w, h = rng.choice(((2, 2), (3, 3), (4, 4), (1, 1)))
        ctx.run("text", separated if k % 2 else one_digit, w, h, rng.randrange(1 << 30))
        k += 1
