import random

from refute import model as M
from refute.base import dims, eq, ok, raises

BOUND = "generate for box sizes with side <= 6 (some 8, 9), every symmetry, min_count from negative over all boundaries to too large, random states, default arguments"

IMAGES = {
    None: lambda n, r, c: [],
    "rotate-90": lambda n, r, c: [(c, n - 1 - r)],
    "rotate-180": lambda n, r, c: [(n - 1 - r, n - 1 - c)],
    "mirror-x": lambda n, r, c: [(n - 1 - r, c)],
    "mirror-y": lambda n, r, c: [(r, n - 1 - c)],
    "mirror-xy": lambda n, r, c: [(n - 1 - r, c), (r, n - 1 - c)],
}


def result(s, w, h, low, sym, what):
    n = w * h
    eq(tuple(s.box_size), (w, h), "box size" + what)
    g = M.nums(s)
    what += ": " + M.line(w, h, g)
    ok(all(type(v) is int and 0 <= v <= n for v in g.values()), "numbers" + what)
    k = sum(map(bool, g.values()))
    ok(k >= low, "%d filled fields%s" % (k, what))
    for (r, c), v in g.items():
        for q in IMAGES[sym](n, r, c):
            ok(bool(v) == bool(g[q]), "%r is %s, its image %r is not%s" % ((r, c), "filled" if v else "empty", q, what))
    try:
        eq(len(M.completions(w, h, g, 2, 100000)), 1, "number of completions (at most 2 counted)" + what)
    except M.TooMany:
        pass
    return k


def case(w, h, low, sym, seed, how):
    from sudokutools.generate import generate
    random.seed(seed)
    kw = dict(min_count=low, symmetry=sym, box_size=(w, h))
    if how == 0:
        a = generate(low, sym, (w, h))
    else:
        if sym is None and how == 1:
            del kw["symmetry"]
        if low == 0:
            del kw["min_count"]
        if (w, h) == (3, 3) and how == 1:
            del kw["box_size"]
        a = generate(**kw)
    result(a, w, h, low, sym, " of generate(%s) with random.seed(%d)" % (", ".join("%s=%r" % x for x in sorted(kw.items())), seed))


def wrong(w, h, low, sym):
    from sudokutools.generate import generate
    raises(ValueError, lambda: generate(min_count=low, symmetry=sym, box_size=(w, h)), "generate(%r, %r, %r)" % (low, sym, (w, h)))


def search(ctx):
    syms = list(IMAGES)
    for w, h in dims(6):
        n = (w * h) ** 2
        for low in (n + 1, n + 7):
            for sym in syms:
                ctx.run("too many", wrong, w, h, low, sym)
        for sym in ("", "none", "rotate", "mirror-yx", "Rotate-90", "rotate-90 ", "mirror", "rotate-270"):
            ctx.run("unknown symmetry", wrong, w, h, 0, sym)
    sz = [d for d in dims(6) if d[0] * d[1] > 1] + [(2, 2)] * 6 + [(2, 3), (3, 2)] * 2
    k = 0
    while ctx.left() > 0 and k < (50000 if ctx.thorough else 2500):
        w, h = sz[ctx.rng.randrange(len(sz))] if k % 40 != 39 else ctx.rng.choice(((3, 3), (2, 4), (4, 2)))
        n = (w * h) ** 2
        low = ctx.rng.choice((0, 0, -1, 1, n, n - 1, n - 2, n - 3, n - 4, n // 2, n // 2 + 1, ctx.rng.randint(0, n), ctx.rng.randint(n // 2, n)))
        if w * h > 6 and ctx.rng.random() < .7:
            low = ctx.rng.randint(n // 2, n)
        ctx.run("generate", case, w, h, low, ctx.rng.choice(syms), ctx.rng.randrange(1 << 30), k % 3)
        k += 1
