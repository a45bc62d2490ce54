from refute.base import eq, dims
from refute import model as M

BOUND = "pairs of sudokus of equal size (side <= 9) that agree, or differ in 1 field / some fields / candidates only"


def search(ctx):
    import random
    rng = ctx.rng

    def pair(w, h, seed, mode):
        rng = random.Random(seed)
        n = w * h
        grid = M.fields(w, h)
        a = M.noise(w, h, rng, 0, n, rng.choice((0, .3, 1)))
        b = dict(a)
        ca = M.random_cands(w, h, rng) if mode % 2 else {}
        cb = dict(ca)
        if mode >= 4:
            for p in rng.sample(grid, 1 if mode < 8 else rng.randint(1, len(grid))):
                b[p] = rng.randint(0, n)
        if mode % 4 >= 2:
            for p in rng.sample(grid, 1):
                cb[p] = frozenset(v for v in range(1, n + 1) if rng.random() < 0.5)
        s, t = M.make(w, h, a, ca), M.make(w, h, b, cb)
        if mode == 0 and rng.random() < .5:
            t = s
            b, cb = a, ca
        before = M.snap(s), M.snap(t)
        what = " of %s %s and %s %s" % (M.line(w, h, a), sorted((p, sorted(v)) for p, v in ca.items())[:40], M.line(w, h, b), sorted((p, sorted(v)) for p, v in cb.items())[:40])
        same = a == b
        full = same and before[0][1] == before[1][1]
        for x, y in ((s, t), (t, s)):
            eq(x == y, same, "==" + what)
            eq(x != y, not same, "!=" + what)
            eq(x.equals(y), same, "equals" + what)
            eq(x.equals(y, False), same, "equals(candidates=False)" + what)
            eq(x.equals(y, candidates=True), full, "equals(candidates=True)" + what)
            eq(list(x.diff(y)), [p for p in grid if a[p] != b[p]], "diff" + what)
        eq((M.snap(s), M.snap(t)), before, "sudokus after comparison" + what)

    sizes = dims(9)
    k = 0
    while ctx.left() > 0 and k < (20000 if ctx.thorough else 900):
        w, h = sizes[k // 12 % len(sizes)]
        ctx.run("pair", pair, w, h, rng.randrange(1 << 30), k % 12)
        k += 1
