import random

from refute import model as M
from refute import solutions as S
from refute.base import eq

BOUND = "sudokus with side <= 9 (thorough: 12), unsolvable, unique and with up to 320 completions, conflicting and out-of-range givens"


def search(ctx):
    def case(w, h, seed, kind):
        from sudokutools.solve import dlx
        rng = random.Random(seed)
        g, sols, some = S.problem(w, h, rng, kind)
        if sols is None:
            return
        S.compare("dlx", dlx, w, h, g, sols, rng, M.random_cands(w, h, rng) if rng.random() < .3 else None)

    def outside(w, h, seed):
        from sudokutools.solve import dlx
        rng = random.Random(seed)
        n = w * h
        g = M.keep(M.full(w, h, rng), rng.randint(0, n * n - 1), rng)
        p = rng.choice(sorted(g))
        g[p] = rng.choice((n + 1, -1, n + 7, 2 * n, -n, 0 - rng.randint(1, n)))
        s = M.make(w, h, g)
        for t in dlx(s):
            eq(M.line(w, h, M.nums(t)), None, "solution with a given outside 1..%d of %s" % (n, M.line(w, h, g)))
    sz = S.sizes(ctx.thorough)
    k = 0
    while ctx.left() > 0 and k < (200000 if ctx.thorough else 1500):
        w, h = sz[k // S.KINDS % len(sz)]
        ctx.run("case", case, w, h, ctx.rng.randrange(1 << 30), k % S.KINDS)
        if k % 4 == 0:
            ctx.run("outside", outside, w, h, ctx.rng.randrange(1 << 30))
        k += 1
