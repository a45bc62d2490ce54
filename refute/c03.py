import random

from refute import model as M
from refute import solutions as S
from refute.base import eq, ok

BOUND = "sudokus with side <= 9 (thorough: 12), with none, one, two and many completions, conflicting and out-of-range givens"


def search(ctx):
    def case(w, h, seed, kind):
        from sudokutools.analyze import is_unique
        rng = random.Random(seed)
        g, _, some = S.problem(w, h, rng, kind)
        if some is None:
            return
        what = " of " + M.line(w, h, g)
        if rng.random() < .1:
            g[rng.choice(sorted(g))] = rng.choice((w * h + 1, -1))
            some = []
        s = M.make(w, h, g, M.random_cands(w, h, rng) if rng.random() < .3 else None)
        before = M.snap(s)
        r = is_unique(s)
        ok(isinstance(r, bool), "is_unique%s returns %r" % (what, r))
        eq(r, len(some) == 1, "is_unique (%s%d completions)%s" % ("at least " if len(some) > 320 else "", len(some), what))
        eq(M.snap(s), before, "sudoku after is_unique" + what)
    sz = S.sizes(ctx.thorough)
    k = 0
    while ctx.left() > 0 and k < (200000 if ctx.thorough else 1500):
        w, h = sz[k // S.KINDS % len(sz)]
        ctx.run("case", case, w, h, ctx.rng.randrange(1 << 30), k % S.KINDS)
        k += 1
