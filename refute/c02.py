import random

from refute import model as M
from refute import solutions as S

BOUND = "sudokus with side <= 9 (thorough: 12), unsolvable, unique and with up to 320 completions, conflicting givens"


def search(ctx):
    def case(w, h, seed, kind):
        from sudokutools.solve import bruteforce
        rng = random.Random(seed)
        g, sols, some = S.problem(w, h, rng, kind)
        if sols is None:
            return
        S.compare("bruteforce", bruteforce, w, h, g, sols, rng, M.random_cands(w, h, rng) if rng.random() < .3 else None)
    sz = S.sizes(ctx.thorough)
    k = 0
    while ctx.left() > 0 and k < (200000 if ctx.thorough else 1500):
        w, h = sz[k // S.KINDS % len(sz)]
        ctx.run("case", case, w, h, ctx.rng.randrange(1 << 30), k % S.KINDS)
        k += 1
