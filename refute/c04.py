from refute.base import eq, dims
from refute import model as M

BOUND = "sudokus with side <= 9 (random conflicts, planted single conflicts, full grids, near-full grids), every/selected coordinates"


def search(ctx):
    import random
    rng = ctx.rng

    def case(w, h, seed, mode):
        from sudokutools import analyze
        rng = random.Random(seed)
        n = w * h
        grid = M.fields(w, h)
        if mode == 0:
            g = M.noise(w, h, rng, 0, n + 2, rng.choice((.1, .4, 1)))
        else:
            g = M.full(w, h, rng)
            if mode >= 2:
                g = M.keep(g, rng.randint(0, len(g)), rng)
            if mode % 2 == 0 or mode == 5:
                p = rng.choice(grid)
                g[p] = rng.randint(0, n)
        s = M.make(w, h, g, M.random_cands(w, h, rng) if seed % 3 == 0 else None)
        before = M.snap(s)
        pe = M.peers(w, h)
        want = sorted((p, q, g[p]) for p in grid if g[p] for q in pe[p] if g[p] == g[q])
        what = " of " + M.line(w, h, g)
        got = list(analyze.find_conflicts(s))
        eq(sorted(got), want, "find_conflicts" + what)
        eq(analyze.is_solved(s), not want and all(g.values()), "is_solved" + what)
        for k in (1, 2, len(grid)):
            cs = rng.sample(grid, min(k, len(grid)))
            eq(sorted(analyze.find_conflicts(s, *cs)), [t for t in want if t[0] in cs], "find_conflicts(%s)%s" % (cs, what))
        eq(M.snap(s), before, "sudoku afterwards" + what)

    sizes = dims(9)
    k = 0
    while ctx.left() > 0 and k < (20000 if ctx.thorough else 1200):
        w, h = sizes[k // 6 % len(sizes)]
        ctx.run("case", case, w, h, rng.randrange(1 << 30), k % 6)
        k += 1
