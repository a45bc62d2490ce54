from refute.base import eq, dims
from refute import model as M

BOUND = "sudokus with side <= 12 (random, partly filled, with conflicts and out-of-range numbers), prior random candidates"


def search(ctx):
    import random
    rng = ctx.rng

    def case(w, h, seed, mode):
        from sudokutools import solve
        rng = random.Random(seed)
        n = w * h
        grid = M.fields(w, h)
        if mode == 0:
            g = M.noise(w, h, rng, 0, n + 2, rng.choice((.1, .4, 1)))
        else:
            g = M.keep(M.full(w, h, rng), rng.randint(0, n * n), rng)
        pe = M.peers(w, h)
        want = {p: frozenset([g[p]]) if g[p] else frozenset(range(1, n + 1)) - {g[q] for q in pe[p]} for p in grid}
        old = M.random_cands(w, h, rng)
        what = " of " + M.line(w, h, g)
        s = M.make(w, h, g, old)
        for p in rng.sample(grid, min(len(grid), 12)):
            got = solve.calc_candidates(s, *p)
            eq((set(got), len(got)), (set(want[p]), len(want[p])), "calc_candidates(%d, %d)%s" % (p[0], p[1], what))
        eq(M.snap(s), (g, old), "sudoku after calc_candidates" + what)
        for args, kw in (((), {}), ((False,), {}), ((True,), {}), ((), dict(filled_only=True))):
            fo = bool(args and args[0]) or kw.get("filled_only", False)
            s = M.make(w, h, g, old)
            solve.init_candidates(s, *args, **kw)
            eq(M.nums(s), g, "numbers after init_candidates" + what)
            eq(M.cands(s), {p: want[p] if g[p] or not fo else old[p] for p in grid},
               "candidates after init_candidates(%s)%s" % (fo, what))

    sizes = dims(12)
    k = 0
    while ctx.left() > 0 and k < (20000 if ctx.thorough else 800):
        w, h = sizes[k // 4 % len(sizes)]
        ctx.run("case", case, w, h, rng.randrange(1 << 30), k % 4)
        k += 1
