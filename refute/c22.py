from refute import model as M
from refute.base import dims, eq, ok

BOUND = "random numbers and candidates, side <= 12"


def case(w, h, seed):
    import random
    rng = random.Random(seed)
    from sudokutools.solvers import HiddenSingle, NakedSingle
    from refute.steps import state
    if seed % 3:
        g, c = M.noise(w, h, rng, 0, None, rng.choice((0, .1, .4, .8))), M.random_cands(w, h, rng, rng.choice((.1, .3, .6, .9)))
    else:
        _, g, c = state(w, h, rng, rng.randrange(60))
    s = M.make(w, h, g, c)
    what = " on %s with candidates %s" % (M.line(w, h, g), {p: sorted(v) for p, v in c.items()})
    got = [(tuple(map(tuple, st.affected)), tuple(st.values)) for st in NakedSingle.find(s)]
    eq(got, [((p,), tuple(c[p])) for p in M.fields(w, h) if not g[p] and len(c[p]) == 1], "NakedSingle.find" + what)
    want = {}
    for p in M.fields(w, h):
        if not g[p]:
            vs = set()
            for u in M.units(w, h):
                if p in u:
                    vs |= set(range(1, w * h + 1)) - set().union(*(c[q] for q in u if q != p))
            if vs:
                want[p] = vs
    steps = list(HiddenSingle.find(s))
    eq(sorted({tuple(st.affected[0]) for st in steps}), sorted(want), "fields of HiddenSingle.find" + what)
    for st in steps:
        ok(len(st.affected) == len(st.values) == 1 and st.values[0] in want[tuple(st.affected[0])], "%s is no hidden single%s" % (st, what))
    eq(M.snap(s), (g, c), "the sudoku after searching" + what)


def search(ctx):
    sizes = dims(9 if not ctx.thorough else 12)
    k = 0
    while ctx.left() > 0 and k < 100000:
        w, h = sizes[k % len(sizes)]
        ctx.run("state", case, w, h, ctx.rng.randrange(1 << 30))
        k += 1
