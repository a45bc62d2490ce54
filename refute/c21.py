from refute import model as M
from refute.base import dims, eq, ok
from refute.steps import TECH, kind, state, technique

BOUND = "random states (compatible with a completion or not), side <= 12, all techniques and hints"


def case(w, h, seed, mode, name):
    import random
    rng = random.Random(seed)
    if mode % 2:
        g, c = M.noise(w, h, rng, 0, None, rng.choice((.1, .4, .8))), M.random_cands(w, h, rng, rng.choice((.1, .3, .6, 1)))
    else:
        _, g, c = state(w, h, rng, mode // 2)
    if mode % 3 == 0:
        for p in M.fields(w, h):
            if rng.random() < .3:
                c[p] = frozenset()
    from sudokutools import solvers
    s = M.make(w, h, g, c)
    what = "%s on %s with candidates %s" % (name, M.line(w, h, g), {p: sorted(v) for p, v in c.items()})
    steps = list(solvers.hints(s) if name == "hints" else technique(name).find(s))
    eq(M.snap(s), (g, c), "the sudoku after searching: " + what)
    for st in steps[:40]:
        t = M.make(w, h, g, c)
        st.apply(t)
        g2, c2 = M.snap(t)
        aff = {tuple(p) for p in st.affected}
        k = kind(st)
        changed = {p for p in g if g[p] != g2[p] or c[p] != c2[p]}
        ok(aff, "%s lists no affected field: %s" % (st, what))
        if not (k == 1 and not st.values):
            ok(aff <= changed, "%s does not change %s: %s" % (st, sorted(aff - changed), what))
        near = set(aff)
        if k == 2:
            near |= set(M.peers(w, h)[min(aff)])
        ok(changed <= near, "%s changes %s: %s" % (st, sorted(changed - near), what))
        nch = {p for p in g if g[p] != g2[p]}
        ok(nch == (aff if k == 2 else set()), "%s changes the numbers of %s: %s" % (st, sorted(nch), what))


def search(ctx):
    ctx.limit, ctx.slow_is_bad = 4, False
    sizes = dims(9 if not ctx.thorough else 12) + [(2, 2), (3, 2), (2, 3), (3, 3), (3, 3)]
    names = TECH + ["hints", "Bruteforce", "SixNakedTuple", "OneNakedTuple", "OneHiddenTuple"]
    k = 0
    while ctx.left() > 0 and k < 200000:
        w, h = sizes[k % len(sizes)] if k % 2 else ctx.rng.choice(sizes)
        ctx.run("state", case, w, h, ctx.rng.randrange(1 << 30), ctx.rng.randrange(60), names[k % len(names)])
        k += 1
