from refute import model as M
from refute.base import Bad, dims, eq, ok
from refute.steps import TECH, compatible, effect, state, technique

BOUND = "states compatible with a known completion, side <= 12, all techniques (tuple sizes 1-6), steps applied after or during the search, apply_all and hints"


def case(w, h, seed, mode, name, how):
    import random
    rng = random.Random(seed)
    full, g, c = state(w, h, rng, mode)
    if name == "CalculateCandidates":
        for p in M.fields(w, h):
            if rng.random() < .6:
                c[p] = frozenset()
    part = name == "CalculateCandidates"
    from sudokutools import solvers
    s = M.make(w, h, g, c)
    what = "%s on %s with candidates %s, completion %s" % (name, M.line(w, h, g), {p: sorted(v) for p, v in c.items()}, M.line(w, h, full))
    if name == "hints":
        find = lambda s: solvers.hints(s)
    else:
        cls = technique(name)
        find = cls.find
    if how == 2 and name != "hints":
        cls.apply_all(s)
        compatible(w, h, full, M.nums(s), M.cands(s), part, "after apply_all of " + what)
        return
    steps = find(s)
    if how == 0:
        steps = list(steps)
    for i, st in enumerate(steps):
        before = M.snap(s)
        try:
            compatible(w, h, full, *effect(w, h, *before, st), part or name == "hints", "")
        except Bad as e:
            raise Bad("step %s%s" % (st, e.what), where=what)
        if how == 1:
            st.apply(s)
            compatible(w, h, full, M.nums(s), M.cands(s), part or name == "hints", "applying step %d, %s, of %s" % (i, st, what))
        elif i < 8:
            t = s.copy(include_candidates=True)
            st.apply(t)
            compatible(w, h, full, M.nums(t), M.cands(t), part or name == "hints", "applying %s of %s" % (st, what))


def search(ctx):
    ctx.limit, ctx.slow_is_bad = 4, False
    sizes = [d for d in dims(9 if not ctx.thorough else 12) if d != (1, 1)]
    weights = sizes + [(2, 2), (3, 2), (2, 3), (3, 3), (3, 3), (4, 2), (2, 4)] * 2
    names = TECH + ["hints", "SixNakedTuple", "SixHiddenTuple", "OneNakedTuple", "OneHiddenTuple"]
    k = 0
    while ctx.left() > 0 and k < 200000:
        w, h = weights[k % len(weights)] if k % 2 else ctx.rng.choice(weights)
        ctx.run("state", case, w, h, ctx.rng.randrange(1 << 30), ctx.rng.randrange(60), names[k % len(names)], ctx.rng.randrange(3))
        k += 1
