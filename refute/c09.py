import random

from refute import model as M
from refute.base import dims, eq, ok, raises

BOUND = "generate_from_template for box sizes with side <= 6 (some 8, 9), templates from reduced sudokus, full, empty and random patterns, tries 0, 1, many, negative"


def case(w, h, g, tries, sure, seed, cands):
    from sudokutools.generate import generate_from_template
    t = M.make(w, h, g, M.random_cands(w, h, random.Random(seed)) if cands else None)
    random.seed(seed)
    before = M.snap(t)
    what = " of generate_from_template(%s, tries=%r) with random.seed(%d)" % (M.line(w, h, g), tries, seed)
    args = (t,) if tries is None else (t, tries)
    try:
        s = generate_from_template(*args)
    except RuntimeError:
        ok(tries is None or tries >= 0, "RuntimeError with unlimited tries" + what)
        ok(not sure, "RuntimeError although nearly every attempt succeeds" + what)
        eq(M.snap(t), before, "template after the failure" + what)
        return
    eq(M.snap(t), before, "template" + what)
    ok(s is not t, "the template itself is the result" + what)
    ok(tries != 0, "a result without an attempt" + what)
    eq(tuple(s.box_size), (w, h), "box size" + what)
    r = M.nums(s)
    eq({p for p in r if r[p]}, {p for p in g if g[p]}, "filled fields" + what)
    ok(all(type(v) is int and 0 <= v <= w * h for v in r.values()), "numbers%s: %s" % (what, M.line(w, h, r)))
    try:
        eq(len(M.completions(w, h, r, 2, 100000)), 1, "completions (at most 2 counted)%s: %s" % (what, M.line(w, h, r)))
    except M.TooMany:
        pass


def hopeless(w, h, tries, seed):
    from sudokutools.generate import generate_from_template
    random.seed(seed)
    t = M.make(w, h, {p: 0 for p in M.fields(w, h)}, None)
    raises(RuntimeError, lambda: generate_from_template(t, tries), "generate_from_template of an empty %dx%d template with %d tries" % (w, h, tries))
    raises(RuntimeError, lambda: generate_from_template(t, tries=tries), "generate_from_template of an empty %dx%d template with tries=%d" % (w, h, tries))


def none(w, h, seed):
    from sudokutools.generate import generate_from_template
    t = M.make(w, h, M.full(w, h, random.Random(seed)), None)
    raises(RuntimeError, lambda: generate_from_template(t, tries=0), "generate_from_template of a full %dx%d template with tries=0" % (w, h))


def search(ctx):
    rng = ctx.rng
    for w, h in dims(6):
        ctx.run("none", none, w, h, rng.randrange(1 << 30))
        for tries in (0, 1, 2, 3):
            if w * h > 1:
                ctx.run("hopeless", hopeless, w, h, tries, rng.randrange(1 << 30))
    sz = dims(6) + [(2, 2)] * 6 + [(2, 3), (3, 2)] * 2
    k = 0
    while ctx.left() > 0 and k < (50000 if ctx.thorough else 2500):
        w, h = rng.choice(sz) if k % 25 != 24 else rng.choice(((3, 3), (2, 4), (4, 2)))
        n = w * h
        kind = k % 5
        sure = False
        tries = rng.choice((1, 1, 2, 3, 5))
        if kind == 0:          # every attempt succeeds
            g, sure, tries = M.full(w, h, rng), True, rng.choice((1, 1, 2, 100, None, -1))
        elif kind == 1:        # one empty field
            g, sure, tries = M.full(w, h, rng), True, rng.choice((1, 2, None, -1, -5))
            g[rng.choice(sorted(g))] = 0
        elif kind == 2:
            g = M.reduced(w, h, rng, rng.choice((0, n * n // 2)))
        elif kind == 3:        # any values at the filled fields
            g = {p: rng.choice((0, 1, 1, n, n + 5, -1)) for p in M.fields(w, h)}
        else:
            g = M.keep(M.full(w, h, rng), rng.randint(n * n * 2 // 3, n * n), rng)
        ctx.run("template", case, w, h, g, tries, sure, rng.randrange(1 << 30), rng.random() < .3)
        k += 1
