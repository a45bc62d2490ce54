from refute import model as M
from refute.base import Bad, dims, eq, ok, short

BOUND = "box sizes with side <= 16, sudokus with arbitrary numbers and candidates, up to all fields named, repeated fields, one-digit candidates in the notation"


def some_fields(fs, r):
    kind = r.random()
    if kind < .35:
        return r.sample(fs, r.randint(1, min(5, len(fs))))
    if kind < .6:
        return [r.choice(fs) for _ in range(r.randint(1, min(len(fs), 12)))]
    if kind < .7:
        return list(fs)
    k, q = r.choice(fs)[r.randrange(2)], r.randrange(2)
    return [f for f in fs if f[q] == k]


def execute(w, h, seed):
    import random
    r = random.Random(seed)
    from sudokutools.actions import RemoveCandidates, SetNumber
    g, c = M.noise(w, h, r, 0, None, r.choice((0, .1, .4, .8))), M.random_cands(w, h, r, r.choice((0, .1, .3, .6, .9)))
    cs = some_fields(M.fields(w, h), r)
    if r.random() < .1:
        cs = []
    s = M.make(w, h, g, c)
    if r.random() < .5:
        n = r.choice((0, r.randint(1, w * h), r.randint(1, w * h)))
        a, what = SetNumber(tuple(cs), n), "SetNumber(%r, %r)" % (cs, n)
        for f in cs:
            g[f], c[f] = n, {n}
    else:
        vs = r.sample(range(0, w * h + 1), r.randint(0, min(w * h, 5)))
        make = r.choice((set, list, tuple, frozenset))
        a, what = RemoveCandidates(tuple(cs), make(vs)), "RemoveCandidates(%r, %r)" % (cs, make(vs))
        for f in cs:
            c[f] = c[f] - set(vs)
    before = M.line(w, h, M.snap(s)[0])
    eq(M.snap(s)[0].keys(), g.keys(), "fields")
    a(s)
    eq(M.snap(s), (g, c), "numbers and candidates after %s on %s" % (what, before))


def trip(w, h, seed):
    import random
    r = random.Random(seed)
    from sudokutools.actions import RemoveCandidates, SetNumber
    from sudokutools.notation import decode_action, encode_action
    cs = some_fields(M.fields(w, h), r)
    if r.random() < .5:
        n = r.choice((0, 1, w * h, r.randint(1, w * h), r.randint(0, 1000)))
        a, what = SetNumber(tuple(cs), n), "SetNumber(%r, %r)" % (cs, n)
    else:
        vs = r.sample(range(10), r.randint(0, 9))
        make = r.choice((set, list, tuple, frozenset))
        a, what = RemoveCandidates(tuple(cs), make(vs)), "RemoveCandidates(%r, %r)" % (cs, make(vs))
    try:
        t = encode_action(*short((a, w, h), (3, 3)))
        ok(isinstance(t, str), "encode_action(%s, %d, %d) is %r" % (what, w, h, t))
        b = decode_action(*short((t, w, h), (3, 3)))
    except Bad:
        raise
    except Exception as e:
        raise Bad("encoding and decoding %s with %dx%d boxes raised %s: %s" % (what, w, h, type(e).__name__, e))
    what = "decode_action(%r, %d, %d)" % (t, w, h)
    eq(type(b).__name__, type(a).__name__, "the kind of " + what)
    eq(sorted(set(b.coordinates)), sorted(set(cs)), "the fields of " + what)
    if isinstance(a, SetNumber):
        eq(b.number, n, "the number of " + what)
    else:
        eq(sorted(set(b.candidates)), sorted(vs), "the candidates of " + what)


def search(ctx):
    sizes = dims(16) + [(3, 3)] * 8
    k = 0
    while ctx.left() > 0 and k < 200000:
        w, h = sizes[k // 2 % len(sizes)]
        ctx.run("trip" if k % 2 else "execute", trip if k % 2 else execute, w, h, ctx.rng.randrange(1 << 30))
        k += 1
