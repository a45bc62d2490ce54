import re

from refute.base import eq, dims, short, Bad
from refute import model as M

BOUND = "box sizes with side <= 16, sets of fields of any size, separators of one or two characters, well-formed and damaged texts"
WS = " \t\n\r\x0b\x0c"
SEPS = (",", ",", ";", "/", " ", ", ", "--", "::", "\n")
NSEPS = ("", "", ",", ".", " ", "-", ";")


def plain(t, sep, nsep):
    return t if set(WS) & set(sep + nsep) else "".join(c for c in t if c not in WS)


def unit(q, k, w, h):
    n = w * h
    if q == "r":
        return {(k, c) for c in range(n)}
    if q == "c":
        return {(r, k) for r in range(n)}
    box = {(r, c): (r // h * h + c // w, r % h * w + c % w) for r in range(n) for c in range(n)}
    return {p for p in box if box[p][q == "p"] == k}


def read(t, w, h, sep, nsep):
    """the fields of a text, None if it is malformed: an independent reading of the notation"""
    n = w * h
    nsep = nsep or ("," if n > 9 else "")
    out = set()
    for g in re.split(re.escape(sep) + "(?=[rcbp])", plain(t, sep, nsep)):
        items = re.findall("([rcbp])([^rcbp]*)", g)
        if not items or "".join(a + b for a, b in items) != g or len({a for a, b in items}) < len(items):
            return None
        fs = None
        for q, x in items:
            ks = list(x) if not nsep else x.split(nsep)
            if not ks or not all(re.fullmatch("[0-9]+", k) and 1 <= int(k) <= n for k in ks):
                return None
            u = set().union(*(unit(q, int(k) - 1, w, h) for k in ks))
            fs = u if fs is None else fs & u
        out |= fs
    return tuple(sorted(out))


def search(ctx):
    import random
    rng = ctx.rng
    from sudokutools import notation

    def decoded(t, w, h, sep, nsep):
        want = read(t, w, h, sep, nsep)
        what = "decode(%r, %d, %d, %r, %r)" % (t, w, h, sep, nsep)
        try:
            got = notation.decode(*short((t, w, h, sep, nsep), (3, 3, ',', '')))
            if got == want and want is not None:
                got = notation.decode(t, w, h, sep, nsep)
        except ValueError:
            got = None
        if got != want:
            raise Bad("%s: got %s, expected %s" % (what, "ValueError" if got is None else repr(got)[:400], "ValueError" if want is None else repr(want)[:400]))

    def trip(w, h, seed):
        r = random.Random(seed)
        n = w * h
        fs = M.fields(w, h)
        kind = r.random()
        if kind < .3:
            cs = r.sample(fs, r.randint(1, min(5, len(fs))))
        elif kind < .5:
            cs = list(set(r.choice(fs) for _ in range(r.randint(1, len(fs)))))
        elif kind < .7:
            cs = [p for p in fs if r.random() < .8] or fs[:1]
        else:
            cs = list(set().union(*(unit(r.choice("rcbp"), r.randrange(n), w, h) for _ in range(r.randint(1, 3)))))
        if r.random() < .3:
            cs += r.sample(cs, 1)
        sep, nsep = r.choice(SEPS), r.choice(NSEPS)
        if r.random() < .2:
            sep, nsep = ",", ""
        for ub in (True, False, None):
            for given in (tuple(cs), sorted(cs)):
                what = "encode(%r, %d, %d, %r, %r, %r)" % (given, w, h, ub, sep, nsep)
                t = notation.encode(given, w, h, ub, sep, nsep)
                few = short((given, w, h, ub, sep, nsep), (3, 3, None, ",", ""))
                if len(few) < 6 and type(t) is str:
                    u = notation.encode(*few)
                    eq(read(u, w, h, sep, nsep), tuple(sorted(set(cs))), "meaning of encode%r = %r" % (tuple(few), u))
                if type(t) is not str:
                    raise Bad("%s: got %r" % (what, t))
                eq(read(t, w, h, sep, nsep), tuple(sorted(set(cs))), "meaning of %s = %r" % (what, t))
                eq(notation.decode(t, w, h, sep, nsep), tuple(sorted(set(cs))), "decoding of %s = %r" % (what, t))
        if set(WS) & set(sep + nsep):
            return
        t = "".join(c + (r.choice(WS) * r.randint(0, 2) if r.random() < .3 else "") for c in t)
        decoded(t, w, h, sep, nsep)

    def outside(w, h, seed):
        r = random.Random(seed)
        n = w * h
        f = r.choice(((-1, 0), (0, -1), (n, 0), (0, n), (n + 3, n - 1), (n - 1, n + 1)))
        cs = [r.choice(M.fields(w, h)) for _ in range(r.randint(0, 3))]
        cs.insert(r.randint(0, len(cs)), f)
        for ub in (True, False, None):
            try:
                t = notation.encode(cs, w, h, ub)
            except ValueError:
                continue
            raise Bad("encode(%r, %d, %d, %r) = %r, expected ValueError" % (cs, w, h, ub, t))
        for a, b in ((0, 3), (3, 0), (-1, 2), (2, -2), (2.5, 2), (2, 1.5)):
            for f in (lambda: notation.encode(((0, 0),), a, b), lambda: notation.decode("r1c1", a, b)):
                try:
                    t = f()
                except ValueError:
                    continue
                raise Bad("width %r, height %r: got %r, expected ValueError" % (a, b, t))

    def texts(w, h, seed):
        r = random.Random(seed)
        n = w * h
        sep, nsep = r.choice(SEPS), r.choice(NSEPS)
        if r.random() < .2:
            sep, nsep = ",", ""
        e = nsep or ("," if n > 9 else "")
        groups = []
        for _ in range(r.randint(1, 3)):
            qs = r.sample("rcbp", r.choice((1, 2, 2, 2, 3, 4)))
            groups.append("".join(q + e.join(str(r.randint(1, n)) for _ in range(r.choice((1, 1, 2, 3)))) for q in qs))
        t = sep.join(groups)
        decoded(t, w, h, sep, nsep)
        for _ in range(r.randint(1, 3)):
            k = r.randrange(len(t) + 1)
            c = r.choice("rrccbbpp0123456789,,;. -x" + sep + str(n + 1))
            t = r.choice((t[:k] + t[k + 1:], t[:k] + c + t[k:], t[:k] + c + t[k + 1:], t[:k] + t[k:] + t[k:], t[:k]))
            decoded(t, w, h, sep, nsep)

    sizes = dims(12) + [(4, 4), (2, 8), (16, 1), (3, 3), (3, 3), (3, 3), (3, 3)]
    k = 0
    for t in ("", ",", "r", "r1c", "r1r1", "1", "r1,", "r1,,c2", "rr", "c1,2", "r1c10", "r0c1", "r1,r", "r 1 c 2", "r1c1,r1c1", "b1p1r1", "b1p2r2", "b9p9c1"):
        ctx.run("text", decoded, t, 3, 3, ",", "")
    ctx.run("outside", outside, 3, 3, 1)
    while ctx.left() > 0 and k < (40000 if ctx.thorough else 6000):
        w, h = sizes[k // 3 % len(sizes)]
        ctx.run("notation", (trip, texts, outside)[k % 3] if k % 30 < 20 else texts, w, h, rng.randrange(1 << 30))
        k += 1
