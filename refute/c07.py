from refute.base import eq, raises, dims, short

BOUND = "all box sizes with side length <= 12 (16 thorough), every field and every unit number"


def search(ctx):
    from sudokutools import coordinates as C

    def units(w, h):
        n = w * h
        grid = [(r, c) for r in range(n) for c in range(n)]
        box = {p: (p[0] // h) * h + p[1] // w for p in grid}
        part = {p: (p[0] % h) * w + p[1] % w for p in grid}
        for p in grid:
            r, c = p
            eq(C.box_at(r, c, w, h), box[p], "box_at(%d, %d, %d, %d)" % (r, c, w, h))
            if 3 in (w, h):
                eq(C.box_at(*short((r, c, w, h), (3, 3))), box[p], "box_at%r" % (tuple(short((r, c, w, h), (3, 3))),))
            if w == 3:
                eq(C.box_at(r, c, height=h), box[p], "box_at(%d, %d, height=%d)" % (r, c, h))
            for inc in (True, False):
                for name, sel in (("row_of", lambda q: q[0] == r), ("column_of", lambda q: q[1] == c),
                                  ("box_of", lambda q: box[q] == box[p]),
                                  ("surrounding_of", lambda q: q[0] == r or q[1] == c or box[q] == box[p])):
                    got = list(getattr(C, name)(r, c, w, h, inc))
                    eq(sorted(got), [q for q in grid if sel(q) and (inc or q != p)],
                       "%s(%d, %d, %d, %d, %s)" % (name, r, c, w, h, inc))
                    if inc:
                        few = short((r, c, w, h), (3, 3))
                        eq(sorted(getattr(C, name)(*few)), sorted(got), "%s%r" % (name, tuple(few)))
                    elif w == h == 3:
                        eq(sorted(getattr(C, name)(r, c, include=False)), sorted(got), "%s(%d, %d, include=False)" % (name, r, c))
        for k in range(n):
            for name, sel in (("the_row", lambda q: q[0] == k), ("the_column", lambda q: q[1] == k),
                              ("the_box", lambda q: box[q] == k), ("the_part", lambda q: part[q] == k)):
                eq(sorted(getattr(C, name)(k, w, h)), [q for q in grid if sel(q)], "%s(%d, %d, %d)" % (name, k, w, h))
                few = short((k, w, h), (3, 3))
                eq(sorted(getattr(C, name)(*few)), [q for q in grid if sel(q)], "%s%r" % (name, tuple(few)))
        for k in list(range(-n - 2, 0)) + list(range(n, 2 * n + 3)) + [10 ** 6]:
            for name in ("the_row", "the_column", "the_box", "the_part"):
                raises(ValueError, lambda: getattr(C, name)(k, w, h), "%s(%d, %d, %d)" % (name, k, w, h))

    for w, h in dims(16 if ctx.thorough else 12):
        ctx.run("units", units, w, h)
