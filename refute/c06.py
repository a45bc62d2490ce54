from refute.base import eq, dims
from refute import model as M

BOUND = "all box sizes with side length <= 12 (16 thorough), every field"


def search(ctx):
    from sudokutools.sudoku import Sudoku

    def geometry(w, h):
        s = Sudoku((w, h))
        n = w * h
        grid = M.fields(w, h)
        eq((s.box_size, s.box_width, s.box_height), ((w, h), w, h), "size of Sudoku((%d, %d))" % (w, h))
        eq((tuple(s.indices), tuple(s.numbers)), (tuple(range(n)), tuple(range(1, n + 1))), "indices/numbers (%d, %d)" % (w, h))
        eq(list(s), grid, "iteration of Sudoku((%d, %d))" % (w, h))
        it, jt = iter(s), iter(s)
        eq([x for pair in zip(it, jt) for x in pair], [q for q in grid for _ in (0, 1)], "two iterations at once (%d, %d)" % (w, h))
        eq(len(s), n * n, "len(Sudoku((%d, %d)))" % (w, h))
        boxes = {}
        for p in grid:
            r, c = p
            sels = (("row_of", lambda q: q[0] == r), ("column_of", lambda q: q[1] == c),
                    ("box_of", lambda q: M.box(w, h, q) == M.box(w, h, p)),
                    ("surrounding_of", lambda q: q == p or M.sees(w, h, p, q)))
            for name, sel in sels:
                f = getattr(s, name)
                for args in ((), (True,), (False,)):
                    inc = not args or args[0]
                    eq(sorted(f(r, c, *args)), [q for q in grid if sel(q) and (inc or q != p)],
                       "Sudoku((%d, %d)).%s(%d, %d%s)" % (w, h, name, r, c, "".join(", %s" % a for a in args)))
                eq(sorted(f(r, c, include=False)), [q for q in grid if sel(q) and q != p], "%s(%d, %d, include=False) of (%d, %d)" % (name, r, c, w, h))
            b = s.box_at(r, c)
            key = M.box(w, h, p)
            eq(boxes.setdefault(key, b), b, "Sudoku((%d, %d)).box_at(%d, %d)" % (w, h, r, c))
            eq(sorted(s._quad_without_row_and_column_of(r, c)) if hasattr(s, "_quad_without_row_and_column_of") else None,
               [q for q in grid if M.box(w, h, q) == key and q[0] != r and q[1] != c] if hasattr(s, "_quad_without_row_and_column_of") else None,
               "rest of the box of (%d, %d) in (%d, %d)" % (r, c, w, h))
        eq(len(set(boxes.values())), len(boxes), "box_at numbers of (%d, %d)" % (w, h))

    def default():
        s = Sudoku()
        eq((s.box_size, len(s)), ((3, 3), 81), "Sudoku()")

    ctx.run("default size", default)
    for w, h in dims(16 if ctx.thorough else 12):
        ctx.run("geometry", geometry, w, h)
