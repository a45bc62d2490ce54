import random

from refute import model as M
from refute.base import dims, eq, ok

BOUND = "create_solution for all box sizes with side <= 12 (thorough: 16) except thin large ones, many random states, default box size"


def case(w, h, seed, how):
    from sudokutools.generate import create_solution
    random.seed(seed)
    if how == 0 and (w, h) == (3, 3):
        s = create_solution()
    elif how == 1:
        s = create_solution((w, h))
    else:
        s = create_solution(box_size=(w, h))
    what = " of create_solution(box_size=%r) with random.seed(%d)" % ((w, h), seed)
    eq(tuple(s.box_size), (w, h), "box size" + what)
    g = M.nums(s)
    eq(set(g), set(M.fields(w, h)), "fields" + what)
    ok(all(type(v) is int and 1 <= v <= w * h for v in g.values()), "numbers%s: %s" % (what, M.line(w, h, g)))
    ok(M.valid(w, h, g), "not a valid solved sudoku%s: %s" % (what, M.line(w, h, g)))
    other = create_solution(box_size=(w, h))
    ok(other is not s, "the same object twice" + what)
    if g:
        before = M.snap(other)
        s.set_number(0, 0, 0)
        eq(M.snap(other), before, "second solution after changing the first" + what)


def search(ctx):
    thin = 7 if not ctx.thorough else 9
    sz = [(w, h) for w, h in dims(12 if not ctx.thorough else 16) if w * h <= 9 or min(w, h) > 1]
    small = [d for d in sz if d[0] * d[1] <= thin] + [(3, 3)] * 3 + [(2, 3), (3, 2), (2, 4), (4, 2)]
    k = 0
    for w, h in sz:
        ctx.run("create", case, w, h, ctx.rng.randrange(1 << 30), 1)
    while ctx.left() > 0 and k < (20000 if ctx.thorough else 1500):
        w, h = small[k % len(small)]
        ctx.run("create", case, w, h, ctx.rng.randrange(1 << 30), k // len(small) % 3)
        k += 1
