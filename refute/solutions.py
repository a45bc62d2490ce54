"""Shared by C01-C03: generators of sudokus and the comparison with the enumerated completions."""
from itertools import islice

from refute import model as M
from refute.base import dims, eq, ok

KINDS = 9


def problem(w, h, rng, kind):
    """(numbers, list of completions or None when there are more than a few)"""
    n = w * h
    if kind == 0:        # several completions: a minimal sudoku minus some fields
        g = M.reduced(w, h, rng, rng.choice((0, n * n // 2)))
        for p in rng.sample([p for p in g if g[p]], min(rng.randint(0, 4), sum(map(bool, g.values())))):
            g[p] = 0
    elif kind == 1:      # a unique one
        g = M.reduced(w, h, rng, rng.choice((0, 0, n * n // 2)))
    elif kind == 2:      # complete
        g = M.full(w, h, rng)
    elif kind == 3:      # two swapped values: unavoidable rectangles, conflicts
        g = M.keep(M.full(w, h, rng), rng.randint(n * n // 2, n * n), rng)
        for p in rng.sample(sorted(g), min(len(g), rng.randint(1, 2))):
            g[p] = rng.randint(0, n)
    elif kind == 4:      # no completion: one wrong number in a reduced one
        g = M.reduced(w, h, rng, n * n // 3)
        e = [p for p in g if not g[p]]
        if e:
            p = rng.choice(e)
            vs = [v for v in range(1, n + 1) if v not in {g[q] for q in M.peers(w, h)[p]}]
            if vs:
                g[p] = rng.choice(vs)
    elif kind == 5:      # few givens
        g = M.keep(M.full(w, h, rng), rng.randint(0, min(n * n, 3 if n <= 4 else n * n // 2)), rng)
    elif kind == 6:      # a single empty unit
        g = M.full(w, h, rng)
        for p in rng.choice(M.units(w, h)):
            g[p] = 0
    elif kind == 8:      # rows and columns without a conflict, boxes with some
        v, a, b = (rng.sample(range(n), n) for _ in range(3))
        g = {(i, j): v[(a[i] + b[j]) % n] + 1 for i in range(n) for j in range(n)}
        for p in rng.sample(sorted(g), rng.randint(0, min(n, 5))):
            g[p] = 0
    else:                # two values erased everywhere
        g = M.full(w, h, rng)
        a, b = rng.randint(1, n), rng.randint(1, n)
        g = {p: (0 if v in (a, b) else v) for p, v in g.items()}
    try:
        sols = M.completions(w, h, g, 321, 20000)
    except M.TooMany:
        return g, None, None
    return g, (sols if len(sols) <= 320 else None), sols


def check(name, solver, w, h, g, rng, cands):
    """solver yields exactly the completions of g"""
    def run(what=" of " + M.line(w, h, g)):
        s = M.make(w, h, g, cands)
        before = M.snap(s)
        out, got = [], []
        for t in solver(s):
            eq(M.snap(s), before, "sudoku while %s runs%s" % (name, what))
            ok(t is not s, "%s yields its argument%s" % (name, what))
            eq(tuple(t.box_size), (w, h), "box size of a solution" + what)
            out.append(t)
            got.append(M.nums(t))
            if len(out) > 330:
                break
            if rng.random() < .5:          # every yielded sudoku is independent
                for p in M.fields(w, h):
                    t.set_number(p[0], p[1], 0)
                    t.set_candidates(p[0], p[1], ())
                eq(M.snap(s), before, "sudoku after changing a yielded solution" + what)
        eq(M.snap(s), before, "sudoku after " + name + what)
        ok(len({id(t) for t in out}) == len(out), "%s yields the same object twice%s" % (name, what))
        return got
    return run


def compare(name, solver, w, h, g, sols, rng, cands):
    what = " of " + M.line(w, h, g)
    got = check(name, solver, w, h, g, rng, cands)()
    key = lambda d: tuple(d[p] for p in sorted(d))
    eq(len(got), len(set(map(key, got))), "%s repeats a solution%s" % (name, what))
    eq(sorted(map(key, got)), sorted(map(key, sols)), "solutions found by %s%s" % (name, what))
    # collected at once: the objects must stay apart
    s = M.make(w, h, g, cands)
    eq(sorted(key(M.nums(t)) for t in list(solver(s))), sorted(map(key, sols)), "list of the solutions found by %s%s" % (name, what))
    # stopped early
    s = M.make(w, h, g, cands)
    before = M.snap(s)
    it = iter(solver(s))
    some = list(islice(it, 1))
    eq(len(some), min(1, len(sols)), "first solution by %s%s" % (name, what))
    del it
    eq(M.snap(s), before, "sudoku after stopping %s early%s" % (name, what))


def sizes(thorough):
    out = [(w, h) for w, h in dims(6)] + [(2, 2), (3, 2), (2, 3), (3, 2), (2, 2), (4, 2), (2, 4), (3, 3), (3, 3)]
    return out + ([(5, 2), (2, 5), (3, 4), (4, 3)] if thorough else [])
