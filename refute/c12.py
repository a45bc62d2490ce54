from refute import model as M
from refute.base import dims, eq, ok
from refute.solutions import KINDS, problem
from refute.steps import effect, kind

BOUND = "sudokus with side <= 9 (thorough: 12): unique, several completions, none, conflicting, complete, empty"


def case(w, h, seed, k, rated):
    import random
    rng = random.Random(seed)
    from sudokutools import analyze, solvers
    g, comps, some = problem(w, h, rng, k)
    if some is None:
        return
    c = M.random_cands(w, h, rng) if seed % 2 else {p: frozenset() for p in g}
    s = M.make(w, h, g, c)
    what = " of " + M.line(w, h, g)
    seen = []

    def report(step):
        seen.append((step, tuple(step.affected), tuple(step.values), len(step.actions)))
        ok(len(seen) <= 4 * len(g) * (w * h + 2), "solve does not come to an end" + what)
    if rated:
        solvers.solve(s, report)
        log = [type(x[0]).__name__ for x in seen]
        calc = all(n == "CalculateCandidates" for n in log)
        r, sc = analyze.rate(s), analyze.score(s)
        ok(isinstance(r, int) and 0 <= r <= 10, "rate%s is %r" % (what, r))
        eq(r == 0, calc, "rate%s is 0 (%r); steps %s" % (what, r, sorted(set(log))))
        ok(isinstance(sc, int) and sc >= 0, "score%s is %r" % (what, sc))
        eq(sc == 0, calc, "score%s is 0 (%r); steps %s" % (what, sc, sorted(set(log))))
        eq(M.snap(s), (g, c), "the sudoku after rating" + what)
        return
    t = solvers.solve(s, report) if seed % 5 else solvers.solve(s)
    eq(M.snap(s), (g, c), "the sudoku after solve" + what)
    r = M.nums(t)
    ok(t is not s, "solve returns its argument")
    if comps is None or comps:
        ok(M.valid(w, h, r) and all(not g[p] or g[p] == r[p] for p in g), "solve%s returns no completion: %s" % (what, M.line(w, h, r)))
        if comps is not None and len(comps) == 1:
            eq(r, comps[0], "solve" + what)
    else:
        ok(all(not g[p] or g[p] == r[p] for p in g), "solve%s changes given numbers: %s" % (what, M.line(w, h, r)))
    if seed % 5:
        cur = (g, {p: frozenset([g[p]]) if g[p] else frozenset() for p in g})
        for i, (st, aff, val, used) in enumerate(seen):
            ok(not used, "step %d, %s, was reported after it was applied: solve%s" % (i, st, what))
            cur = effect(w, h, *cur, st)
        eq(M.snap(t), cur, "the result of solve%s and the reported steps" % what)


def search(ctx, rated=False):
    sizes = [d for d in dims(9 if not ctx.thorough else 12) if min(d) > 1 or d[0] * d[1] <= 4] + [(2, 2), (3, 2), (2, 3), (3, 3)]
    k = 0
    while ctx.left() > 0 and k < 100000:
        w, h = sizes[k // KINDS % len(sizes)]
        ctx.run("problem", case, w, h, ctx.rng.randrange(1 << 30), k % KINDS, rated)
        k += 1
