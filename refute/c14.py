from refute.base import eq, ok, dims
from refute import model as M

BOUND = "random histories of writes on all box sizes with side length <= 8 (plus 3x3, 2x6, 4x4), 60 steps each"


def search(ctx):
    from sudokutools.sudoku import Sudoku
    rng = ctx.rng

    def history(w, h, steps, seed):
        import random
        rng = random.Random(seed)
        n = w * h
        grid = M.fields(w, h)
        s = Sudoku(box_size=(w, h))
        num, cand = {p: 0 for p in grid}, {p: frozenset() for p in grid}
        eq(M.snap(s), (num, cand), "fresh Sudoku((%d, %d))" % (w, h))
        others = []
        log = []
        for _ in range(steps):
            r, c = p = rng.choice(grid)
            vs = [v for v in range(1, n + 1) if rng.random() < 0.5]
            op = rng.randrange(9)
            if op == 0:
                v = rng.randint(0, n)
                s[r, c] = v
                num[p] = v
                log.append("s[%d, %d] = %d" % (r, c, v))
            elif op == 1:
                v = rng.randint(0, n)
                s.set_number(r, c, v)
                num[p] = v
                log.append("s.set_number(%d, %d, %d)" % (r, c, v))
            elif op in (2, 3):
                kind = rng.choice((list, set, tuple, frozenset))
                val = kind(vs)
                s.set_candidates(r, c, val)
                cand[p] = frozenset(vs)
                log.append("s.set_candidates(%d, %d, %r)" % (r, c, val))
                if kind is list:
                    val.append(n + 5)
                elif kind is set:
                    val.add(n + 5)
            elif op in (4, 5):
                kind = rng.choice((list, set, tuple, frozenset))
                val = kind(vs + ([n + 3] if rng.random() < 0.2 else []))
                s.remove_candidates(r, c, val)
                cand[p] = cand[p] - frozenset(vs)
                log.append("s.remove_candidates(%d, %d, %r)" % (r, c, val))
            elif op == 6:
                a = rng.choice(((), (True,), (False,)))
                inc = bool(a and a[0])
                t = s.copy(*a) if rng.random() < 0.5 or not a else s.copy(include_candidates=inc)
                log.append("copy(%s)" % inc)
                ok(t is not s, "copy returned the sudoku itself", log=log)
                eq((t.box_size, t.box_width, t.box_height), ((w, h), w, h), "size of the copy", log=log)
                eq(M.snap(t), (num, cand if inc else {q: frozenset() for q in grid}), "copy(%s) after %s" % (inc, log), log=log)
                others.append((t, M.snap(t), len(log)))
                if rng.random() < 0.5:         # go on with the copy, keep the original
                    others.append((s, M.snap(s), len(log)))
                    others.remove(others[-2])
                    s = t
                    if not inc:
                        cand = {q: frozenset() for q in grid}
                num, cand = dict(num), dict(cand)
            elif op == 7:
                got = s.get_candidates(r, c)
                try:
                    got.add(n + 7)
                except AttributeError:
                    pass
            elif op == 8 and rng.random() < 0.3:
                t = Sudoku((w, h))
                t[r, c] = n
                t.set_candidates(r, c, [1])
            eq(s[r, c], num[p], "s[%d, %d] after %s" % (r, c, log[-3:]), log=log)
        what = "after %s" % "; ".join(log)
        eq(M.snap(s), (num, cand), what)
        eq({q: s[q] for q in grid}, num, what)
        eq({q: s[q[0], q[1]] for q in grid}, num, what)
        for t, sn, k in others:
            eq(M.snap(t), sn, "object set aside at step %d, %s" % (k, what))
        eq(sorted(s.empty()), [q for q in grid if not num[q]], "empty() " + what)
        eq(sorted(s.filled()), [q for q in grid if num[q]], "filled() " + what)
        eq(s.count(), sum(1 for q in grid if num[q]), "count() " + what)
        eq(s.empty().__class__ is not None and list(s.empty()), [q for q in grid if not num[q]], "order of empty() " + what)

    k = 0
    sizes = dims(8) + [(3, 3), (2, 6), (4, 4)]
    while ctx.left() > 0 and k < (4000 if ctx.thorough else 300):
        w, h = sizes[k % len(sizes)]
        ctx.run("history", history, w, h, 8 if k < 60 else 60, rng.randrange(1 << 30))
        k += 1
