"""Shared by C11, C12, C21: states for the solve steps and an independent reading of what a step does."""
from refute import model as M
from refute.base import ok

TECH = ["CalculateCandidates", "NakedSingle", "HiddenSingle", "NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple", "NakedQuad", "HiddenQuad",
        "NakedQuint", "HiddenQuint", "PointingPair", "PointingTriple", "XWing", "Swordfish", "Jellyfish"]


def technique(name):
    from sudokutools import solvers
    if name.startswith("Six"):        # tuple sizes beyond the predefined ones
        return type(name, (getattr(solvers, name[3:]),), {"n": 6})
    if name.startswith("One"):
        return type(name, (getattr(solvers, name[3:]),), {"n": 1})
    return getattr(solvers, name)


def kind(step):
    for c in type(step).__mro__:
        n = c.__name__
        if n == "CalculateCandidates":
            return 1
        if n in ("NakedSingle", "HiddenSingle", "Bruteforce"):
            return 2
        if n == "HiddenTuple":
            return 4
        if n in ("NakedTuple", "PointingTuple", "BasicFish"):
            return 3
    return 0


def effect(w, h, g, c, step):
    """(numbers, candidates) after the step, from what it says about itself"""
    g, c = dict(g), dict(c)
    k = kind(step)
    aff, val = [tuple(p) for p in step.affected], list(step.values)
    if k == 1:
        c[aff[0]] = frozenset(val)
    elif k == 2:
        g[aff[0]] = val[0]
        for q in M.peers(w, h)[aff[0]]:
            c[q] = c[q] - {val[0]}
        c[aff[0]] = frozenset(val)
    elif k == 3:
        for p in aff:
            c[p] = c[p] - set(val)
    else:
        for p in aff:
            c[p] = c[p] & set(val)
    return g, c


def state(w, h, rng, mode):
    """(a valid grid, numbers, candidates compatible with it)"""
    n = w * h
    full = M.full(w, h, rng)
    if mode % 3 == 0:
        g = M.reduced(w, h, rng, rng.choice((0, n * n // 3)), full) if n <= 9 else M.keep(full, n * n // 2, rng)
    else:
        g = M.keep(full, rng.randint(0, n * n), rng)
    pe = M.peers(w, h)
    dens = rng.choice((0.05, 0.15, 0.3, 0.5, 0.8, 1))
    c = {}
    for p in M.fields(w, h):
        allowed = set(range(1, n + 1)) - ({g[q] for q in pe[p]} if mode % 2 == 0 else set())
        if g[p]:
            c[p] = frozenset([g[p]]) if mode % 5 else frozenset([g[p]] + [v for v in range(1, n + 1) if rng.random() < dens / 4])
        else:
            c[p] = frozenset([full[p]] + [v for v in allowed if rng.random() < dens])
    if mode % 4 == 3:      # a pattern: one number restricted to a few lines or fields
        v = rng.randint(1, n)
        for _ in range(rng.randint(1, 3)):
            u = rng.choice(M.units(w, h))
            fs = [p for p in u if v in c[p] and full[p] != v]
            for p in rng.sample(fs, rng.randint(0, len(fs))):
                c[p] = c[p] - {v}
    return full, g, c


def compatible(w, h, full, g, c, part, what):
    for p in M.fields(w, h):
        ok(not g[p] or g[p] == full[p], "%s: field %s has the number %s, the completion %s" % (what, p, g[p], full[p]))
        ok(full[p] in c[p] or (part and not c[p]), "%s: field %s lost the candidate %s of the completion (has %s)" % (what, p, full[p], sorted(c[p])))
