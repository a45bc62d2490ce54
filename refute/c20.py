from refute import model as M
from refute.base import Bad, dims, eq, ok

BOUND = "box sizes with side <= 16, sudokus with arbitrary numbers and candidates (also negative and large candidates), all formatting options"


def picture(w, h, g, c, incl, sep, pre, right, m):
    n = w * h
    pad = str.rjust if right else str.ljust
    lines = []
    for r in range(n):
        if r and r % h == 0:
            lines.append("+".join("-" * (w * (m + 1) + (0 if k in (0, h - 1) else 1) - (h == 1)) for k in range(h)))
        cells = []
        for q in range(n):
            t = str(g[r, q]) if g[r, q] else pre + sep.join(map(str, sorted(c[r, q]))) if incl else ""
            cells.append(pad(t, m))
        lines.append(" | ".join(" ".join(cells[b * w:b * w + w]) for b in range(h)))
    return "\n".join(lines)


def show(w, h, seed):
    import random
    from sudokutools.sudoku import view
    r = random.Random(seed)
    n = w * h
    g, c = M.noise(w, h, r, 0, None, r.choice((0, .2, .5, .9, 1))), M.random_cands(w, h, r, r.choice((0, .1, .5, .9)))
    for _ in range(r.choice((0, 0, 2))):
        f = r.choice(M.fields(w, h))
        c[f] = set(c[f]) | set(r.sample((-3, 0, 10, 12, 100, 1234), r.randint(1, 4)))
    s = M.make(w, h, g, c)
    kw = {}
    if r.random() < .6:
        kw["include_candidates"] = r.random() < .6
    if r.random() < .5:
        kw["number_sep"] = r.choice((None, "", ",", "/", ", ", "--"))
    if r.random() < .5:
        kw["candidate_prefix"] = r.choice(("", "*", "~~", "c:"))
    if r.random() < .5:
        kw["align_right"] = r.random() < .5
    before = M.snap(s)
    if r.random() < .15:
        v, kw, what = str(s), {"include_candidates": False}, "str(sudoku)"
    else:
        v, what = view(s, **kw), "view(sudoku, **%r)" % kw
    sep = kw.get("number_sep")
    sep = ("," if n > 9 else "") if sep is None else sep
    args = (kw.get("include_candidates", True), sep, kw.get("candidate_prefix", "*"), kw.get("align_right", True))
    first = len(v.split("\n")[0]) - (n - 1) - 2 * (h - 1)
    info = dict(call=what, box=(w, h), numbers=M.line(w, h, g), candidates={p: sorted(c[p]) for p in c})
    if first < 0 or first % n:
        raise Bad("%s: the first line %r does not show %d fields of the same width" % (what, v.split("\n")[0], n), **info)
    want = picture(w, h, g, c, *args, m=first // n)
    if v != want:
        a, b = v.split("\n"), want.split("\n")
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        raise Bad("%s for box size %r: line %d is %r, expected %r" % (what, (w, h), k, a[k] if k < len(a) else None, b[k] if k < len(b) else None), **info)
    eq(M.snap(s), before, "%s changes the sudoku" % what)


def search(ctx):
    sizes = dims(16)
    k = 0
    while ctx.left() > 0 and k < 200000:
        w, h = sizes[k % len(sizes)] if k < 3 * len(sizes) else ctx.rng.choice(sizes)
        ctx.run("show", show, w, h, ctx.rng.randrange(1 << 30))
        k += 1
