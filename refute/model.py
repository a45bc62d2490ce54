"""Independent oracles and input generators for the refuters (no code shared with sudokutools)."""


def fields(w, h):
    n = w * h
    return [(r, c) for r in range(n) for c in range(n)]


def box(w, h, p):
    return (p[0] // h, p[1] // w)


def sees(w, h, p, q):
    return p != q and (p[0] == q[0] or p[1] == q[1] or box(w, h, p) == box(w, h, q))


_peers = {}


def peers(w, h):
    if (w, h) not in _peers:
        _peers[w, h] = {p: [q for q in fields(w, h) if sees(w, h, p, q)] for p in fields(w, h)}
    return _peers[w, h]


_units = {}


def units(w, h):
    if (w, h) not in _units:
        n = w * h
        fs = fields(w, h)
        _units[w, h] = [[p for p in fs if p[0] == k] for k in range(n)] + [[p for p in fs if p[1] == k] for k in range(n)] \
            + [[p for p in fs if (p[0] // h) * h + p[1] // w == k] for k in range(n)]
    return _units[w, h]


def full(w, h, rng):
    """A random valid grid (shuffled pattern)."""
    n = w * h

    def order(size, count):
        out = []
        for b in rng.sample(range(count), count):
            out += [b * size + i for i in rng.sample(range(size), size)]
        return out
    rows, cols, vals = order(h, w), order(w, h), rng.sample(range(1, n + 1), n)
    return {(r, c): vals[((rows[r] % h) * w + rows[r] // h + cols[c]) % n] for r, c in fields(w, h)}


def valid(w, h, g):
    n = w * h
    return all(sorted(g[p] for p in u) == list(range(1, n + 1)) for u in units(w, h))


class TooMany(Exception):
    pass


def completions(w, h, g, limit=None, work=200000):
    """All valid completions of the numbers g (dict field -> int, 0 empty), as dicts; TooMany after `work` nodes."""
    n = w * h
    for p in g:
        if g[p] and not 1 <= g[p] <= n:
            return []
    pe = peers(w, h)
    cand = {p: (1 << n) - 1 for p in g}
    out = []
    cnt = [0]

    def assign(cand, todo):
        """propagate; todo: list of (field, value); cand holds bit masks"""
        while todo:
            p, b = todo.pop()
            if not cand[p] & b:
                return False
            cand[p] = b
            for q in pe[p]:
                if cand[q] & b:
                    m = cand[q] & ~b
                    if not m:
                        return False
                    cand[q] = m
                    if m & (m - 1) == 0:
                        todo.append((q, m))
        return True

    def go(cand):
        cnt[0] += 1
        if cnt[0] > work:
            raise TooMany()
        best = None
        for p, m in cand.items():
            if m & (m - 1):
                k = bin(m).count("1")
                if best is None or k < best[0]:
                    best = (k, p)
                    if k == 2:
                        break
        if best is None:
            out.append({p: m.bit_length() for p, m in cand.items()})
            return limit is not None and len(out) >= limit
        p = best[1]
        m = cand[p]
        while m:
            b = m & -m
            m ^= b
            c2 = dict(cand)
            if assign(c2, [(p, b)]) and go(c2):
                return True
        return False
    if assign(cand, [(p, 1 << (v - 1)) for p, v in g.items() if v]):
        # singletons assigned by propagation are consistent: assign() visited every one of them
        go(cand)
    return out


def completions_n(w, h, g, limit):
    return len(completions(w, h, g, limit))


def make(w, h, g, cands=None):
    from sudokutools.sudoku import Sudoku
    s = Sudoku((w, h))
    for (r, c), v in g.items():
        if v:
            s.set_number(r, c, v)
    for (r, c), v in (cands or {}).items():
        s.set_candidates(r, c, v)
    return s


def nums(s):
    n = s.box_size[0] * s.box_size[1]
    return {(r, c): s.get_number(r, c) for r in range(n) for c in range(n)}


def cands(s):
    n = s.box_size[0] * s.box_size[1]
    return {(r, c): frozenset(s.get_candidates(r, c)) for r in range(n) for c in range(n)}


def snap(s):
    return nums(s), cands(s)


def line(w, h, g):
    """printable form of a numbers grid"""
    n = w * h
    return "%dx%d:%s" % (w, h, "/".join(",".join(str(g[r, c]) for c in range(n)) for r in range(n)))


def keep(g, k, rng):
    ps = rng.sample(sorted(g), k)
    return {p: (g[p] if p in set(ps) else 0) for p in g} if k < len(g) else dict(g)


def reduced(w, h, rng, target=0, start=None):
    """Remove numbers from a full grid while it stays unique (a minimal sudoku for target=0)."""
    g = dict(start or full(w, h, rng))
    left = len(g)
    for p in rng.sample(sorted(g), len(g)):
        if left <= target:
            break
        v = g[p]
        g[p] = 0
        try:
            if len(completions(w, h, g, 2)) != 1:
                g[p] = v
            else:
                left -= 1
        except TooMany:
            g[p] = v
    return g


def noise(w, h, rng, lo=0, hi=None, density=0.5):
    n = w * h
    hi = n if hi is None else hi
    return {p: (rng.randint(lo, hi) if rng.random() < density else 0) for p in fields(w, h)}


def random_cands(w, h, rng, density=0.5):
    n = w * h
    return {p: frozenset(v for v in range(1, n + 1) if rng.random() < density) for p in fields(w, h)}
