"""The rewritings of pyver/reform.py keep what a function does: each function below is run as it is and rewritten (for every number of
loops the contracts could ask for and every variable name they could miss), on several arguments; results and mutations must agree."""
import ast
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyver import reform        # noqa: E402

SRC = '''
def a1(n, xs):
    ys = [x * 2 for x in xs if x > n]
    return ys
def a2(n, xs):
    x = 5
    ys = [x * 2 for x in xs]
    return ys, x
def a3(n, xs):
    xs = [x + len(xs) for x in xs]
    return xs
def a4(n, xs):
    out = [1]
    out.extend([y for y in xs if y not in out])
    return out
def a5(n, xs):
    return sorted(str(x) for x in xs), n
def a6(n, xs):
    return ','.join([str(x) + ';'.join([str(y) for y in xs if y < x]) for x in xs])
def a7(n, xs):
    for x in xs:
        ys = [x for x in range(x)]
        n += x + len(ys)
    return n
def a8(n, xs):
    s = 'q' + ''.join(str(x) for x in xs)
    s += ''.join([str(x) for x in s])
    return s
def a9(n, xs):
    s = 1
    s += len([x for x in xs if x > s])
    return s
def b1(n, xs):
    i = 0
    while i < len(xs):
        x = xs[i]
        n += x * i
        i += 1
    return n
def b2(n, xs):
    i = 0
    r = []
    while i < len(xs):
        if xs[i] > 3:
            xs.append(1)
        r.append(i)
        if i > 10:
            break
        i += 1
    return r
def b3(n, xs):
    i = 0
    while i < n:
        if i == 2:
            n -= 1
        i += 1
    return n
def b4(n, xs):
    i = 0
    while i < n:
        xs.append(i)
        if i == 2:
            break
        i += 1
    return i
def b5(n, xs):
    ys = list(xs)
    r = 0
    for i in range(len(ys)):
        y = ys[i]
        if y > 2:
            continue
        r = r * 3 + y + ys[i]
    return r
def b6(n, xs):
    ys = sorted(xs)
    r = []
    for i in range(len(ys)):
        y = ys[i]
        y += 1
        r.append((i, y, ys[i]))
    return r
def b7(n, xs):
    ys = list(xs)
    i = 7
    for i in range(len(ys)):
        n += ys[i]
    return n, i
def b8(n, xs):
    ys = list(xs)
    for i in range(len(ys)):
        if ys[i] == n:
            ys = ys[1:] + [0]
    return ys
def b9(n, xs):
    ys = [(x, n) for x in xs]
    r = 0
    for i in range(len(ys)):
        a, b = ys[i]
        r += a * b - i
    return r
def c1(n, xs):
    return max(x - n for x in xs + [0]) + sum([x for x in xs])
def c2(n, xs):
    if not [x for x in xs if x > n]:
        return 1
    elif len({x for x in xs}) > 2:
        return 2
    return 3
def c3(n, xs):
    t = (n if n > 2 else len([x for x in xs]), [x for x in xs])
    return t
def c4(n, xs):
    f = lambda: [x for x in xs]
    xs.append(4)
    return f()
def c5(n, xs):
    d = set(x % 3 for x in xs)
    return len(d), [y for y in sorted(d)], [x for y in xs for x in range(y) if x != n]
def c6(n, xs):
    for x in [y + 1 for y in xs]:
        xs.append(x)
    return xs
def d1(n, xs):
    d = {x: x * 2 for x in xs}
    r = []
    for k in d:
        r.append(k + d[k])
        if d[k] > 4:
            n += d[k] * k
    return r, n
def d2(n, xs):
    d = {(x, n): x * 2 for x in xs}
    r = []
    for i, j in d.keys():
        r.append(d[i, j] + d[(i, j)])
    return r
def d3(n, xs):
    d = {x: x * 2 for x in xs}
    r = []
    for k in d:
        d[k] = 7
        r.append(d[k])
    return r
def d4(n, xs):
    d = {x: x * 2 for x in xs}
    r = []
    for k in d:
        r.append([d[k] for k in xs])
    return r
def c7(n, xs):
    k = n
    for k in range(2):
        z = [k for j in xs]
    return z, k
'''


def run(fn, args):
    env = {}
    exec(compile(ast.fix_missing_locations(ast.Module(body=[copy.deepcopy(fn)], type_ignores=[])), "f", "exec"), env)
    args = copy.deepcopy(args)
    try:
        r = env[fn.name](*args)
    except Exception as e:
        r = type(e).__name__
    return r, args


def main():
    cases = [(0, []), (2, [3, 1, 4, 1, 5]), (1, [1]), (3, [2, 2, 9]), (5, [0, 1, 2, 3, 4, 5])]
    n = bad = 0
    for fn in ast.parse(SRC).body:
        for extra in (0, 1, 2, 3):
            for was_comps in ([], reform.comps(fn)[0][:1]):
                was = dict(loops=reform.count_loops(fn) + extra, comps=was_comps,
                           locals=[("rows", "= []"), ("tmp1", "= len(xs)"), ("tmp2", "= xs[i]"), ("tmp3", "= sorted(xs)"), ("val", "for _.items()[1]")], iters=["_.items()"] * (extra % 2))
                for way in reform.WAYS:
                    new = reform.apply(fn, was, way)
                    if new is None:
                        continue
                    n += 1
                    for c in cases:
                        if run(fn, c) != run(new, c):
                            bad += 1
                            print("DIFFERENT", fn.name, way, c, run(fn, c), run(new, c))
                            print(ast.unparse(new))
                            break
    print("%d rewritings, %d wrong" % (n, bad))
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
