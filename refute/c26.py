import io
import random
import sys

from refute import model as M
from refute import solutions as S
from refute.base import eq, ok

BOUND = "sudokus with side <= 9 (thorough: 12) with no, one or several completions, with and without candidates; the method called directly and through a command line of a shell"


def search(ctx):
    def case(w, h, seed, kind):
        from sudokutools.shell import Shell
        rng = random.Random(seed)
        g, sols, _ = S.problem(w, h, rng, kind)
        if sols is None:
            return
        what = " of " + M.line(w, h, g)
        key = lambda d: tuple(d[p] for p in sorted(d))
        s = M.make(w, h, g, M.random_cands(w, h, rng) if rng.random() < .5 else None)
        before = M.snap(s)
        sh = Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())
        sh.stack = [M.make(w, h, g if rng.random() < .6 else M.keep(g, len(g) // 2, rng)) for _ in range(rng.randint(0, 2))]
        stack = [(t, M.snap(t)) for t in sh.stack]
        own = sh.sudoku
        line = rng.random() < .4
        if line:
            sh.sudoku = s
            old, sys.stderr = sys.stderr, io.StringIO()
            try:
                sh.execute_line("solve")
                told = sys.stderr.getvalue()
            finally:
                sys.stderr = old
            t = sh.sudoku
            eq(bool(told), not sols, "solve reports an error" + what)
            if not sols:
                ok(t is s, "solve without a solution replaces the sudoku" + what)
        else:
            # the shell's own sudoku is another one: the given sudoku counts
            try:
                t = sh.solve_command(s)
            except StopIteration:
                t = None
            eq(t is None, not sols, "solve_command raises StopIteration" + what)
            ok(sh.sudoku is own, "solve_command replaces the sudoku of the shell" + what)
        eq(M.snap(s), before, "sudoku after solving" + what)
        eq([id(x) for x in sh.stack], [id(x) for x, _ in stack], "stack after solving" + what)
        eq([M.snap(x) for x in sh.stack], [x for _, x in stack], "sudokus on the stack after solving" + what)
        if sols:
            ok(t is not s, "solving gives the sudoku itself" + what)
            eq(tuple(t.box_size), (w, h), "box size of the solution" + what)
            ok(key(M.nums(t)) in {key(x) for x in sols}, "%r is no solution%s" % (M.nums(t), what))
            for p in M.fields(w, h):
                t.set_number(p[0], p[1], 0)
                t.set_candidates(p[0], p[1], ())
            eq(M.snap(s), before, "sudoku after changing its solution" + what)
    sz = S.sizes(ctx.thorough)
    k = 0
    while ctx.left() > 0 and k < (100000 if ctx.thorough else 1500):
        w, h = sz[k // S.KINDS % len(sz)]
        ctx.run("case", case, w, h, ctx.rng.randrange(1 << 30), k % S.KINDS)
        k += 1
