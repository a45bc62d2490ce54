import builtins
import contextlib
import io
import random

from refute import model as M
from refute.base import Bad, eq, ok

BOUND = "sessions of up to 262 lines in the game shell on 9x9 sudokus, with every combination of the boolean settings"
QUIET = ("hint", "conflicts", "settings", "check")
NO_COMMAND = ("", "  ", "foo", "undoo", "help", "r1c1", "=5", "r1c1=", "r1c1=x", "r10c1=3", "r1c1=1=2", "3", "undo2 x", "Undo", "x1=2", "r0c1=4", "candidate", "redo_")


def words(c):
    return c.split()[0] if c.split() else ""


def action(r):
    f = lambda: r.randint(1, 9)
    x = r.random()
    if x < .55:
        return "r%dc%d=%d" % (f(), f(), f())
    if x < .65:
        return "r%d,%dc%d=%d" % (f(), f(), f(), f())
    if x < .85:
        return "r%dc%d<>%d" % (f(), f(), f())
    if x < .93:
        return "b%d<>%s" % (f(), ",".join(str(v) for v in r.sample(range(1, 10), 2)))
    return "r%dc%d=0" % (f(), f())


def draw(r):
    x = r.random()
    if x < .22:
        return r.choice(("undo", "undo", " undo", "undo now"))
    if x < .40:
        return r.choice(("redo", "redo", "redo  ", "redo 1"))
    if x < .52:
        return r.choice(QUIET)
    if x < .58:
        return "candidates"
    if x < .66:
        return r.choice(NO_COMMAND)
    return action(r)


class Over(BaseException):
    pass


def session(seed):
    r = random.Random(seed)
    import sudokutools.shell as shell
    g = M.full(3, 3, r)
    puzzle = {p: (g[p] if r.random() < .55 else 0) for p in g}
    game = shell.GameShell()
    for k in ("autocandidates", "autocheck", "autoconflicts", "autoremove", "autoset"):
        if r.random() < .4:
            game.settings[k] = r.random() < .5
    n = r.randint(1, 40)
    plan = []
    if r.random() < .2:                                                # a long history, undone and redone
        k = r.choice((3, 10, 30, 70, 130))
        plan = ["r%dc%d=%d" % (1 + i // 9 % 9, 1 + i % 9, r.randint(1, 9)) for i in range(k)] + ["undo"] * (k + 1) + ["redo"] * (k + 1)
        n = len(plan)
    done, seen, shown = [], [], []
    old = {}

    def fake_input(*_):
        s = None
        try:
            s = M.snap(game.sudokus[game.index])
        except (AttributeError, IndexError, TypeError):
            pass
        if shown:
            if s is not None and s != shown[-1]:
                raise Over("the sudoku shown is not the current one after %r" % done)
            s = shown.pop()
        seen.append(s)
        del shown[:]
        if len(done) >= n:
            check(seen, done)
            raise EOFError
        c = plan[len(done)] if plan else draw(r)
        while c.endswith("=0") and game.settings.get("autoset"):       # never ends: the empty field has the one candidate 0
            c = draw(r)
        done.append(c)
        return done[-1]

    def fake_view(sudoku, *a, **k):
        shown.append(M.snap(sudoku))
        return ""

    def fake_generate(*a, **k):
        return M.make(3, 3, puzzle)

    for name, f in (("view", fake_view), ("generate", fake_generate), ("rate", lambda s: 3)):
        if hasattr(shell, name):
            old[name] = getattr(shell, name)
            setattr(shell, name, f)
    inp, builtins.input = builtins.input, fake_input
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                game.run()
            except EOFError:
                pass
            except Over as e:
                raise Bad(str(e))
            except Exception:
                check(seen, done)
                raise
    finally:
        builtins.input = inp
        for name, f in old.items():
            setattr(shell, name, f)


def calc(g):
    pe = M.peers(3, 3)
    return {p: frozenset([g[p]]) if g[p] else frozenset(range(1, 10)) - {g[q] for q in pe[p]} for p in g}


def check(seen, done):
    """The states seen before every prompt are those of a history with undo and redo."""
    if not seen or any(s is None for s in seen):
        return
    h, i = [seen[0]], 0
    for c, s in zip(done, seen[1:]):
        k = words(c)
        if k == "undo":
            i = max(i - 1, 0)
        elif k == "redo":
            i = min(i + 1, len(h) - 1)
        elif k in QUIET or c in NO_COMMAND:
            pass
        elif k == "candidates" and s != (h[i][0], calc(h[i][0])):
            raise Bad("%r: 'candidates' does not give the current sudoku all its candidates" % (done,))
        elif s != h[i]:
            h, i = h[:i + 1] + [s], i + 1
        elif c.count("=") == 1 and c[1] in "123456789" and c[2] == "c" and len(c) == 6:
            p = int(c[1]) - 1, int(c[3]) - 1
            if h[i][0][p] != int(c[5]):
                raise Bad("%r changes nothing after %r" % (c, done))
        if s != h[i]:
            diff = [p for p in h[i][0] if s[0].get(p) != h[i][0][p] or s[1].get(p) != h[i][1][p]]
            raise Bad("%r: the current sudoku is not the one of the history (state %d of %d) at %r" % (done, i, len(h), diff[:5]))


def search(ctx):
    while ctx.left() > 0:
        ctx.run("session", session, ctx.rng.randrange(1 << 30))
