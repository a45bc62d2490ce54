import ast
import io
import random
import sys

from refute import model as M
from refute.base import Bad, eq, ok

BOUND = "texts of up to 7 words (commands, keywords, literals, arguments by name, words that are none of these), functions that record their call and return or raise anything, interactive and not"

# the command, its function (class or module attribute) and what it is called with first
TABLE = {
    "new": ("Sudoku", ()), "generate": ("generate", ()), "generate_from_template": ("generate_from_template", ("sudoku",)), "decode": ("Sudoku.decode", ()),
    "get": ("Sudoku.get_number", ("sudoku",)), "set": ("Sudoku.set_number", ("sudoku",)), "set_candidates": ("Sudoku.set_candidates", ("sudoku",)),
    "get_candidates": ("Sudoku.get_candidates", ("sudoku",)), "remove_candidates": ("Sudoku.remove_candidates", ("sudoku",)), "init_candidates": ("init_candidates", ("sudoku",)),
    "encode": ("Sudoku.encode", ("sudoku",)), "print": ("Sudoku.__str__", ("sudoku",)), "clear": ("clear", ()), "view": ("view", ("sudoku",)),
    "solve": ("Shell.solve_command", ("shell", "sudoku")), "loop": ("Shell.loop_command", ("shell",)), "stack": ("Shell.stack_command", ("shell",)), "push": ("Shell.push_command", ("shell",)),
    "pop": ("Shell.pop_command", ("shell",)), "help": ("Shell.help_command", ("shell",)), "exit": ("Shell.exit_command", ("shell",)),
}
ODD = ("", "endx", "End", "foo", "1,2)", "(1", "{[]}", "{{}:1}", "'a", "1+", "a.b", "(" * 300, "-" * 3000 + "1", "x()", "\\", "\t", "0x", "01", "1..", "{1:[],[]:2}", "a" * 300, "\x00", "print()", "solve;")
LITERALS = ("0", "1", "9", "-3", "+2", "1.5", "(3,3)", "(1,2,)", "()", "[1,[2]]", "{1,2}", "{1:2}", "'a'", '"text"', "'end'", "'set'", '"loop"', "None", "True", "0x1F", "'\\n'", "b'x'", "1_0", "''", "1+2j", "'é'", "((((1))))")
NAMES = ("a", "box_size", "number_sep", "", "a-b", "end", "set", "'x", "a")


def function(path):
    from sudokutools import shell
    x = shell
    for n in path.split("."):
        x = getattr(x, n)
    return x


def word(r):
    x = r.random()
    if x < .12:
        return r.choice(ODD)
    if x < .5:
        return r.choice(LITERALS)
    if x < .6:
        return r.choice(sorted(TABLE))
    if x < .7:
        return "end"
    return r.choice(NAMES) + "=" + r.choice(LITERALS + ("'a=b'", "1=2", "end", "set", "=1", "'='", "") + ODD[:4])


def meaning(s):
    """(command, args, kwargs) or None"""
    ws = s.split(" ")
    args, kw = [], {}
    from sudokutools.shell import Command, Keyword
    try:
        for w in ws[1:]:
            if "=" in w:
                k = w.index("=")
                kw[w[:k]] = ast.literal_eval(w[k + 1:])
            elif w in TABLE:
                args.append((Command, w))
            elif w == "end":
                args.append((Keyword, w))
            else:
                args.append(ast.literal_eval(w))
    except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
        return None
    return (ws[0], args, kw) if ws[0] in TABLE else None


def same(x, y):
    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], type):
        return type(x) is y[0] and x.name == y[1]
    return type(x) is type(y) and x == y


def reading(seed):
    r = random.Random(seed)
    from sudokutools import shell
    s = " ".join([r.choice(sorted(TABLE)) if r.random() < .9 else r.choice(("", "foo", "end", "Set", "1", "a=1"))] + [word(r) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4, 6)))])
    m = meaning(s)
    try:
        f, special, args, kw = shell.parse(s)
    except (KeyError, ValueError) as e:
        ok(m is None, "parse(%r) raises %s: %s" % (s, type(e).__name__, str(e)[:200]))
        return
    except (Exception, RecursionError) as e:
        raise Bad("parse(%r) raises %s: %s" % (s[:300], type(e).__name__, str(e)[:200]))
    ok(m is not None, "parse(%r) gives %r" % (s, (f, special, args, kw)))
    path, sp = TABLE[m[0]]
    ok(f == function(path), "the function of %r is %r" % (s, f))
    eq(list(special), list(sp), "what %r is called with first" % s)
    ok(len(args) == len(m[1]) and all(same(x, y) for x, y in zip(args, m[1])), "parse(%r) gives the arguments %r, expected %r" % (s, args, m[1]))
    ok(set(kw) == set(m[2]) and all(same(kw[k], m[2][k]) for k in kw), "parse(%r) gives the named arguments %r, expected %r" % (s, kw, m[2]))


def calling(seed):
    r = random.Random(seed)
    from sudokutools import shell
    from sudokutools.sudoku import Sudoku
    interactive = r.random() < .6
    out = io.StringIO()
    sh = shell.Shell(interactive=interactive, infile=io.StringIO(), outfile=out)
    sh.sudoku = before = Sudoku(box_size=r.choice(((3, 3), (2, 2))))
    other = Sudoku(box_size=(2, 3))
    stack = [Sudoku(), other]
    sh.stack = list(stack)
    special = r.choice(((), ("sudoku",), ("shell",), ("shell", "sudoku"), ("sudoku", "shell"), ("sudoku", "sudoku")))
    args = [r.choice((1, "a", (), None, shell.Keyword("end"), other)) for _ in range(r.randint(0, 3))]
    kw = dict((k, r.choice((1, "x", None))) for k in r.sample(("a", "b", "self_", "result", "number_sep"), r.randint(0, 3)))
    result = r.choice((None, None, other, before, 0, "", False, 5, "text", (), [1], {}, "two\nlines", Exception("x"), 0.0))
    error = r.choice((None, None, None, ValueError("bad"), TypeError("bad"), KeyError("k"), IndexError(), RuntimeError("r"), StopIteration(), AttributeError("a"), ZeroDivisionError("z"), RecursionError("d"), MemoryError()))
    calls = []

    def f(*a, **k):
        calls.append((list(a), dict(k)))
        if error:
            raise error
        return result
    what = "execute(f, %r, %r, %r) with f %s" % (special, args, kw, "raising %r" % error if error else "returning %r" % (result if not isinstance(result, Sudoku) else "a sudoku",))
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        try:
            sh.execute(f, list(special), args, kw)
            left = None
        except (Exception, SystemExit) as e:
            left = e
        told = sys.stderr.getvalue()
    finally:
        sys.stderr = err
    eq(len(calls), 1, "number of calls of %s" % what)
    a, k = calls[0]
    want = [before if n == "sudoku" else sh for n in special] + args
    ok(len(a) == len(want) and all(x is y for x, y in zip(a, want)), "%s calls f with %r" % (what, a))
    ok(k == kw, "%s calls f with the named arguments %r" % (what, k))
    if error:
        ok(told != "", "%s reports nothing" % what)
        ok(left is None if interactive else isinstance(left, SystemExit), "%s ends with %r" % (what, left))
    else:
        ok(left is None and told == "", "%s ends with %r and reports %r" % (what, left, told))
    ok(sh.sudoku is (result if not error and isinstance(result, Sudoku) else before), "%s: the current sudoku is %s" % (what, "another one"))
    ok(len(sh.stack) == 2 and all(x is y for x, y in zip(sh.stack, stack)) and sh.running, "%s changes the stack or ends the shell" % what)
    eq(out.getvalue(), "" if error or result is None or isinstance(result, Sudoku) else str(result) + "\n", "the output of %s" % what)


def lines(seed):
    """whole lines: the effect on the current sudoku"""
    r = random.Random(seed)
    from sudokutools.shell import Shell
    out = io.StringIO()
    sh = Shell(interactive=True, infile=io.StringIO(), outfile=out)
    err, sys.stderr = sys.stderr, io.StringIO()
    done = []
    try:
        for _ in range(r.randint(1, 6)):
            before = M.snap(sh.sudoku)
            n = sh.sudoku.box_size[0] * sh.sudoku.box_size[1]
            kind = r.choice(("bad", "set", "get", "cands", "new", "encode", "named"))
            k, t = out.tell(), sys.stderr.tell()
            i, j, v = r.randrange(n), r.randrange(n), r.randint(0, n)
            want, text, fault = (dict(before[0]), dict(before[1])), "", False
            if kind == "bad":
                line = " ".join([r.choice(("set", "push", "exit", "new", "foo", "get"))] + [r.choice(LITERALS) for _ in range(r.randint(0, 2))] + [r.choice([x for x in ODD if x.strip() and ";" not in x])])
                fault = True
            elif kind == "set":
                line = "set %d %d %d" % (i, j, v)
                want[0][i, j] = v
            elif kind == "named":
                ps = ["row=%d" % i, "col=%d" % j, "value=%d" % v]
                ps = ["row=0"] + ps if r.random() < .3 else ps
                names = ("row", "col", "value")
                from sudokutools.sudoku import Sudoku
                if Sudoku.set_number.__code__.co_varnames[1:4] != names:
                    names = Sudoku.set_number.__code__.co_varnames[1:4]
                    ps = [names[("row", "col", "value").index(q.split("=")[0])] + "=" + q.split("=")[1] for q in ps]
                line = "set " + " ".join(ps)
                want[0][i, j] = v
            elif kind == "get":
                line, text = "get %d %d" % (i, j), "%d\n" % before[0][i, j]
            elif kind == "cands":
                cs = r.sample(range(1, n + 1), r.randint(1, 3))
                line = "set_candidates %d %d {%s}" % (i, j, ",".join(map(str, cs)))
                want[1][i, j] = frozenset(cs)
            elif kind == "new":
                w, h = r.choice(((2, 2), (3, 2), (3, 3)))
                line = r.choice(("new (%d,%d)", "new box_size=(%d,%d)")) % (w, h)
                want = (dict(((a, b), 0) for a in range(w * h) for b in range(w * h)), dict(((a, b), frozenset()) for a in range(w * h) for b in range(w * h)))
            else:
                line = "encode row_sep='/' col_sep='.'" if r.random() < .5 else "encode"
                text = sh.sudoku.encode(row_sep="/", col_sep=".") + "\n" if "/" in line else sh.sudoku.encode() + "\n"
            done.append(line if len(line) < 80 else line[:80] + "...")
            sh.execute_line(line)
            eq(M.snap(sh.sudoku), want, "the current sudoku after %r" % done)
            eq(out.getvalue()[k:], text, "the output of the last of %r" % done)
            eq(sys.stderr.tell() > t, fault, "whether the last of %r reports an error" % done)
            ok(sh.running and not sh.stack, "%r ends the shell or fills the stack" % done)
    except Bad:
        raise
    except (Exception, SystemExit) as e:
        raise Bad("the last of %r raises %s: %s" % (done, type(e).__name__, str(e)[:200]))
    finally:
        sys.stderr = err


def search(ctx):
    while ctx.left() > 0:
        ctx.run("reading", reading, ctx.rng.randrange(1 << 30))
        ctx.run("calling", calling, ctx.rng.randrange(1 << 30))
        if ctx.rng.random() < .3:
            ctx.run("lines", lines, ctx.rng.randrange(1 << 30))
