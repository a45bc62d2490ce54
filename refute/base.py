"""Concrete replay of the contracts on the real code: bounded search for an input that breaks a property.

The deciding step is the proof; this module only turns a failed obligation into a failing input (and, as a
labelled bounded conformance run, compares the contracts with CPython's execution of the real code)."""
import json
import os
import random
import resource
import signal
import sys
import time
import traceback


class Bad(Exception):
    """The property is broken on a concrete input."""

    def __init__(self, what, **info):
        Exception.__init__(self, what)
        self.what, self.info = what, info


def short(args, defaults):
    """the arguments without those at the end that are the documented defaults"""
    args = list(args)
    while defaults and len(args) and type(args[-1]) is type(defaults[-1]) and args[-1] == defaults[-1]:
        args, defaults = args[:-1], defaults[:-1]
    return args


class Enough(Exception):
    pass


class Slow(BaseException):
    pass


def _alarm(*_):
    raise Slow()


class Ctx:
    def __init__(self, pid, budget, seed, thorough, repo):
        self.pid, self.seed, self.thorough, self.repo = pid, seed, thorough, repo
        self.end = time.time() + budget
        self.rng = random.Random(seed * 7919 + 11)
        self.n, self.seen, self.samples = 0, set(), []
        self.known = []          # known findings that still reproduce
        self.failure = None
        self.limit = 25
        self.slow_is_bad = True

    def left(self):
        return self.end - time.time()

    def run(self, label, fn, *args, **kw):
        """One case: fn(*args) compares the real code with the oracle and raises Bad."""
        if self.left() < 0:
            raise Enough()
        self.n += 1
        key = label + repr(args)[:400]
        self.seen.add(hash(key))
        if len(self.samples) < 4 or self.rng.random() < 0.001 and len(self.samples) < 12:
            self.samples.append(key[:200])
        rs = random.getstate()
        random.seed(self.rng.randrange(1 << 30))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(kw.get("limit", self.limit))
        try:
            fn(*args)
        except Bad as e:
            e.info.setdefault("case", key)
            raise
        except Slow:
            if not self.slow_is_bad:
                return
            raise Bad("no result within %d s" % kw.get("limit", self.limit), case=key)
        except MemoryError:
            raise Bad("memory exhausted", case=key)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(os.path.realpath(f.filename).startswith(os.path.realpath(self.repo) + os.sep) for f in tb) \
                    or isinstance(e, RecursionError):
                raise Bad("raised %s: %s" % (type(e).__name__, e), case=key,
                          traceback=traceback.format_exc()[-1500:])
            raise
        finally:
            signal.alarm(0)
            random.setstate(rs)


def eq(got, want, what, **info):
    if got != want:
        raise Bad("%s: got %r, expected %r" % (what, got if len(repr(got)) < 600 else repr(got)[:600], want if len(repr(want)) < 600 else repr(want)[:600]), **info)


def ok(cond, what, **info):
    if not cond:
        raise Bad(what, **info)


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Bad("%s: raised %s instead of %s" % (what, type(e).__name__, getattr(exc, "__name__", exc)))
    raise Bad("%s: returned %r instead of raising %s" % (what, r, getattr(exc, "__name__", exc)))


def dims(limit=12):
    """box sizes with side length at most limit, smallest first"""
    out = [(w, h) for w in range(1, limit + 1) for h in range(1, limit + 1) if w * h <= limit]
    return sorted(out, key=lambda x: (x[0] * x[1], x))


def main():
    pid, budget, seed, thorough, repo, out = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.sep, "nonexistent", "pycache")       # compiled files of /repo may be stale
    sys.setrecursionlimit(5000)
    ctx = Ctx(pid, float(budget), int(seed), thorough == "1", repo)
    res = dict(failure=None, error=None)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        try:
            signal.alarm(60)
            import sudokutools  # noqa: F401
            for m in ("sudoku", "solve", "solvers", "analyze", "dlx", "generate", "coordinates", "notation", "actions", "shell"):
                __import__("sudokutools." + m)
            signal.alarm(0)
        except BaseException as e:
            raise Bad("importing the package fails: %s: %s" % (type(e).__name__, e))
        mod = __import__("refute." + pid.lower(), fromlist=["x"])
        mod.search(ctx)
    except Enough:
        pass
    except Bad as e:
        res["failure"] = dict(what=e.what, **{k: str(v)[:3000] for k, v in e.info.items()})
    except BaseException as e:
        res["error"] = "%s\n%s" % (e, traceback.format_exc()[-2500:])
    res.update(cases=ctx.n, distinct=len(ctx.seen), samples=ctx.samples, known=ctx.known,
               bound=getattr(sys.modules.get("refute." + pid.lower()), "BOUND", ""))
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import refute.base as b       # one copy of Bad/Enough for the refuters
    b.main()
