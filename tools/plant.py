"""Plant bugs: python3 tools/plant.py FILE.py [ID…] where FILE defines BUGS = {id: dict(property, needs, what_it_breaks,
edits=[(file, old, new)…], demo=python source)}.  Each is confirmed in a scratch copy of /repo (tests pass, demo passes
without and fails with it) and then kept as seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def tests(repo):
    env = dict(os.environ, HOME="/root", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TERM="dumb")
    out = os.path.join(os.path.dirname(repo), "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=120",
                    "--continue-on-collection-errors", "--doctest-modules", "-o", "junit_family=xunit2",
                    "--junitxml=" + out, "sudokutools"], cwd=repo, env=env, capture_output=True)
    res = os.path.join(os.path.dirname(repo), "res.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", res, "junit:" + out], check=True, capture_output=True)
    bad = set(BASE["stable"]) - set(json.load(open(res))["passed"])
    return not bad, str(sorted(bad))


def plant(id, b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
        out = os.path.join(V, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"])
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        demo = lambda: subprocess.run([os.path.join(out, "demo.sh")], cwd=repo, capture_output=True, text=True)
        a = demo()
        assert a.returncode == 0, "demo fails on the unchanged tree: " + a.stdout + a.stderr
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, "%d times in %s: %r" % (s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        c = demo()
        assert c.returncode != 0, "demo passes with the patch"
        ok, text = tests(repo)
        assert ok, "tests: " + text
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(id, "ok;", (c.stdout + c.stderr).strip().split("\n")[-1][:150])
    except AssertionError as e:
        print(id, "REJECTED", str(e)[:900])
        shutil.rmtree(os.path.join(V, "seeded", id), ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for id, b in bugs.items():
        if len(sys.argv) < 3 or id in sys.argv[2:]:
            plant(id, b)
