#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property by the proof of its contracts on /repo."""
import argparse
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PATH"] = os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:/opt/veriftools/bin"

from pyver.asm import Asm             # noqa: E402
from pyver.front import Program       # noqa: E402
from pyver import verus               # noqa: E402
from pyver.reform import WAYS         # noqa: E402
import contracts                      # noqa: E402
import props                          # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/usr/bin/python3"


def translate_and_prove(reg, prog, spec, tier, seed, deadline):
    """-> dict(failed=[(obligation, text)], ...)"""
    out = dict(failed=[], runs=[], notes=[])
    stubs = {}
    fn2key = {c.rust: k for k, c in reg.fns.items()}
    for attempt in range(8):
        asm = Asm(prog, reg)
        asm.stubs.update(stubs)
        lines = asm.assemble(spec["roots"], spec["theory"])
        r = verus.run(lines, rlimit=spec.get("rlimit"), timeout=max(30, deadline - time.time()))
        out["runs"].append(r)
        if r.timeout:
            break
        if r.vir_error or r.verified is None:
            bad = {fn2key[f] for e in r.errors for f in ([e["fn"]] if e["fn"] else e["fns"]) if f in fn2key}
            bad -= set(asm.stubs)
            if not bad:
                break
            for k in bad:
                e = [e for e in r.errors if e["fn"] and fn2key.get(e["fn"]) == k]
                stubs[k] = "the translation is ill-typed: " + (e[0]["message"] + " " + str(e[0]["lines"][:2]) if e else "")
            continue
        break
    out.update(asm=asm, lines=lines, last=r)
    for k, why in asm.stubs.items():
        out["failed"].append(("%s:inside the verified subset" % k, why))
    if r.timeout or r.verified is None or (r.vir_error and not r.errors):
        out["failed"].append(("verifier accepts the crate", ("timeout" if r.timeout else r.raw[-3000:])))
        return out
    errs = r.errors
    if errs and not r.vir_error and not asm.stubs and time.time() < deadline - 60:
        # an unstable query is not a failed obligation: try again with other seeds and a larger budget
        for k in range(2):
            if time.time() > deadline - 60:
                break
            only = sorted({e["fn"] for e in errs if e["fn"]})
            ex = []
            if len(only) == 1:
                ex = ["--verify-function", only[0]] + (["--verify-only-module", "code"] if only[0] in fn2key else
                                                       ["--verify-only-module", module_of(errs[0], lines)])
            r2 = verus.run(lines, rlimit=(spec.get("rlimit") or 10) * 3, timeout=max(30, deadline - time.time()),
                           extra=ex + ["--smt-option", "smt.random_seed=%d" % (seed + 17 * k + 1)])
            out["runs"].append(r2)
            if r2.timeout or r2.verified is None:
                break
            if ex and r2.verified == 0 and not r2.errors:
                break
            errs2 = r2.errors
            fns2 = {e["fn"] for e in errs2}
            errs = [e for e in errs if e["fn"] in fns2] if not ex else errs2
            if not errs:
                out["notes"].append("an unstable query was retried")
                break
    for e in errs:
        labs = e["labels"] or [str(e["fn"])]
        own = [l for l in labs if e["fn"] in fn2key and l.startswith(fn2key[e["fn"]] + ":")]
        name = "; ".join(own or labs)
        if e["fn"] and e["fn"] in fn2key and not own:
            name = fn2key[e["fn"]] + ":" + e["message"] + " [" + "; ".join(labs) + "]"
        out["failed"].append((name, e["rendered"]))
    return out


def other_forms(reg, spec, tier, seed, deadline, res, failed):
    """Loops and temporaries the contracts refer to may be written differently by now: prove an equivalent form (pyver/reform.py)."""
    quals = {c.qual for k, c in reg.fns.items() if any(l.strip().startswith(k + ":") for n, _ in failed for l in n.split(";"))}
    seen = []
    for way in WAYS:
        if time.time() > deadline - 90:
            break
        prog = Program(REPO, "sudokutools", way, quals)
        if not prog.rewritten or prog.rewritten in seen:
            continue
        seen.append(prog.rewritten) if way == "all" else None
        r = translate_and_prove(reg, prog, spec, tier, seed, deadline)
        if not r["failed"]:
            r["asm"].notes.append("proved in an equivalent form (pyver/reform.py, %s): %s" % (way, ", ".join(prog.rewritten)))
            return r, []
    return res, failed


def module_of(err, lines):
    n = err["lines"][0][0]
    for i in range(n - 1, -1, -1):
        m = re.match(r"pub mod (\w+) \{", lines[i][0])
        if m:
            return m.group(1)
    return "code"


def vacuity(reg, prog, spec, deadline, smoke):
    """Reachability: an assertion of false behind each precondition (and each return) must fail."""
    asm = Asm(prog, reg, smoke=smoke)
    lines = asm.assemble(spec["roots"], spec["theory"], reach=not smoke)
    want = {lab for _, lab in lines if lab and lab.startswith("smoke:" if smoke else "reach:")}
    fails = set()
    r = verus.run(lines, multiple=8, rlimit=3, timeout=max(30, min(400, deadline - time.time())),
                  extra=["--verify-only-module", "code"])
    if r.timeout or r.verified is None:
        return want, None, r
    fn2key = {c.rust: k for k, c in reg.fns.items()}
    for e in r.errors:
        for l in e["labels"]:
            fails.add(l)
        if "rlimit" in e["message"] or "exceeded" in e["message"]:
            k = (e["fn"] or "").replace("reach_", "")
            if k in fn2key:
                fails.add(("smoke:" if smoke else "reach:") + fn2key[k])
    return want, want - fails, r


def refute(pid, budget, seed, thorough):
    path = os.path.join(HERE, "refute", pid.lower() + ".py")
    if not os.path.exists(path):
        return dict(failure=None, error="no concrete search", cases=0, distinct=0, samples=[], known=[], bound="")
    import tempfile
    fd, outp = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        p = subprocess.Popen([PY, "-B", os.path.join(HERE, "refute", "base.py"), pid, str(budget), str(seed),
                              "1" if thorough else "0", REPO, outp], cwd=HERE, start_new_session=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             env=dict(os.environ, PYTHONHASHSEED=str(seed % 1000)))
        try:
            log, _ = p.communicate(timeout=budget + 90)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return dict(failure=None, error="search did not stop", cases=0, distinct=0, samples=[], known=[], bound="")
        try:
            with open(outp) as f:
                return json.load(f)
        except ValueError:
            return dict(failure=None, error="search crashed: " + log[-1500:], cases=0, distinct=0, samples=[], known=[], bound="")
    finally:
        os.unlink(outp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.id, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    deadline = t0 + (3000 if thorough else 560)
    spec = props.PROPS[pid]
    reg = contracts.registry()
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    failed = []
    res = None
    try:
        prog = Program(REPO, "sudokutools")
        for g in prog.global_problems:
            failed.append(("the package is analysable", g))
        res = translate_and_prove(reg, prog, spec, tier, seed, deadline)
        failed += res["failed"]
        if failed and not prog.global_problems:
            res, failed = other_forms(reg, spec, tier, seed, deadline, res, failed)
            prog = res["asm"].prog
    except Exception as e:            # the extraction itself broke on changed source
        import traceback
        failed.append(("extraction of the functions under contract", traceback.format_exc()[-2500:]))
    vac = None
    if not failed:
        want, alive, r = vacuity(reg, prog, spec, deadline, smoke=False)
        vac = (len(want), alive)
        if alive is None or alive:
            failed.append(("vacuity: preconditions are satisfiable", str(sorted(alive)) if alive else r.raw[-1500:]))
        if thorough and not failed:
            want, alive, r = vacuity(reg, prog, spec, deadline, smoke=True)
            vac = vac + (len(want), alive)
            if alive:
                failed.append(("vacuity: every return is reachable", str(sorted(alive))))
        if not any(lab for _, lab in res["lines"]):
            failed.append(("vacuity: obligations exist", "no obligations were generated"))
    budget = spec.get("search", 25)
    budget = budget * 8 if thorough else (max(150, budget * 4) if failed else budget)
    budget = min(budget, max(20, t0 + (3300 if thorough else 780) - time.time()))
    budget = float(os.environ.get("VERIF_SEARCH") or budget)
    conc = refute(pid, budget, seed, thorough)
    violations = 0
    rc = 0
    obl, dis, ev = evidence(pid, spec, res, failed, vac, conc, reg)
    if conc["failure"] or failed:
        violations, rc = 1, 1
        path = os.path.join(HERE, "evidence", "replay", "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, failed_obligations=[dict(obligation=n, verifier_output=t) for n, t in failed],
                           failing_input=conc["failure"], replay="VERIF_SEED=%d python3 refute/base.py %s %d %d %d %s /dev/stdout"
                           % (seed, pid, budget, seed, int(thorough), REPO), search_error=conc["error"]), f, indent=1)
        for n, t in failed[:8]:
            print("failed obligation: %s" % n)
            if res is None or ":inside the verified subset" in n or n.startswith("extraction"):
                print("   " + t.strip()[-600:])
        if conc["failure"]:
            print("failing input: %s" % json.dumps(conc["failure"])[:1500])
            if not failed:
                print("(every obligation under contract was discharged; the failing input lies outside them)")
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    for k in conc.get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev.update(property=pid, tier=tier, seed=seed, wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(HERE, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d of %d obligations discharged, %d concrete cases, %.0f s" % (pid, dis, obl, conc["cases"], time.time() - t0))
    sys.exit(rc)


def evidence(pid, spec, res, failed, vac, conc, reg):
    obl = dis = 0
    cov, assumptions = {}, []
    if res is not None and res.get("asm") is not None:
        asm, r = res["asm"], res["last"]
        labels = {lab for _, lab in res["lines"] if lab and not lab.startswith("hook:")}
        code = sum(1 for _, lab in res["lines"] if lab)
        obl = len(labels)
        bad = {n for n, _ in failed}
        dis = max(0, obl - len([n for n in bad])) if r.verified is not None else 0
        if failed and dis == obl:
            dis = obl - 1
        under = [k for k in asm.order if k not in asm.stubs and not (reg.fns[k].trusted or reg.fns[k].virtual)]
        trusted = ["%s: %s" % (k, w) for k, w in asm.trusted]
        ext = sorted({m.group(1) for i, (l, _) in enumerate(res["lines"])
                      for m in [re.match(r"pub fn (\w+)", l)] if m and i and any(
                          "external_body" in res["lines"][j][0] for j in range(max(0, i - 5), i))})
        scan = sorted({w for l, _ in res["lines"] for w in ("assume(", "admit(", "axiom fn", "assume_specification")
                       if w in l and not l.strip().startswith("//")})
        uninterp = sorted({m.group(1) for l, _ in res["lines"] for m in [re.match(r"pub uninterp spec fn (\w+)", l)] if m})
        cov = dict(
            functions_under_contract=under, verus_items_verified=r.verified, verus_items_failed=r.failed,
            backend="Verus 0.2026.09.13 / Z3", solver_ms=r.smt_ms, slowest_ms=dict(sorted(r.times.items(), key=lambda x: -x[1])[:8]),
            labelled_lines=code, named_obligations_failed=sorted(bad)[:20],
            reachability=dict(asserted_false_behind_each_precondition=vac[0] if vac else None,
                              unexpectedly_proved=sorted(vac[1]) if vac and vac[1] else [],
                              **(dict(asserted_false_before_returns=vac[2], unexpectedly_proved_returns=sorted(vac[3] or [])) if vac and len(vac) > 2 else {})),
            trusted_base=["translator /verif/pyver (Python -> Verus, mechanical, stated in DESIGN.md)",
                          "Verus and Z3", "CPython semantics of the translated subset; integers are mathematical (as in Python)"]
            + ["model of a library function: " + e for e in ext if not e.startswith("f_")] + trusted
            + ["uninterpreted: " + u for u in uninterp] + ["assumption keyword in crate: " + s for s in scan],
            checker_cmd=r.cmd, extraction_notes=asm.notes)
        assumptions = list(spec.get("assume", [])) + trusted
    cov.update(obligations=obl, discharged=dis,
               bounded_conformance=dict(label="bounded, not counted as proved", bound=conc.get("bound", ""), cases=conc["cases"],
                                        distinct=conc["distinct"], samples=conc["samples"], error=conc["error"]))
    cov.setdefault("checker_cmd", "verus crate.rs")
    cov.setdefault("trusted_base", [])
    return obl, dis, dict(level=spec.get("level", "proof"), coverage=cov, assumptions=assumptions)


if __name__ == "__main__":
    main()
