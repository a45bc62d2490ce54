"""Runs Verus on an assembled crate and maps its answers to named obligations."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time


class Result:
    pass


def run(lines, threads=6, timeout=800, rlimit=None, multiple=6, extra=(), keep=None):
    d = tempfile.mkdtemp(prefix="pyver")
    path = os.path.join(d, "crate.rs")
    with open(path, "w") as f:
        f.write("\n".join(l for l, _ in lines) + "\n")
    if keep:
        shutil.copy(path, keep)
    cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", str(multiple),
           "--num-threads", str(threads), "--triggers-mode", "silent"] + list(extra)
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    t0 = time.time()
    r = Result()
    r.cmd = " ".join(cmd).replace(path, "crate.rs")
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            r.timeout = False
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            r.timeout = True
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.seconds = time.time() - t0
    r.rc = p.returncode
    labels = [lab for _, lab in lines]
    fnat = function_index(lines)
    r.errors, r.raw = [], err
    for l in err.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") not in ("error",) or "aborting due to" in m.get("message", ""):
            continue
        spans = [s for s in m.get("spans", []) if s["file_name"].endswith("crate.rs")]
        prim = [s for s in spans if s["is_primary"]] or spans
        labs, fn = [], None
        for s in spans:
            lo, hi = s["line_start"], s["line_end"]
            if lo == hi or hi - lo < 3:
                for n in range(lo, hi + 1):
                    if n - 1 < len(labels) and labels[n - 1] and labels[n - 1] not in labs:
                        labs.append(labels[n - 1])
        # the function whose body raised it: prefer spans that are not in a signature
        fns = [fnat[s["line_start"] - 1] for s in spans if s["line_start"] - 1 < len(fnat)]
        fn = None
        for s in prim:
            fn = fn or fnat[s["line_start"] - 1]
        r.errors.append(dict(message=m["message"], labels=labs, fn=fn, fns=fns,
                             lines=[(s["line_start"], s.get("label"), (s["text"][0]["text"].strip() if s.get("text") else ""))
                                    for s in spans], rendered=m.get("rendered", "")))
    r.verified = r.failed = None
    r.times = {}
    try:
        j = json.loads(out)
        vr = j.get("verification-results", {})
        r.verified, r.failed = vr.get("verified"), vr.get("errors")
        r.vir_error = vr.get("encountered-vir-error")
        r.success = bool(vr.get("success"))
        r.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.times[f["function"].split("::")[-1]] = f.get("time", 0)
    except ValueError:
        r.success, r.vir_error, r.smt_ms = False, True, 0
    return r


def function_index(lines):
    out, cur = [], None
    for l, _ in lines:
        m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:open |closed )?(?:proof |spec |)fn (\w+)", l)
        if m:
            cur = m.group(1)
        out.append(cur)
    return out
