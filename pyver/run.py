"""Development driver: python3 -m pyver.run [-s] [-k FILE] KEY..."""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyver.asm import Asm           # noqa: E402
from pyver.contract import Registry  # noqa: E402
from pyver.front import Program      # noqa: E402
from pyver import verus              # noqa: E402
import contracts                     # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("keys", nargs="+")
    ap.add_argument("-s", "--smoke", action="store_true")
    ap.add_argument("-r", "--reach", action="store_true")
    ap.add_argument("-k", "--keep", default="/tmp/crate.rs")
    ap.add_argument("-t", "--theory", default="")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only", action="store_true", help="stub the callees")
    ap.add_argument("--way")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    R = contracts.registry()
    prog = Program(a.repo, "sudokutools", a.way, [c.qual for c in R.fns.values()] if a.way else ())
    if a.way:
        print("rewritten:", prog.rewritten)
    for g in prog.global_problems:
        print("PROBLEM", g)
    asm = Asm(prog, R, smoke=a.smoke)
    keys = []
    for k in a.keys:
        keys += [x for x in R.fns if x == k or x == "sudokutools." + k or k.endswith("*") and x.startswith("sudokutools." + k[:-1])]
    if a.only:
        for k in R.fns:
            if k not in keys:
                asm.stubs[k] = "only"
    lines = asm.assemble(keys, [t for t in (a.theory.split(",") if a.theory else contracts.THEORIES)], reach=a.reach)
    for k, why in asm.stubs.items():
        if why != "only":
            print("UNSUPPORTED", k, ":", why)
    r = verus.run(lines, keep=a.keep, threads=8)
    print("verified", r.verified, "failed", r.failed, "%.1fs" % r.seconds, "TIMEOUT" if r.timeout else "")
    for e in r.errors:
        print("-", e["fn"], "|", e["message"], "|", "; ".join(e["labels"]))
        for n, lab, txt in e["lines"]:
            print("      %d %s  %s" % (n, lab or "", txt[:220]))
    if r.verified is None:
        print(r.raw[:3000])
    if a.v:
        for n, t in sorted(r.times.items(), key=lambda x: -x[1])[:15]:
            print("   %6d ms %s" % (t, n))


main()
