"""Assembles one Verus crate: prelude, theories, data types and the mechanically translated functions."""
import os
import re

from . import ty as T
from .contract import subst
from .front import Program
from .trans import Translator, EXC, mangle
from .ty import Unsupported, rs

LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")


class Asm:
    def __init__(self, prog, reg, smoke=False):
        self.prog, self.reg, self.smoke = prog, reg, smoke
        self.lits, self.notes, self.tags, self.consts = {}, [], {}, []
        self.stubs = {}          # contract key -> reason (extraction failures)
        self.trusted = []

    # -- services for the translator ---------------------------------------
    def lit(self, s):
        if s == "":
            return "Seq::<char>::empty()"
        if s not in self.lits:
            self.lits[s] = "lit_" + "_".join("%x" % ord(c) for c in s) if len(s) <= 12 else "lit_n%d" % len(self.lits)
        return self.lits[s] + "()"

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def note_const(self, mod, node):
        pass

    def class_tag(self, ci):
        tags = self.reg.class_tags
        q = "%s.%s" % (ci.module, ci.name)
        if q in tags:
            return tags[q]
        return 1000 + self.tags.setdefault(q, len(self.tags))

    # -- headers ------------------------------------------------------------
    def sigtext(self, text, c, sigmap, comps=None):
        text = re.sub(r"\bold\((\w+)\)", lambda m: sigmap.get(m.group(1), m.group(1)), text)
        mp = {}
        for n, r in sigmap.items():
            mp[n] = r
            mp[mangle(n)] = r
        if comps is not None:
            idx = {n: i for i, (n, _) in enumerate(comps)}
            text = re.sub(r"\bfinal\((\w+)\)", lambda m: "ret@.%d" % idx[m.group(1)], text)
            mp["result"] = "ret@.0"
            if "exc" in idx:
                mp["exc"] = "ret@.%d" % idx["exc"]
        return subst(text, mp)

    def header(self, c, sig, comps, sigmap, stub=False):
        L = []
        L.append(("#[verifier::loop_isolation(false)]", None))
        if c.decreases is None and not c.total:
            L.append(("#[verifier::exec_allows_no_decreases_clause]", None))
        if c.spinoff:
            L.append(("#[verifier::spinoff_prover]", None))
        if c.rlimit:
            L.append(("#[verifier::rlimit(%s)]" % c.rlimit, None))
        for a in c.attrs:
            L.append((a, None))
        if stub:
            L.append(("#[verifier::external_body]", None))
        g = "<%s>" % ", ".join(c.generics) if c.generics else ""
        ps = ["Ghost(%s): Ghost<%s>" % (n, rs(t)) for n, t in sig] + \
             ["Ghost(%s): Ghost<%s>" % (n, t) for n, t in c.ghosts]
        rt = "(" + " ".join(rs(t) + "," for _, t in comps) + ")"
        L.append(("pub fn %s%s(%s) -> (ret: Ghost<%s>)" % (c.rust, g, ", ".join(ps), rt), None))
        if c.requires:
            L.append(("    requires", None))
            for n, x in c.requires.items():
                L.append(("        (%s)," % oneline(self.sigtext(x, c, sigmap)), "%s:requires %s" % (c.key, n)))
        ens = []
        normal = "ret@.%d == 0" % (len(comps) - 1) if c.raises else None
        for n, x in c.ensures.items():
            t = oneline(self.sigtext(x, c, sigmap, comps))
            ens.append(("(%s ==> (%s))" % (normal, t) if normal else "(%s)" % t, "%s:ensures %s" % (c.key, n)))
        if c.raises:
            e = "ret@.%d" % (len(comps) - 1)
            for exc, cond in c.raises.items():
                t = oneline(self.sigtext(cond.lstrip("?"), c, sigmap))
                if cond.startswith("?"):        # may be raised, and only then
                    ens.append(("(%s == %d ==> (%s))" % (e, EXC[exc], t), "%s:raises %s only if" % (c.key, exc)))
                    continue
                ens.append(("(%s == %d <==> (%s))" % (e, EXC[exc], t), "%s:raises %s exactly if" % (c.key, exc)))
            ens.append(("(%s == 0 || %s)" % (e, " || ".join("%s == %d" % (e, EXC[x]) for x in c.raises)),
                        "%s:raises nothing else" % c.key))
            for n, x in c.exc_ensures.items():
                t = oneline(self.sigtext(x, c, sigmap, comps))
                ens.append(("(!(%s) ==> (%s))" % (normal, t), "%s:on exception %s" % (c.key, n)))
        if ens:
            L.append(("    ensures", None))
            for x, lab in ens:
                L.append(("        %s," % x, lab))
        if c.decreases is not None:
            L.append(("    decreases %s" % self.sigtext(c.decreases, c, sigmap), "%s:decreases" % c.key))
        L.append(("{", None))
        if c.theory and not stub:
            L.append(("    broadcast use {%s};" % ", ".join(c.theory), None))
        return L

    def stub(self, c):
        comps = [("result", T.obj(self.reg.struct_for_class(c.ctor).name) if c.ctor else c.returns)]
        comps += [(m, dict(c.params)[m]) for m in c.modifies]
        if c.raises:
            comps.append(("exc", T.INT))
        sig = [(mangle(n), t) for n, t in c.params]
        out = self.header(c, sig, comps, {n: mangle(n) for n, _ in c.params}, stub=True)
        return [(T.resolve_placeholders(l), lab) for l, lab in out + [("    unimplemented!()", None), ("}", None)]]

    def reach(self, c):
        """proof fn whose assertion must fail: the precondition is satisfiable"""
        if not c.requires:
            return []
        g = "<%s>" % ", ".join(c.generics) if c.generics else ""
        ps = ["%s: %s" % (mangle(n), rs(t)) for n, t in c.params] + ["%s: %s" % (n, t) for n, t in c.ghosts]
        sm = {n: mangle(n) for n, _ in c.params}
        L = [("pub proof fn reach_%s%s(%s)" % (c.rust, g, ", ".join(ps)), None), ("    requires", None)]
        for n, x in c.requires.items():
            L.append(("        (%s)," % oneline(self.sigtext(x, c, sm)), None))
        L += [("{", None)]
        if c.theory:
            L.append(("    broadcast use {%s};" % ", ".join(c.theory), None))
        L += [("    assert(false);", "reach:" + c.key), ("}", None)]
        return L

    # -- the crate ----------------------------------------------------------
    def cone(self, roots):
        """Translate the roots and everything they call through contracts."""
        done, todo, order = {}, list(roots), []
        while todo:
            k = todo.pop(0)
            if k in done:
                continue
            c = self.reg.fns[k]
            if c.trusted or c.virtual:
                done[k] = self.stub(c)
                order.append(k)
                self.trusted.append((k, c.trusted or c.virtual))
                todo += [x for x in (c.implementations or [])]
                continue
            if k in self.stubs:
                done[k] = self.stub(c)
                order.append(k)
                continue
            try:
                tr = Translator(self, c)
                done[k] = tr.translate()
                todo += sorted(tr.callees) + list(c.needs)
            except (Unsupported, IndexError, KeyError, AttributeError, TypeError, ValueError, AssertionError) as e:
                self.stubs[k] = str(e) if isinstance(e, Unsupported) else "%s: not understood (%s %s)" % (k, type(e).__name__, e)
                done[k] = self.stub(c)
            order.append(k)
        return order, done

    def theories(self, names):
        out = []

        def add(n):
            if n in out:
                return
            with open(os.path.join(LIB, n + ".rs")) as f:
                txt = f.read()
            for m in re.findall(r"^// needs: (.*)$", txt, re.M):
                for d in m.split():
                    add(d)
            out.append(n)
        for n in names:
            add(n)
        return out

    def assemble(self, roots, theory_names, reach=False):
        order, fns = self.cone(roots)
        lines = [("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]", None),
                 ("use vstd::prelude::*;", None)]
        funcs = []

        def module(name, uses, body):
            lines.append(("pub mod %s {" % name, None))
            lines.append(("use vstd::prelude::*;", None))
            for u in uses:
                lines.append(("#[allow(unused_imports)] use super::%s::*;" % u, None))
            lines.append(("verus! {", None))
            lines.extend(body)
            lines.append(("} // verus!", None))
            lines.append(("}", None))
        th = self.theories(theory_names)
        structs = []
        for s in self.reg.structs.values():
            structs.append(("pub ghost struct %s {" % s.name, None))
            for _, f, t in s.fields:
                structs.append(("    pub %s: %s," % (f, rs(t)), None))
            structs.append(("}", None))
        for name, members in self.reg.unions.items():
            structs.append(("pub ghost enum %s { %s }" % (name, ", ".join("%s(%s)" % (m, m) for m in members)), None))
        module("data", [], structs)
        used = ["data"]
        for n in ["prelude"] + th:
            with open(os.path.join(LIB, n + ".rs")) as f:
                txt = f.read()
            module(n, used, self.theory_lines(n, txt))
            used = used + [n]
        lit = []
        for s, n in self.lits.items():
            from .expr import chars
            lit.append(("pub open spec fn %s() -> Seq<char> { %s }" % (n, chars(s)), None))
        lit += self.lits_distinct()
        module("lits", [], lit)
        used = used + ["lits"]
        body = []
        if reach:
            for k in order:
                body += self.reach(self.reg.fns[k])
        else:
            for k in order:
                body += [("// ---- %s" % k, None)] + fns[k]
        module("code", used, body)
        lines.append(("fn main() {}", None))
        self.order = order
        return lines

    def lits_distinct(self):
        """proof fn: the string literals of the crate are pairwise different"""
        items = list(self.lits.items())
        ens, body = [], []
        for i in range(len(items)):
            for j in range(i):
                (a, x), (b, y) = items[j], items[i]
                ens.append("%s() != %s()" % (x, y))
                if len(a) == len(b):
                    k = [t for t in range(len(a)) if a[t] != b[t]][0]
                    body.append("assert(%s()[%d] != %s()[%d]);" % (x, k, y, k))
                else:
                    body.append("assert(%s().len() != %s().len());" % (x, y))
        if not ens or len(ens) > 300:
            return [("pub proof fn lits_distinct() { }", "lits_distinct")]
        return [("pub proof fn lits_distinct()", "lits_distinct"), ("    ensures %s," % ", ".join(ens), "lits_distinct"), ("{", None)] + \
            [("    " + b, "lits_distinct") for b in body] + [("}", None)]

    def theory_lines(self, name, txt):
        out, lab = [], None
        for l in txt.split("\n"):
            m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", l)
            if m:
                lab = "lemma %s::%s" % (name, m.group(1))
            elif re.match(r"(pub )?(open |closed |uninterp )?spec fn|pub (fn|struct|broadcast group)|#\[", l):
                lab = None
            out.append((l, lab))
        return out


def oneline(t):
    return " ".join(t.split())
