// needs: tuples
// needs: brute
// Applying sound steps; the step-by-step solver.

pub proof fn sound_applied(s: Sudoku, st: Step, t: Sudoku, g: Grid, part: bool)
    requires wf(s), step_ok(s, st), compat(s, g, part), sound(st, g), applied(s, st, t),
    ensures compat(t, g, part),
{
    assert forall|p: (int, int)| at(t, p) && #[trigger] num(t, p) != 0 implies gv(g, p) == num(t, p) by { assert(num(t, p) == new_num(s, st, p)); assert(num(s, p) == 0 || gv(g, p) == num(s, p)); }
    assert forall|q: (int, int)| at(t, q) implies #[trigger] cand(t, q).contains(gv(g, q)) || (part && cand(t, q).len() == 0) by {
        assert(cand(t, q).contains(gv(g, q)) <==> new_has(s, st, q, gv(g, q)));
        assert(cand(s, q).contains(gv(g, q)) || (part && cand(s, q).len() == 0));
        if st.affected.contains(q) { let k = choose|k: int| 0 <= k < st.affected.len() && st.affected[k] == q; assert(st.affected[k] == q); }
        if cand(s, q).contains(gv(g, q)) {
            if kind(st) == 2 && peer(s, st.affected[0], q) { assert(at(s, st.affected[0])); assert(peers(s.bw, s.bh, st.affected[0], q)); }
        } else {
            assert forall|v: int| !(#[trigger] cand(s, q).contains(v)) by { }
            if !cand(t, q).contains(gv(g, q)) {
                assert forall|v: int| !(#[trigger] cand(t, q).contains(v)) by { assert(cand(t, q).contains(v) <==> new_has(s, st, q, v)); if kind(st) <= 2 && q == st.affected[0] { } }
                assert(cand(t, q) =~= Set::<int>::empty());
            }
        }
    }
}
pub proof fn live_applied(s: Sudoku, st: Step, c: Cls, t: Sudoku, w: int, h: int, gs: Grids, part: bool)
    requires live(s, w, h, gs, part), good_step(s, st, c, gs), applied(s, st, t),
    ensures live(t, w, h, gs, part),
{
    assert forall|q: (int, int)| at(t, q) implies !(#[trigger] cand(t, q)).contains(0) by {
        assert(cand(t, q).contains(0) <==> new_has(s, st, q, 0));
        assert(changes(s, st, st.affected[0]));
        assert(!cand(s, q).contains(0));
    }
    assert forall|g: Grid| #[trigger] inset(gs, g) implies compat(t, g, part) by { assert(compat(s, g, part)); sound_applied(s, st, t, g, part); }
}

// ---- progress
pub open spec fn csum(s: Sudoku, it: Seq<(int, int)>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { csum(s, it, n - 1) + cand(s, it[n - 1]).len() as int }
}
pub open spec fn ncands(s: Sudoku) -> int { csum(s, fields(side(s)), fields(side(s)).len() as int) }
pub open spec fn nempty(s: Sudoku) -> int { empties(s).len() as int }
pub open spec fn less(t: Sudoku, s: Sudoku) -> bool { nempty(t) < nempty(s) || (nempty(t) == nempty(s) && ncands(t) < ncands(s)) }
pub proof fn csum_nonneg(s: Sudoku, it: Seq<(int, int)>, n: int)
    ensures csum(s, it, n) >= 0,
    decreases n,
{ if n > 0 { csum_nonneg(s, it, n - 1); } }
pub proof fn ncands_nonneg(s: Sudoku)
    ensures ncands(s) >= 0,
{ csum_nonneg(s, fields(side(s)), fields(side(s)).len() as int); }
proof fn csum_less(s: Sudoku, t: Sudoku, it: Seq<(int, int)>, n: int, p: (int, int))
    requires 0 <= n <= it.len(), forall|k: int| 0 <= k < it.len() ==> cand(t, #[trigger] it[k]).subset_of(cand(s, it[k])), cand(t, p).len() < cand(s, p).len(),
    ensures csum(t, it, n) <= csum(s, it, n), (exists|k: int| 0 <= k < n && #[trigger] it[k] == p) ==> csum(t, it, n) < csum(s, it, n),
    decreases n,
{
    if n > 0 {
        csum_less(s, t, it, n - 1, p);
        vstd::set_lib::lemma_len_subset(cand(t, it[n - 1]), cand(s, it[n - 1]));
        if exists|k: int| 0 <= k < n && #[trigger] it[k] == p {
            let k = choose|k: int| 0 <= k < n && #[trigger] it[k] == p;
            if k == n - 1 { } else { assert(0 <= k < n - 1 && it[k] == p); }
        }
    }
}
/// the step sets an empty field
pub proof fn set_less(s: Sudoku, st: Step, t: Sudoku)
    requires wf(s), step_ok(s, st), kind(st) == 2, applied(s, st, t), num(s, st.affected[0]) == 0, st.values[0] != 0,
    ensures less(t, s),
{
    broadcast use {fields_contains, to_set_contains};
    let p = st.affected[0];
    assert(at(s, p));
    assert forall|q: (int, int)| empties(t).contains(q) <==> empties(s).remove(p).contains(q) by { assert(at(s, q) ==> num(t, q) == new_num(s, st, q)); }
    assert(empties(t) =~= empties(s).remove(p));
    assert(empties(s).contains(p));
}
/// the step removes candidates
pub proof fn removes_less(s: Sudoku, st: Step, t: Sudoku)
    requires wf(s), step_ok(s, st), kind(st) == 3 || kind(st) == 4, applied(s, st, t), effective(s, st),
    ensures less(t, s),
{
    broadcast use {fields_contains, to_set_contains};
    let p = st.affected[0];
    assert(at(s, p));
    assert(changes(s, st, st.affected[0]));
    assert(empties(t) =~= empties(s)) by { assert forall|q: (int, int)| empties(t).contains(q) <==> empties(s).contains(q) by { assert(at(s, q) ==> num(t, q) == new_num(s, st, q)); } }
    let it = fields(side(s));
    assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(t, q).subset_of(cand(s, q)) by {
        assert forall|v: int| cand(t, q).contains(v) implies cand(s, q).contains(v) by { assert(new_has(s, st, q, v)); }
    }
    let v = choose|v: int| #[trigger] cand(s, p).contains(v) && (kind(st) == 3) == st.values.contains(v);
    assert(cand(t, p).contains(v) <==> new_has(s, st, p, v));
    vstd::set_lib::lemma_len_subset(cand(t, p), cand(s, p).remove(v));
    assert forall|k: int| 0 <= k < it.len() implies cand(t, #[trigger] it[k]).subset_of(cand(s, it[k])) by { assert(it.contains(it[k])); }
    csum_less(s, t, it, it.len() as int, p);
    assert(it.contains(p));
    let k = choose|k: int| 0 <= k < it.len() && it[k] == p;
    assert(it[k] == p);
}

// ---- the state of the solver
pub open spec fn comps_of(s: Sudoku) -> Grids { |g: Grid| completes(s, g) }
pub open spec fn solvable(s: Sudoku) -> bool { exists|g: Grid| #[trigger] completes(s, g) }
pub open spec fn keeps_nums(s: Sudoku, t: Sudoku) -> bool { forall|q: (int, int)| at(s, q) && num(s, q) != 0 ==> #[trigger] num(t, q) == num(s, q) }
pub open spec fn going(s0: Sudoku, s: Sudoku, part: bool) -> bool {
    &&& wf(s) && same_dims(s0, s) && keeps_nums(s0, s) && (solvable(s0) ==> solvable(s))
    &&& live(s, s.bw, s.bh, comps_of(s), part)
}
/// gs has every completion that is left
pub open spec fn all_in(s: Sudoku, gs: Grids) -> bool { forall|g: Grid| #[trigger] completes(s, g) ==> inset(gs, g) }
pub proof fn going_good(s0: Sudoku, s: Sudoku, st: Step, c: Cls, t: Sudoku, gs: Grids, part: bool)
    requires going(s0, s, part), live(s, s.bw, s.bh, gs, part), all_in(s, gs), good_step(s, st, c, gs), applied(s, st, t),
    ensures going(s0, t, part), live(t, s.bw, s.bh, gs, part), all_in(t, gs), c.tag != 1 ==> less(t, s),
{
    live_applied(s, st, c, t, s.bw, s.bh, gs, part);
    assert(changes(s, st, st.affected[0]));
    assert forall|q: (int, int)| at(s, q) && num(s, q) != 0 implies #[trigger] num(t, q) == num(s, q) by { assert(num(t, q) == new_num(s, st, q)); }
    narrower(s, t);
    assert forall|g: Grid| #[trigger] inset(comps_of(t), g) implies compat(t, g, part) by { assert(completes(t, g)); assert(completes(s, g)); assert(inset(gs, g)); }
    assert forall|q: (int, int)| at(s0, q) && num(s0, q) != 0 implies #[trigger] num(t, q) == num(s0, q) by { assert(num(s, q) == num(s0, q)); }
    if solvable(s0) {
        let g = choose|g: Grid| #[trigger] completes(s, g);
        assert(inset(gs, g));
        assert(compat(t, g, part));
        assert(completes(t, g));
    }
    if kind(st) == 2 { set_less(s, st, t); } else if kind(st) != 1 { removes_less(s, st, t); }
}
proof fn narrower(s: Sudoku, t: Sudoku)
    requires same_dims(s, t), forall|q: (int, int)| at(s, q) && num(s, q) != 0 ==> #[trigger] num(t, q) == num(s, q),
    ensures forall|g: Grid| #[trigger] completes(t, g) ==> completes(s, g),
{
    assert forall|g: Grid| #[trigger] completes(t, g) implies completes(s, g) by {
        assert forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 implies gv(g, p) == num(s, p) by { assert(num(t, p) == num(s, p)); }
    }
}
pub proof fn going_brute(s0: Sudoku, s: Sudoku, st: Step, c: Cls, t: Sudoku, sol: Grid)
    requires going(s0, s, false), brute_step(s, st, c, sol), completes(s, sol), applied(s, st, t),
    ensures going(s0, t, false), completes(t, sol), less(t, s),
{
    let p = st.affected[0];
    assert(at(s, p));
    assert(num(s, p) == 0);
    let v = gv(sol, p);
    assert forall|q: (int, int)| at(s, q) && num(s, q) != 0 implies #[trigger] num(t, q) == num(s, q) by { assert(num(t, q) == new_num(s, st, q)); }
    narrower(s, t);
    assert forall|q: (int, int)| at(s0, q) && num(s0, q) != 0 implies #[trigger] num(t, q) == num(s0, q) by { assert(num(s, q) == num(s0, q)); }
    assert(agrees(t, sol)) by { assert forall|q: (int, int)| at(t, q) && #[trigger] num(t, q) != 0 implies gv(sol, q) == num(t, q) by { assert(num(t, q) == new_num(s, st, q)); assert(num(s, q) != 0 ==> gv(sol, q) == num(s, q)); } }
    assert forall|g: Grid| #[trigger] inset(comps_of(t), g) implies compat(t, g, false) by {
        assert(completes(t, g));
        assert(completes(s, g));
        assert(inset(comps_of(s), g));
        assert(num(t, p) == new_num(s, st, p));
        assert(gv(g, p) == num(t, p));
        sound_applied(s, st, t, g, false);
    }
    assert forall|q: (int, int)| at(t, q) implies !(#[trigger] cand(t, q)).contains(0) by { assert(cand(t, q).contains(0) <==> new_has(s, st, q, 0)); assert(!cand(s, q).contains(0)); }
    assert(1 <= gv(sol, p));
    set_less(s, st, t);
    assert(completes(t, sol));
    assert(live(t, t.bw, t.bh, comps_of(t), false));
}
/// the fields treated have every number that is possible
pub open spec fn filled_by(s: Sudoku, gs: Grids, it: Seq<Step>, n: int) -> bool {
    forall|k: int, g: Grid| 0 <= k < n && #[trigger] inset(gs, g) ==> cand(s, (#[trigger] it[k]).affected[0]).contains(gv(g, it[k].affected[0]))
}
pub proof fn covered_next(s: Sudoku, st: Step, t: Sudoku, c: Cls, gs: Grids, it: Seq<Step>, n: int, s0: Sudoku)
    requires wf(s), live(s, s.bw, s.bh, gs, true), filled_by(s, gs, it, n), 0 <= n < it.len(), it[n] == st, c.tag == 1, good_step(s, st, c, gs), applied(s, st, t),
        forall|k: int| 0 <= k < n ==> at(s, (#[trigger] it[k]).affected[0]),
    ensures filled_by(t, gs, it, n + 1), filled_stay(s, t), at(t, it[n].affected[0]),
{
    let p = st.affected[0];
    assert(at(s, p));
    assert(changes(s, st, p));
    assert forall|q: (int, int)| at(s, q) && cand(s, q).len() != 0 implies (#[trigger] cand(t, q)).len() != 0 by {
        assert(q != p);
        let v = choose|v: int| #[trigger] cand(s, q).contains(v);
        if forall|v: int| !(#[trigger] cand(s, q).contains(v)) { assert(cand(s, q) =~= Set::<int>::empty()); }
        assert(cand(t, q).contains(v) <==> new_has(s, st, q, v));
        if cand(t, q).len() == 0 { assert(cand(t, q) =~= Set::<int>::empty()); }
    }
    assert forall|k: int, g: Grid| 0 <= k < n + 1 && #[trigger] inset(gs, g) implies cand(t, (#[trigger] it[k]).affected[0]).contains(gv(g, it[k].affected[0])) by {
        let q = it[k].affected[0];
        assert(sound(st, g));
        if k == n { assert(q == p); assert(cand(t, p).contains(gv(g, p)) <==> new_has(s, st, p, gv(g, p))); }
        else {
            assert(at(s, q));
            assert(cand(s, q).contains(gv(g, q)));
            if cand(s, p).len() == 0 && q == p { assert(cand(s, p) =~= Set::<int>::empty()); }
            assert(cand(t, q).contains(gv(g, q)) <==> new_has(s, st, q, gv(g, q)));
        }
    }
}
pub proof fn covered_all(s0: Sudoku, s: Sudoku, gs: Grids, it: Seq<Step>)
    requires going(s0, s, true), live(s, s.bw, s.bh, gs, true), all_in(s, gs), filled_by(s, gs, it, it.len() as int),
        forall|q: (int, int)| at(s, q) ==> (#[trigger] cand(s, q)).len() != 0 || stepped(it, q),
    ensures going(s0, s, false),
{
    assert forall|g: Grid| #[trigger] inset(comps_of(s), g) implies compat(s, g, false) by {
        assert(completes(s, g));
        assert(inset(gs, g));
        assert(compat(s, g, true));
        assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(s, q).contains(gv(g, q)) by {
            if cand(s, q).len() == 0 {
                let k = choose|k: int| 0 <= k < it.len() && (#[trigger] it[k]).affected[0] == q;
                assert(cand(s, it[k].affected[0]).contains(gv(g, it[k].affected[0])));
            }
        }
    }
}

// ---- what was reported
pub open spec fn same_state(s: Sudoku, t: Sudoku) -> bool { wf(t) && same_dims(s, t) && same_nums(s, t) && same_cands(s, t) }
/// performing the reported steps one after the other leads from s to t
pub open spec fn follows(s: Sudoku, log: Seq<Step>, t: Sudoku) -> bool
    decreases log.len(),
{
    if log.len() == 0 { same_state(s, t) } else { exists|u: Sudoku| follows(s, log.drop_last(), u) && #[trigger] applied(u, log.last(), t) }
}
pub proof fn follows_next(s: Sudoku, log: Seq<Step>, u: Sudoku, st: Step, t: Sudoku)
    requires follows(s, log, u), applied(u, st, t),
    ensures follows(s, log.push(st), t),
{
    assert(log.push(st).drop_last() =~= log);
    assert(log.push(st).last() == st);
    assert(applied(u, log.push(st).last(), t));
}
/// only the filled fields have candidates
pub open spec fn bare(s0: Sudoku, s: Sudoku) -> bool {
    &&& wf(s) && same_dims(s0, s) && same_nums(s0, s)
    &&& forall|q: (int, int)| at(s0, q) ==> #[trigger] cand(s, q) == (if num(s0, q) != 0 { set![num(s0, q)] } else { Set::<int>::empty() })
}
pub proof fn bare_going(s0: Sudoku, s: Sudoku)
    requires wf(s0), bare(s0, s),
    ensures going(s0, s, true), follows(s, Seq::<Step>::empty(), s),
{
    assert forall|q: (int, int)| at(s0, q) && num(s0, q) != 0 implies #[trigger] num(s, q) == num(s0, q) by { }
    assert forall|g: Grid| #[trigger] completes(s0, g) <==> completes(s, g) by {
        if completes(s0, g) { assert forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 implies gv(g, p) == num(s, p) by { assert(num(s0, p) == num(s, p)); } }
        if completes(s, g) { assert forall|p: (int, int)| at(s0, p) && #[trigger] num(s0, p) != 0 implies gv(g, p) == num(s0, p) by { assert(num(s0, p) == num(s, p)); } }
    }
    if solvable(s0) { let g = choose|g: Grid| #[trigger] completes(s0, g); assert(completes(s, g)); }
    assert forall|g: Grid| #[trigger] inset(comps_of(s), g) implies compat(s, g, true) by {
        assert(completes(s, g));
        assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(s, q).contains(gv(g, q)) || cand(s, q).len() == 0 by { assert(num(s0, q) == num(s, q)); }
    }
}
/// a technique the step-by-step solver uses
pub open spec fn technique(t: int) -> bool { 1 <= t <= 22 && t != 2 && t != 6 && t != 11 && t != 16 && t != 19 }
pub open spec fn plain(log: Seq<Step>) -> bool { forall|k: int| 0 <= k < log.len() ==> (#[trigger] log[k]).actions.len() == 0 && technique(log[k].cls.tag) }
pub open spec fn reported(s0: Sudoku, before: Seq<Step>, after: Seq<Step>, t: Sudoku) -> bool {
    exists|s: Sudoku, log: Seq<Step>| bare(s0, s) && #[trigger] follows(s, log, t) && after == before + log && plain(log)
}
/// steps are the reported ones, used or not
pub open spec fn sunk(log: Seq<Step>, steps: Seq<Step>) -> bool { log.len() == steps.len() && forall|k: int| 0 <= k < log.len() ==> (#[trigger] steps[k]).cls == log[k].cls }
pub open spec fn performed(s0: Sudoku, steps: Seq<Step>) -> bool { exists|log: Seq<Step>, t: Sudoku| #[trigger] reported(s0, Seq::<Step>::empty(), log, t) && sunk(log, steps) }
pub open spec fn only_calc(log: Seq<Step>) -> bool { forall|a: Step| #[trigger] log.contains(a) ==> a.cls.tag == 1 }
pub proof fn performed_plain(s0: Sudoku, steps: Seq<Step>)
    requires performed(s0, steps),
    ensures forall|k: int| 0 <= k < steps.len() ==> technique((#[trigger] steps[k]).cls.tag),
{
    let (log, t) = choose|log: Seq<Step>, t: Sudoku| #[trigger] reported(s0, Seq::<Step>::empty(), log, t) && sunk(log, steps);
    let (s, l) = choose|s: Sudoku, l: Seq<Step>| bare(s0, s) && #[trigger] follows(s, l, t) && log == Seq::<Step>::empty() + l && plain(l);
    assert(log =~= l);
    assert forall|k: int| 0 <= k < steps.len() implies technique((#[trigger] steps[k]).cls.tag) by { assert(steps[k].cls == log[k].cls); assert(technique(l[k].cls.tag)); }
}
/// the sum (the maximum) of non-negative numbers is 0 exactly if all are
pub broadcast proof fn comp_sum_sign<A>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> int)
    ensures (forall|a: A| #[trigger] s.contains(a) ==> p(a) && f(a) >= 0) ==> (#[trigger] seq_sum(comp(s, p, f))) >= 0 && (seq_sum(comp(s, p, f)) == 0 <==> forall|a: A| #[trigger] s.contains(a) ==> f(a) == 0),
    decreases s.len(),
{
    if s.len() > 0 && forall|a: A| #[trigger] s.contains(a) ==> p(a) && f(a) >= 0 {
        let t = s.drop_last();
        assert(s.contains(s[s.len() - 1]));
        assert forall|a: A| #[trigger] t.contains(a) implies s.contains(a) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == a; assert(s[k] == a); }
        comp_sum_sign(t, p, f);
        assert(comp(s, p, f).drop_last() =~= comp(t, p, f));
        assert forall|a: A| #[trigger] s.contains(a) implies t.contains(a) || a == s.last() by { let k = choose|k: int| 0 <= k < s.len() && s[k] == a; if k < t.len() { assert(t[k] == a); } }
    }
}
pub broadcast proof fn comp_max_sign<A>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> int)
    ensures s.len() > 0 && (forall|a: A| #[trigger] s.contains(a) ==> p(a) && f(a) >= 0) ==> (#[trigger] seq_max(comp(s, p, f))) >= 0 && (seq_max(comp(s, p, f)) == 0 <==> forall|a: A| #[trigger] s.contains(a) ==> f(a) == 0),
{
    broadcast use prelude_facts;
    if s.len() > 0 && forall|a: A| #[trigger] s.contains(a) ==> p(a) && f(a) >= 0 {
        let c = comp(s, p, f);
        assert(s.contains(s[0]));
        assert(c.len() > 0);
        assert forall|a: A| #[trigger] s.contains(a) implies c.contains(f(a)) by { }
        assert(c.contains(seq_max(c)));
    }
}
pub open spec fn finished(s: Sudoku) -> bool { !solvable(s) || completes(s, s.nums) }
pub proof fn finished_all(s0: Sudoku, s: Sudoku)
    requires going(s0, s, false), finished(s),
    ensures solvable(s0) ==> completes(s0, s.nums),
{
    if solvable(s0) {
        assert(agrees(s0, s.nums)) by { assert forall|p: (int, int)| at(s0, p) && #[trigger] num(s0, p) != 0 implies gv(s.nums, p) == num(s0, p) by { assert(num(s, p) == num(s0, p)); } }
    }
}
pub open spec fn has_tag(it: Seq<Cls>, t: int) -> bool { exists|k: int| 0 <= k < it.len() && (#[trigger] it[k]).tag == t }
