// needs: steps
// needs: solving
// Searching for steps: soundness for completions, effect, interference.

pub type Grids = spec_fn(Grid) -> bool;
pub open spec fn inset(gs: Grids, g: Grid) -> bool { gs(g) }
/// the sudoku agrees with the completion; part: candidates may be missing altogether
pub open spec fn compat(s: Sudoku, g: Grid, part: bool) -> bool {
    &&& valid(s.bw, s.bh, g) && agrees(s, g)
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] cand(s, q).contains(gv(g, q)) || (part && cand(s, q).len() == 0)
}
/// what everybody keeps to while a search is running: the tracked completions stay compatible
pub open spec fn live(s: Sudoku, w: int, h: int, gs: Grids, part: bool) -> bool {
    &&& wf(s) && s.bw == w && s.bh == h
    &&& forall|q: (int, int)| at(s, q) ==> !(#[trigger] cand(s, q)).contains(0)
    &&& forall|g: Grid| #[trigger] inset(gs, g) ==> compat(s, g, part)
}
/// the step is right about the completion
pub open spec fn sound(st: Step, g: Grid) -> bool {
    &&& kind(st) == 1 ==> st.values.contains(gv(g, st.affected[0]))
    &&& kind(st) == 2 ==> st.values[0] == gv(g, st.affected[0])
    &&& kind(st) == 3 ==> forall|k: int| 0 <= k < st.affected.len() ==> !st.values.contains(gv(g, #[trigger] st.affected[k]))
    &&& kind(st) == 4 ==> forall|k: int| 0 <= k < st.affected.len() ==> st.values.contains(gv(g, #[trigger] st.affected[k]))
}
/// the step changes field q
pub open spec fn changes(s: Sudoku, st: Step, q: (int, int)) -> bool {
    &&& kind(st) == 1 ==> cand(s, q).len() == 0
    &&& kind(st) == 2 ==> num(s, q) == 0 && st.values[0] != 0
    &&& kind(st) == 3 ==> exists|v: int| #[trigger] cand(s, q).contains(v) && st.values.contains(v)
    &&& kind(st) == 4 ==> exists|v: int| #[trigger] cand(s, q).contains(v) && !st.values.contains(v)
}
pub open spec fn effective(s: Sudoku, st: Step) -> bool {
    st.affected.len() > 0 && forall|k: int| 0 <= k < st.affected.len() ==> changes(s, st, #[trigger] st.affected[k])
}
pub open spec fn good_step(s: Sudoku, st: Step, c: Cls, gs: Grids) -> bool {
    &&& st.cls == c && step_ok(s, st) && st.actions.len() == 0 && effective(s, st)
    &&& kind(st) == 1 ==> !st.values.contains(0)
    &&& forall|g: Grid| #[trigger] inset(gs, g) ==> sound(st, g)
}
/// candidates once present stay present
pub open spec fn filled_stay(a: Sudoku, b: Sudoku) -> bool {
    forall|q: (int, int)| at(a, q) && cand(a, q).len() != 0 ==> (#[trigger] cand(b, q)).len() != 0
}
/// the numbers of the peers rule out everything but the candidates
pub proof fn calc_sound(s: Sudoku, g: Grid, p: (int, int))
    requires wf(s), valid(s.bw, s.bh, g), agrees(s, g), at(s, p),
    ensures calc(s, p).contains(gv(g, p)),
{
    calc_contains(s, p, gv(g, p));
    if blocked(s, p, gv(g, p)) {
        let q = choose|q: (int, int)| at(s, q) && #[trigger] peer(s, p, q) && num(s, q) == gv(g, p);
        assert(peers(s.bw, s.bh, p, q));
    }
}
/// a calculated step for field p
pub proof fn calc_step(s: Sudoku, st: Step, c: Cls, p: (int, int), vals: Set<int>, w: int, h: int, gs: Grids)
    requires live(s, w, h, gs, true), at(s, p), cand(s, p).len() == 0, vals == calc(s, p), c.tag == 1, st.cls == c, st.clues == seq![p], st.affected == seq![p],
        st.values.to_set() == vals, st.actions.len() == 0,
    ensures good_step(s, st, c, gs),
{
    broadcast use prelude_facts;
    assert forall|v: int| #[trigger] st.values.contains(v) <==> calc(s, p).contains(v) by { assert(st.values.to_set().contains(v) <==> st.values.contains(v)); }
    calc_contains(s, p, 0);
    assert forall|g: Grid| #[trigger] inset(gs, g) implies sound(st, g) by { assert(compat(s, g, true)); calc_sound(s, g, p); }
}
/// a step that sets v at p
pub proof fn single_step(s: Sudoku, st: Step, c: Cls, p: (int, int), v: int, gs: Grids)
    requires wf(s), at(s, p), num(s, p) == 0, v != 0, 2 <= c.tag <= 5, st.cls == c, st.affected == seq![p], st.values == seq![v], st.actions.len() == 0,
        forall|g: Grid| #[trigger] inset(gs, g) ==> gv(g, p) == v,
    ensures good_step(s, st, c, gs),
{ }
/// every field among the first n has candidates or has been yielded
pub open spec fn calculated(s: Sudoku, out: Seq<Step>, it: Seq<(int, int)>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> cand(s, #[trigger] it[j]).len() != 0 || stepped(out, it[j])
}
pub open spec fn stepped(out: Seq<Step>, p: (int, int)) -> bool { exists|k: int| 0 <= k < out.len() && (#[trigger] out[k]).affected[0] == p }
pub proof fn calculated_skip(s: Sudoku, out: Seq<Step>, it: Seq<(int, int)>, n: int)
    requires calculated(s, out, it, n), 0 <= n < it.len(), cand(s, it[n]).len() != 0,
    ensures calculated(s, out, it, n + 1),
{ }
pub proof fn calculated_next(s: Sudoku, t: Sudoku, out: Seq<Step>, st: Step, it: Seq<(int, int)>, n: int)
    requires calculated(s, out, it, n), 0 <= n < it.len(), filled_stay(s, t), st.affected[0] == it[n], forall|j: int| 0 <= j < it.len() ==> at(s, #[trigger] it[j]),
    ensures calculated(t, out.push(st), it, n + 1),
{
    let o = out.push(st);
    assert forall|k: int| 0 <= k < out.len() implies #[trigger] o[k] == out[k] by { }
    assert(o[out.len() as int] == st);
    assert(stepped(o, it[n]));
    assert forall|j: int| 0 <= j < n implies cand(t, #[trigger] it[j]).len() != 0 || stepped(o, it[j]) by {
        assert(at(s, it[j]));
        if cand(s, it[j]).len() == 0 { let k = choose|k: int| 0 <= k < out.len() && (#[trigger] out[k]).affected[0] == it[j]; assert(o[k] == out[k]); assert(o[k].affected[0] == it[j]); }
    }
}
pub proof fn calculated_all(s: Sudoku, out: Seq<Step>, it: Seq<(int, int)>)
    requires calculated(s, out, it, it.len() as int), forall|q: (int, int)| at(s, q) ==> #[trigger] it.contains(q),
    ensures forall|q: (int, int)| at(s, q) ==> (#[trigger] cand(s, q)).len() != 0 || stepped(out, q),
{
    assert forall|q: (int, int)| at(s, q) implies (#[trigger] cand(s, q)).len() != 0 || stepped(out, q) by {
        assert(it.contains(q));
        let j = choose|j: int| 0 <= j < it.len() && it[j] == q;
        assert(it[j] == q);
    }
}
pub proof fn only_one(s: Set<int>, v: int)
    requires s.len() == 1, s.contains(v),
    ensures s == set![v], forall|x: int| #[trigger] s.contains(x) ==> x == v,
{
    assert(s.finite());
    assert(s.remove(v).len() == 0);
    assert forall|x: int| #[trigger] s.contains(x) implies x == v by { if x != v { assert(s.remove(v).contains(x)); s.remove(v).lemma_len0_is_empty(); } }
    assert(s =~= set![v]);
}
/// none of the first n fields has candidate v
pub open spec fn lacking(s: Sudoku, it: Seq<(int, int)>, n: int, v: int) -> bool { forall|j: int| 0 <= j < n ==> !cand(s, #[trigger] it[j]).contains(v) }
pub proof fn lacking_next(s: Sudoku, it: Seq<(int, int)>, n: int)
    requires 0 <= n < it.len(),
    ensures forall|v: int| #[trigger] lacking(s, it, n + 1, v) <==> lacking(s, it, n, v) && !cand(s, it[n]).contains(v),
        forall|v: int| #[trigger] lacking(s, it, n, v) && !cand(s, it[n]).contains(v) ==> lacking(s, it, n + 1, v),
{
    assert forall|v: int| #[trigger] lacking(s, it, n + 1, v) <==> lacking(s, it, n, v) && !cand(s, it[n]).contains(v) by {
        if lacking(s, it, n + 1, v) { assert(!cand(s, it[n]).contains(v)); assert(lacking(s, it, n, v)); }
    }
}
/// it lists a row, column or box without p
pub open spec fn rest_of(w: int, h: int, k: int, u: int, p: (int, int), it: Seq<(int, int)>) -> bool {
    &&& 0 <= k < 3 && 0 <= u < w * h && in_unit(w, h, k, u, p)
    &&& forall|q: (int, int)| ingrid(w, h, q) && #[trigger] in_unit(w, h, k, u, q) && q != p ==> it.contains(q)
    &&& forall|q: (int, int)| #[trigger] it.contains(q) ==> ingrid(w, h, q) && in_unit(w, h, k, u, q) && q != p
}
pub open spec fn unit_rest(s: Sudoku, p: (int, int), it: Seq<(int, int)>) -> bool { exists|k: int, u: int| #[trigger] rest_of(s.bw, s.bh, k, u, p, it) }
pub proof fn rest_row_of(s: Sudoku, p: (int, int), it: Seq<(int, int)>)
    requires wf(s), at(s, p), forall|q: (int, int)| #[trigger] it.contains(q) <==> at(s, q) && (q.0 == p.0) && (false || q != p),
    ensures rest_of(s.bw, s.bh, 0, p.0, p, it), unit_rest(s, p, it),
{ assert(rest_of(s.bw, s.bh, 0, p.0, p, it)); }
pub proof fn rest_column_of(s: Sudoku, p: (int, int), it: Seq<(int, int)>)
    requires wf(s), at(s, p), forall|q: (int, int)| #[trigger] it.contains(q) <==> at(s, q) && (q.1 == p.1) && (false || q != p),
    ensures rest_of(s.bw, s.bh, 1, p.1, p, it), unit_rest(s, p, it),
{ assert(rest_of(s.bw, s.bh, 1, p.1, p, it)); }
pub proof fn rest_box_of(s: Sudoku, p: (int, int), it: Seq<(int, int)>)
    requires wf(s), at(s, p), forall|q: (int, int)| #[trigger] it.contains(q) <==> at(s, q) && (same_box(s.bw, s.bh, p, q)) && (false || q != p),
    ensures rest_of(s.bw, s.bh, 2, box_no(s.bw, s.bh, p), p, it), unit_rest(s, p, it),
{
    let (w, h) = (s.bw, s.bh);
    box_no_facts(w, h);
    assert(in_unit(w, h, 2, box_no(w, h, p), p));
    assert forall|q: (int, int)| ingrid(w, h, q) && #[trigger] in_unit(w, h, 2, box_no(w, h, p), q) && q != p implies it.contains(q) by { assert(box_no(w, h, p) == box_no(w, h, q)); assert(same_box(w, h, p, q)); }
    assert forall|q: (int, int)| #[trigger] it.contains(q) implies ingrid(w, h, q) && in_unit(w, h, 2, box_no(w, h, p), q) && q != p by { assert(same_box(w, h, p, q)); assert(box_no(w, h, p) == box_no(w, h, q)); }
    assert(rest_of(w, h, 2, box_no(w, h, p), p, it));
}
/// no other field of the unit can hold v
pub proof fn hidden_step(s: Sudoku, st: Step, c: Cls, p: (int, int), v: int, it: Seq<(int, int)>, gs: Grids)
    requires wf(s), live(s, s.bw, s.bh, gs, false), at(s, p), num(s, p) == 0, 2 <= c.tag <= 5, st.cls == c, st.affected == seq![p], st.values == seq![v], st.actions.len() == 0,
        1 <= v <= side(s), lacking(s, it, it.len() as int, v), unit_rest(s, p, it),
    ensures good_step(s, st, c, gs),
{
    let (k, u) = choose|k: int, u: int| #[trigger] rest_of(s.bw, s.bh, k, u, p, it);
    assert forall|g: Grid| #[trigger] inset(gs, g) implies gv(g, p) == v by {
        assert(compat(s, g, false));
        let q = unit_has(s.bw, s.bh, k, u, g, v);
        if q != p {
            assert(it.contains(q));
            let j = choose|j: int| 0 <= j < it.len() && it[j] == q;
            assert(!cand(s, it[j]).contains(v));
            assert(cand(s, q).contains(gv(g, q)));
        }
    }
    single_step(s, st, c, p, v, gs);
}
/// the step sets the number of the solution
pub open spec fn brute_step(s: Sudoku, st: Step, c: Cls, sol: Grid) -> bool {
    st.cls == c && kind(st) == 2 && step_ok(s, st) && st.actions.len() == 0 && sound(st, sol) && num(s, st.affected[0]) != st.values[0]
}
