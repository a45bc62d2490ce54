// needs: search
// Exactly which fields the searches for singles report.

pub open spec fn naked_at(s: Sudoku, q: (int, int)) -> bool { at(s, q) && num(s, q) == 0 && cand(s, q).len() == 1 }
pub open spec fn naked_of(s: Sudoku, st: Step, c: Cls) -> bool {
    st.cls == c && st.affected.len() == 1 && st.clues == st.affected && st.values.len() == 1 && naked_at(s, st.affected[0]) && cand(s, st.affected[0]) == set![st.values[0]]
}
/// the fields of the steps are in row-major order
pub open spec fn ordered(out: Seq<Step>) -> bool { forall|a: int, b: int| 0 <= a < b < out.len() ==> before((#[trigger] out[a]).affected[0], (#[trigger] out[b]).affected[0]) }
pub open spec fn ahead(out: Seq<Step>, it: Seq<(int, int)>, n: int) -> bool {
    forall|k: int, j: int| 0 <= k < out.len() && n <= j < it.len() ==> before((#[trigger] out[k]).affected[0], #[trigger] it[j])
}
pub open spec fn naked_done(s: Sudoku, out: Seq<Step>, it: Seq<(int, int)>, n: int) -> bool { forall|j: int| 0 <= j < n && naked_at(s, #[trigger] it[j]) ==> stepped(out, it[j]) }
pub proof fn stepped_push(out: Seq<Step>, st: Step)
    ensures stepped(out.push(st), st.affected[0]), forall|q: (int, int)| #[trigger] stepped(out, q) ==> stepped(out.push(st), q),
        forall|q: (int, int)| #[trigger] stepped(out.push(st), q) ==> stepped(out, q) || q == st.affected[0],
{
    let o = out.push(st);
    assert(o[out.len() as int] == st);
    assert forall|q: (int, int)| #[trigger] stepped(out, q) implies stepped(o, q) by { let k = choose|k: int| 0 <= k < out.len() && (#[trigger] out[k]).affected[0] == q; assert(o[k] == out[k]); }
    assert forall|q: (int, int)| #[trigger] stepped(o, q) implies stepped(out, q) || q == st.affected[0] by {
        let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).affected[0] == q;
        if k < out.len() { assert(out[k].affected[0] == q); }
    }
}
pub proof fn ordered_push(out: Seq<Step>, st: Step, it: Seq<(int, int)>, n: int)
    requires ordered(out), ahead(out, it, n), row_major(it), 0 <= n < it.len(), st.affected[0] == it[n],
    ensures ordered(out.push(st)), ahead(out.push(st), it, n + 1),
{
    let o = out.push(st);
    assert forall|a: int, b: int| 0 <= a < b < o.len() implies before((#[trigger] o[a]).affected[0], (#[trigger] o[b]).affected[0]) by {
        if b == out.len() { assert(before(out[a].affected[0], it[n])); } else { assert(before(out[a].affected[0], out[b].affected[0])); }
    }
    assert forall|k: int, j: int| 0 <= k < o.len() && n + 1 <= j < it.len() implies before((#[trigger] o[k]).affected[0], #[trigger] it[j]) by {
        if k == out.len() { assert(before(it[n], it[j])); } else { assert(before(out[k].affected[0], it[j])); }
    }
}
/// the same without a new step
pub proof fn ahead_next(out: Seq<Step>, it: Seq<(int, int)>, n: int)
    requires ahead(out, it, n),
    ensures ahead(out, it, n + 1),
{ }

pub open spec fn unit_no(w: int, h: int, k: int, p: (int, int)) -> int { if k == 0 { p.0 } else if k == 1 { p.1 } else { box_no(w, h, p) } }
/// no other field of the row (k = 0), column (1) or box (2) of p has candidate v
pub open spec fn missing(s: Sudoku, k: int, p: (int, int), v: int) -> bool {
    forall|q: (int, int)| at(s, q) && #[trigger] in_unit(s.bw, s.bh, k, unit_no(s.bw, s.bh, k, p), q) && q != p ==> !cand(s, q).contains(v)
}
pub open spec fn hidden_at(s: Sudoku, p: (int, int), v: int) -> bool {
    at(s, p) && num(s, p) == 0 && 1 <= v <= side(s) && (missing(s, 0, p, v) || missing(s, 1, p, v) || missing(s, 2, p, v))
}
pub open spec fn hidden_of(s: Sudoku, st: Step, c: Cls) -> bool {
    st.cls == c && st.affected.len() == 1 && st.clues == st.affected && st.values.len() == 1 && hidden_at(s, st.affected[0], st.values[0])
}
pub open spec fn rest_is(s: Sudoku, k: int, p: (int, int), it: Seq<(int, int)>) -> bool { rest_of(s.bw, s.bh, k, unit_no(s.bw, s.bh, k, p), p, it) }
pub proof fn missing_is(s: Sudoku, k: int, p: (int, int), it: Seq<(int, int)>)
    requires wf(s), at(s, p), rest_is(s, k, p, it),
    ensures forall|v: int| #[trigger] lacking(s, it, it.len() as int, v) ==> missing(s, k, p, v), forall|v: int| #[trigger] missing(s, k, p, v) ==> lacking(s, it, it.len() as int, v),
{
    assert forall|v: int| #[trigger] lacking(s, it, it.len() as int, v) implies missing(s, k, p, v) by {
        assert forall|q: (int, int)| at(s, q) && #[trigger] in_unit(s.bw, s.bh, k, unit_no(s.bw, s.bh, k, p), q) && q != p implies !cand(s, q).contains(v) by {
            assert(it.contains(q));
            let j = choose|j: int| 0 <= j < it.len() && it[j] == q;
            assert(!cand(s, it[j]).contains(v));
        }
    }
    assert forall|v: int| #[trigger] missing(s, k, p, v) implies lacking(s, it, it.len() as int, v) by {
        assert forall|j: int| 0 <= j < it.len() implies !cand(s, #[trigger] it[j]).contains(v) by { assert(it.contains(it[j])); }
    }
}
pub open spec fn hidden_done(s: Sudoku, out: Seq<Step>, it: Seq<(int, int)>, n: int) -> bool { forall|j: int, v: int| 0 <= j < n && #[trigger] hidden_at(s, it[j], v) ==> stepped(out, it[j]) }
/// every number missing in one of the first n units leads to a step
pub open spec fn units_done(s: Sudoku, out: Seq<Step>, us: Seq<Unit>, n: int, p: (int, int)) -> bool {
    forall|i: int, v: int| 0 <= i < n && 1 <= v <= side(s) && #[trigger] missing(s, us[i].tag, p, v) ==> stepped(out, p)
}
pub open spec fn all_units(us: Seq<Unit>) -> bool { forall|k: int| 0 <= k < 3 ==> exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]).tag == #[trigger] (k + 0) }
/// the fields of the steps lie before p or are p
pub open spec fn upto(out: Seq<Step>, p: (int, int)) -> bool { forall|k: int| 0 <= k < out.len() ==> before((#[trigger] out[k]).affected[0], p) || out[k].affected[0] == p }
pub proof fn ordered_push_at(out: Seq<Step>, st: Step, it: Seq<(int, int)>, n: int, p: (int, int))
    requires ordered(out), upto(out, p), !stepped(out, p), ahead(out, it, n), row_major(it), 1 <= n <= it.len(), it[n - 1] == p, st.affected[0] == p,
    ensures ordered(out.push(st)), ahead(out.push(st), it, n), upto(out.push(st), p),
{
    let o = out.push(st);
    assert forall|k: int| 0 <= k < out.len() implies before((#[trigger] out[k]).affected[0], p) by { }
    assert forall|a: int, b: int| 0 <= a < b < o.len() implies before((#[trigger] o[a]).affected[0], (#[trigger] o[b]).affected[0]) by {
        if b == out.len() { assert(before(out[a].affected[0], p)); } else { assert(before(out[a].affected[0], out[b].affected[0])); }
    }
    assert forall|k: int, j: int| 0 <= k < o.len() && n <= j < it.len() implies before((#[trigger] o[k]).affected[0], #[trigger] it[j]) by {
        if k == out.len() { assert(before(it[n - 1], it[j])); } else { assert(before(out[k].affected[0], it[j])); }
    }
    assert forall|k: int| 0 <= k < o.len() implies before((#[trigger] o[k]).affected[0], p) || o[k].affected[0] == p by { if k < out.len() { assert(o[k] == out[k]); } }
}
pub proof fn push_has(s: Seq<(int, int)>, x: (int, int))
    ensures forall|q: (int, int)| #[trigger] s.push(x).contains(q) <==> s.contains(q) || q == x,
{
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    assert forall|q: (int, int)| s.contains(q) implies #[trigger] t.contains(q) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == q; assert(t[k] == q); }
}
pub broadcast proof fn push_has_b(s: Seq<(int, int)>, x: (int, int), q: (int, int))
    ensures #[trigger] s.push(x).contains(q) <==> s.contains(q) || q == x,
{ push_has(s, x); }
