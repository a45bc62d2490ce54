// needs: comps
// Backtracking over the candidates of one empty field.

pub open spec fn filled_ok(s: Sudoku) -> bool { forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 ==> 1 <= num(s, p) <= side(s) }
/// the candidates of an empty field are the numbers its peers leave
pub open spec fn cands_ok(s: Sudoku) -> bool {
    forall|p: (int, int), v: int| at(s, p) && num(s, p) == 0 ==> (#[trigger] cand(s, p).contains(v) <==> 1 <= v <= side(s) && !blocked(s, p, v))
}
pub open spec fn good(s: Sudoku) -> bool { wf(s) && filled_ok(s) && conflict_free(s) && cands_ok(s) }
pub open spec fn empties(s: Sudoku) -> Set<(int, int)> { fields(side(s)).to_set().filter(|p: (int, int)| num(s, p) == 0) }
/// v is placed in p and removed from the candidates of the peers
pub open spec fn placed(s: Sudoku, p: (int, int), v: int, u: Sudoku) -> bool {
    &&& wf(u) && same_dims(s, u)
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] num(u, q) == (if q == p { v } else { num(s, q) })
    &&& forall|q: (int, int), x: int| at(s, q) ==> (#[trigger] cand(u, q).contains(x) <==> cand(s, q).contains(x) && !(x == v && peer(s, p, q)))
}
pub proof fn placed_good(s: Sudoku, p: (int, int), v: int, u: Sudoku)
    requires good(s), at(s, p), num(s, p) == 0, cand(s, p).contains(v), placed(s, p, v, u),
    ensures good(u), empties(u).len() < empties(s).len(),
{
    assert(num(u, p) == v);
    assert(1 <= v <= side(s) && !blocked(s, p, v));
    assert forall|q: (int, int)| at(s, q) && #[trigger] peer(s, p, q) implies num(s, q) != v && peer(s, q, p) by { reveal(same_box); }
    assert(conflict_free(u)) by {
        assert forall|a: (int, int), b: (int, int)| at(u, a) && at(u, b) && #[trigger] peer(u, a, b) implies num(u, a) == 0 || num(u, a) != num(u, b) by {
            assert(peer(s, a, b));
            reveal(same_box);
            if a == p { assert(peer(s, p, b)); } else if b == p { assert(peer(s, p, a)); }
        }
    }
    assert(cands_ok(u)) by {
        assert forall|q: (int, int), x: int| at(u, q) && num(u, q) == 0 implies (#[trigger] cand(u, q).contains(x) <==> 1 <= x <= side(u) && !blocked(u, q, x)) by {
            assert(q != p);
            assert(num(s, q) == 0);
            assert(cand(s, q).contains(x) <==> 1 <= x <= side(s) && !blocked(s, q, x));
            if blocked(u, q, x) {
                let b = choose|b: (int, int)| at(u, b) && #[trigger] peer(u, q, b) && num(u, b) == x;
                assert(peer(s, q, b));
                if b == p { reveal(same_box); assert(peer(s, p, q)); } else { assert(num(s, b) == x); }
            }
            if 1 <= x && blocked(s, q, x) {
                let b = choose|b: (int, int)| at(s, b) && #[trigger] peer(s, q, b) && num(s, b) == x;
                assert(b != p);
                assert(peer(u, q, b) && num(u, b) == x);
            }
            if x == v && peer(s, p, q) { reveal(same_box); assert(peer(u, q, p) && num(u, p) == x); }
        }
    }
    assert(empties(u).len() < empties(s).len()) by {
        broadcast use {fields_contains, to_set_contains};
        assert forall|q: (int, int)| empties(u).contains(q) <==> empties(s).remove(p).contains(q) by { assert(at(s, q) ==> num(u, q) == (if q == p { v } else { num(s, q) })); }
        assert(empties(u) =~= empties(s).remove(p));
        assert(empties(s).contains(p));
    }
}
pub proof fn placed_comps(s: Sudoku, p: (int, int), v: int, u: Sudoku)
    requires wf(s), at(s, p), num(s, p) == 0, placed(s, p, v, u), v != 0,
    ensures forall|g: Grid| #[trigger] completes(u, g) <==> completes(s, g) && gv(g, p) == v,
{
    assert forall|g: Grid| #[trigger] completes(u, g) <==> completes(s, g) && gv(g, p) == v by {
        if completes(u, g) {
            assert(num(u, p) == v);
            assert forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 implies gv(g, q) == num(s, q) by { assert(num(u, q) == num(s, q)); }
        }
        if completes(s, g) && gv(g, p) == v {
            assert forall|q: (int, int)| at(u, q) && #[trigger] num(u, q) != 0 implies gv(g, q) == num(u, q) by { if q != p { assert(num(s, q) == num(u, q)); } }
        }
    }
}
/// out lists the completions with one of the first n values of it in p
pub open spec fn part_comps(s: Sudoku, p: (int, int), out: Seq<Sudoku>, it: Seq<int>, n: int) -> bool {
    &&& forall|t: Sudoku| #[trigger] out.contains(t) ==> solved_from(s, t) && exists|k: int| 0 <= k < n && num(t, p) == #[trigger] it[k]
    &&& forall|g: Grid, k: int| 0 <= k < n && #[trigger] completes(s, g) && gv(g, p) == #[trigger] it[k] ==> exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g
    &&& forall|a: int, b: int| 0 <= a < b < out.len() ==> (#[trigger] out[a]).nums != (#[trigger] out[b]).nums
}
/// the completions for the value it[n-1] are being appended
pub open spec fn tail_comps(s: Sudoku, p: (int, int), out: Seq<Sudoku>, it: Seq<int>, n: int, res: Seq<Sudoku>, m: int) -> bool {
    &&& 0 <= m <= res.len() && m <= out.len()
    &&& part_comps(s, p, out.take(out.len() - m), it, n - 1)
    &&& out.skip(out.len() - m) == res.take(m)
}
pub broadcast proof fn tail_comps_none(s: Sudoku, p: (int, int), out: Seq<Sudoku>, it: Seq<int>, n: int, res: Seq<Sudoku>)
    requires part_comps(s, p, out, it, n - 1),
    ensures #[trigger] tail_comps(s, p, out, it, n, res, 0),
{ assert(out.take(out.len() - 0) =~= out); assert(out.skip(out.len() - 0) =~= res.take(0)); }
pub broadcast proof fn tail_comps_next(s: Sudoku, p: (int, int), out: Seq<Sudoku>, it: Seq<int>, n: int, res: Seq<Sudoku>, m: int)
    requires tail_comps(s, p, out, it, n, res, m - 1), 1 <= m <= res.len(),
    ensures #[trigger] tail_comps(s, p, out.push(res[m - 1]), it, n, res, m),
{
    let o = out.push(res[m - 1]);
    assert(o.take(o.len() - m) =~= out.take(out.len() - (m - 1)));
    assert(o.skip(o.len() - m) =~= out.skip(out.len() - (m - 1)).push(res[m - 1]));
    assert(res.take(m) =~= res.take(m - 1).push(res[m - 1]));
}
pub proof fn part_comps_next(s: Sudoku, p: (int, int), out: Seq<Sudoku>, it: Seq<int>, n: int, u: Sudoku, res: Seq<Sudoku>)
    requires good(s), at(s, p), num(s, p) == 0, it.no_duplicates(), 1 <= n <= it.len(), it[n - 1] != 0, placed(s, p, it[n - 1], u),
        tail_comps(s, p, out, it, n, res, res.len() as int), lists_comps(u, res),
    ensures part_comps(s, p, out, it, n),
{
    let v = it[n - 1];
    let a = out.take(out.len() - res.len());
    placed_comps(s, p, v, u);
    assert(out.skip(out.len() - res.len()) =~= res);
    let l = a.len();
    assert forall|i: int| l <= i < out.len() implies #[trigger] out[i] == res[i - l] && solved_from(s, out[i]) && num(out[i], p) == v by {
        assert(out.skip(out.len() - res.len())[i - l] == out[i]);
        assert(res.contains(res[i - l]));
        assert(solved_from(u, out[i]));
        assert(completes(u, out[i].nums));
        assert(num(out[i], p) == gv(out[i].nums, p));
    }
    assert forall|i: int| 0 <= i < l implies #[trigger] out[i] == a[i] && a.contains(out[i]) by { assert(a[i] == out[i]); }
    assert forall|t: Sudoku| #[trigger] out.contains(t) implies solved_from(s, t) && exists|k: int| 0 <= k < n && num(t, p) == #[trigger] it[k] by {
        let i = choose|i: int| 0 <= i < out.len() && out[i] == t;
        if i >= l { assert(num(t, p) == it[n - 1]); } else { assert(a.contains(t)); let k = choose|k: int| 0 <= k < n - 1 && num(t, p) == #[trigger] it[k]; assert(num(t, p) == it[k]); }
    }
    assert forall|g: Grid, k: int| 0 <= k < n && #[trigger] completes(s, g) && gv(g, p) == #[trigger] it[k] implies exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g by {
        if k == n - 1 {
            assert(completes(u, g));
            let t = choose|t: Sudoku| #[trigger] res.contains(t) && t.nums == g;
            let i = choose|i: int| 0 <= i < res.len() && res[i] == t;
            assert(out[i + l] == t);
            assert(out.contains(t));
        } else {
            let t = choose|t: Sudoku| #[trigger] a.contains(t) && t.nums == g;
            let i = choose|i: int| 0 <= i < a.len() && a[i] == t;
            assert(out[i] == t);
            assert(out.contains(t));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies (#[trigger] out[i]).nums != (#[trigger] out[j]).nums by {
        if j < l { assert(a[i] == out[i] && a[j] == out[j]); assert(a[i].nums != a[j].nums); }
        else if i >= l { assert(res[i - l].nums != res[j - l].nums); }
        else {
            assert(a.contains(out[i]));
            let k = choose|k: int| 0 <= k < n - 1 && num(out[i], p) == #[trigger] it[k];
            assert(it[k] != it[n - 1]);
            assert(num(out[i], p) != num(out[j], p));
        }
    }
}
pub proof fn part_comps_all(s: Sudoku, p: (int, int), out: Seq<Sudoku>, it: Seq<int>)
    requires good(s), at(s, p), num(s, p) == 0, part_comps(s, p, out, it, it.len() as int), forall|v: int| #[trigger] it.contains(v) <==> cand(s, p).contains(v),
    ensures lists_comps(s, out),
{
    assert forall|g: Grid| #[trigger] completes(s, g) implies exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g by {
        let v = gv(g, p);
        assert(ingrid(s.bw, s.bh, p));
        assert(1 <= v <= side(s));
        if blocked(s, p, v) {
            let q = choose|q: (int, int)| at(s, q) && #[trigger] peer(s, p, q) && num(s, q) == v;
            assert(num(s, q) != 0);
            assert(gv(g, q) == v);
            assert(peers(s.bw, s.bh, p, q));
        }
        assert(cand(s, p).contains(v));
        assert(it.contains(v));
        let k = choose|k: int| 0 <= k < it.len() && it[k] == v;
        assert(gv(g, p) == it[k]);
    }
}
/// a complete sudoku without conflicts is its only completion
pub proof fn complete_comps(s: Sudoku)
    requires good(s), forall|p: (int, int)| at(s, p) ==> #[trigger] num(s, p) != 0,
    ensures lists_comps(s, seq![s]),
{
    let out = seq![s];
    assert forall|p: (int, int)| ingrid(s.bw, s.bh, p) implies 1 <= #[trigger] gv(s.nums, p) <= s.bw * s.bh by { assert(num(s, p) != 0); }
    assert forall|p: (int, int), q: (int, int)| ingrid(s.bw, s.bh, p) && ingrid(s.bw, s.bh, q) && #[trigger] peers(s.bw, s.bh, p, q) implies gv(s.nums, p) != gv(s.nums, q) by {
        assert(peer(s, p, q));
        assert(num(s, p) != 0);
    }
    assert(completes(s, s.nums));
    assert forall|t: Sudoku| #[trigger] out.contains(t) implies solved_from(s, t) by { assert(out[0] == s); }
    assert forall|g: Grid| #[trigger] completes(s, g) implies exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g by {
        assert forall|p: (int, int)| ingrid(s.bw, s.bh, p) implies #[trigger] gv(g, p) == gv(s.nums, p) by { assert(num(s, p) != 0); }
        grid_ext(s.bw, s.bh, g, s.nums);
        assert(out[0] == s);
        assert(out.contains(s));
    }
}
/// v is placed in p and removed from the first n of the peers it; their candidates are saved
pub open spec fn placing(s: Sudoku, p: (int, int), v: int, u: Sudoku, it: Seq<(int, int)>, n: int) -> bool {
    &&& wf(u) && same_dims(s, u)
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] num(u, q) == (if q == p { v } else { num(s, q) })
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] cand(u, q) == cand(s, q) || (q != p && exists|k: int| 0 <= k < n && #[trigger] it[k] == q)
    &&& forall|k: int, x: int| 0 <= k < n ==> (#[trigger] cand(u, it[k]).contains(x) <==> cand(s, it[k]).contains(x) && x != v)
}
pub open spec fn saves(s: Sudoku, p: (int, int), m: Map<(int, int), Set<int>>, it: Seq<(int, int)>, n: int) -> bool {
    &&& forall|q: (int, int)| #[trigger] m.dom().contains(q) <==> q == p || exists|k: int| 0 <= k < n && #[trigger] it[k] == q
    &&& forall|q: (int, int)| #[trigger] m.dom().contains(q) ==> m[q] == cand(s, q)
}
pub proof fn placing_done(s: Sudoku, p: (int, int), v: int, u: Sudoku, it: Seq<(int, int)>)
    requires wf(s), at(s, p), placing(s, p, v, u, it, it.len() as int), forall|q: (int, int)| #[trigger] it.contains(q) <==> at(s, q) && same_unit(s.bw, s.bh, p, q) && q != p,
    ensures placed(s, p, v, u),
{
    assert forall|q: (int, int), x: int| at(s, q) implies (#[trigger] cand(u, q).contains(x) <==> cand(s, q).contains(x) && !(x == v && peer(s, p, q))) by {
        if it.contains(q) {
            let k = choose|k: int| 0 <= k < it.len() && it[k] == q;
            assert(cand(u, it[k]).contains(x) <==> cand(s, it[k]).contains(x) && x != v);
        } else if cand(u, q) != cand(s, q) {
            let k = choose|k: int| 0 <= k < it.len() && #[trigger] it[k] == q;
            assert(it.contains(q));
        }
    }
}
/// the saved candidates of the first n fields of it are back
pub open spec fn restoring(s: Sudoku, p: (int, int), v: int, u: Sudoku, it: Seq<((int, int), Set<int>)>, n: int) -> bool {
    &&& wf(u) && same_dims(s, u)
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] num(u, q) == (if q == p { v } else { num(s, q) })
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] cand(u, q) == cand(s, q) || exists|k: int| n <= k < it.len() && (#[trigger] it[k]).0 == q
}

pub proof fn placing_next(s: Sudoku, p: (int, int), v: int, u: Sudoku, it: Seq<(int, int)>, n: int, x: Set<int>)
    requires wf(s), at(s, p), placing(s, p, v, u, it, n), 0 <= n < it.len(), at(s, it[n]), it[n] != p, it.no_duplicates(), forall|k: int| 0 <= k < it.len() ==> at(s, #[trigger] it[k]),
        x == cand(u, it[n]).difference(set![v]),
    ensures placing(s, p, v, set_cand(u, it[n], x), it, n + 1), cand(u, it[n]) == cand(s, it[n]), cand(u, p) == cand(s, p),
{
    let t = set_cand(u, it[n], x);
    set_cand_facts(u, it[n], x);
    assert forall|k: int, y: int| 0 <= k < n + 1 implies (#[trigger] cand(t, it[k]).contains(y) <==> cand(s, it[k]).contains(y) && y != v) by {
        if k < n { assert(it[k] != it[n]); assert(at(s, it[k])); assert(cand(u, it[k]).contains(y) <==> cand(s, it[k]).contains(y) && y != v); }
    }
    assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(t, q) == cand(s, q) || (q != p && exists|k: int| 0 <= k < n + 1 && #[trigger] it[k] == q) by {
        if q != it[n] { assert(cand(u, q) == cand(t, q)); }
    }
}
pub proof fn restoring_next(s: Sudoku, p: (int, int), v: int, u: Sudoku, it: Seq<((int, int), Set<int>)>, n: int)
    requires wf(s), restoring(s, p, v, u, it, n), 0 <= n < it.len(), at(s, it[n].0), it[n].1 == cand(s, it[n].0),
    ensures restoring(s, p, v, set_cand(u, it[n].0, it[n].1), it, n + 1),
{
    let t = set_cand(u, it[n].0, it[n].1);
    set_cand_facts(u, it[n].0, it[n].1);
    assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(t, q) == cand(s, q) || exists|k: int| n + 1 <= k < it.len() && (#[trigger] it[k]).0 == q by {
        if q != it[n].0 { assert(cand(u, q) == cand(t, q)); }
    }
}
/// before the loop that restores: everything changed is listed
pub proof fn restoring_none(s: Sudoku, p: (int, int), v: int, u: Sudoku, m: Map<(int, int), Set<int>>, it1: Seq<(int, int)>, it: Seq<((int, int), Set<int>)>)
    requires wf(s), at(s, p), placing(s, p, v, u, it1, it1.len() as int), saves(s, p, m, it1, it1.len() as int),
        forall|k: int| 0 <= k < it1.len() ==> at(s, #[trigger] it1[k]), forall|x: ((int, int), Set<int>)| #[trigger] it.contains(x) <==> m.dom().contains(x.0) && x.1 == m[x.0],
    ensures restoring(s, p, v, u, it, 0), forall|k: int| 0 <= k < it.len() ==> at(s, (#[trigger] it[k]).0) && it[k].1 == cand(s, it[k].0),
{
    assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(u, q) == cand(s, q) || exists|k: int| 0 <= k < it.len() && (#[trigger] it[k]).0 == q by {
        if cand(u, q) != cand(s, q) {
            assert(m.dom().contains(q));
            assert(it.contains((q, m[q])));
            let k = choose|k: int| 0 <= k < it.len() && it[k] == (q, m[q]);
            assert(it[k].0 == q);
        }
    }
    assert forall|k: int| 0 <= k < it.len() implies at(s, (#[trigger] it[k]).0) && it[k].1 == cand(s, it[k].0) by {
        assert(it.contains(it[k]));
        let q = it[k].0;
        if q != p { let j = choose|j: int| 0 <= j < it1.len() && #[trigger] it1[j] == q; assert(at(s, it1[j])); }
    }
}
pub proof fn restored(s: Sudoku, p: (int, int), v: int, u: Sudoku, it: Seq<((int, int), Set<int>)>)
    requires wf(s), at(s, p), num(s, p) == 0, restoring(s, p, v, u, it, it.len() as int),
    ensures set_num(u, p, 0) == s,
{
    set_num_facts(u, p, 0);
    sud_ext(set_num(u, p, 0), s);
}

pub proof fn clash_none(s: Sudoku, p: (int, int), q: (int, int))
    requires at(s, p), at(s, q), peer(s, p, q),
    ensures num(s, p) != 0 && num(s, p) == num(s, q) ==> lists_comps(s, Seq::empty()),
{
    assert forall|g: Grid| num(s, p) != 0 && num(s, p) == num(s, q) implies !#[trigger] completes(s, g) by {
        if completes(s, g) { assert(gv(g, p) == num(s, p) && gv(g, q) == num(s, q)); assert(peers(s.bw, s.bh, p, q)); }
    }
}
/// the numbers of a conflict-free sudoku with computed candidates are a starting point
pub proof fn start_good(s: Sudoku, u: Sudoku)
    requires wf(s), filled_ok(s), conflict_free(s), wf(u), same_dims(s, u), same_nums(s, u), forall|q: (int, int)| at(u, q) ==> #[trigger] cand(u, q) == calc(u, q),
    ensures good(u),
{
    broadcast use calc_contains;
    assert forall|p: (int, int)| at(u, p) && #[trigger] num(u, p) != 0 implies 1 <= num(u, p) <= side(u) by { assert(num(s, p) == num(u, p)); }
    assert forall|p: (int, int), q: (int, int)| at(u, p) && at(u, q) && #[trigger] peer(u, p, q) implies num(u, p) == 0 || num(u, p) != num(u, q) by {
        assert(peer(s, p, q));
        assert(num(s, p) == num(u, p) && num(s, q) == num(u, q));
    }
    assert forall|p: (int, int), v: int| at(u, p) && num(u, p) == 0 implies (#[trigger] cand(u, p).contains(v) <==> 1 <= v <= side(u) && !blocked(u, p, v)) by { assert(cand(u, p) == calc(u, p)); }
}

pub proof fn conflict_none(s: Sudoku)
    requires !conflict_free(s),
    ensures lists_comps(s, Seq::empty()),
{
    let (p, q) = choose|p: (int, int), q: (int, int)| at(s, p) && at(s, q) && #[trigger] peer(s, p, q) && !(num(s, p) == 0 || num(s, p) != num(s, q));
    clash_none(s, p, q);
}
/// a copy has the same completions
pub proof fn copy_completes(s: Sudoku, c: Sudoku)
    requires wf(s), filled_ok(s), wf(c), same_dims(s, c), same_nums(s, c),
    ensures filled_ok(c), forall|g: Grid| #[trigger] completes(c, g) == completes(s, g),
        forall|t: Sudoku| solved_from(c, t) ==> #[trigger] solved_from(s, t), no_completion(c) == no_completion(s),
{
    assert forall|g: Grid| #[trigger] completes(c, g) == completes(s, g) by {
        if completes(s, g) {
            assert forall|p: (int, int)| at(c, p) && #[trigger] num(c, p) != 0 implies gv(g, p) == num(c, p) by { assert(num(s, p) == num(c, p)); }
        }
        if completes(c, g) {
            assert forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 implies gv(g, p) == num(s, p) by { assert(num(s, p) == num(c, p)); }
        }
    }
    assert forall|p: (int, int)| at(c, p) && #[trigger] num(c, p) != 0 implies 1 <= num(c, p) <= side(c) by { assert(num(s, p) == num(c, p)); }
    if no_completion(s) { assert forall|g: Grid| !#[trigger] completes(c, g) by { assert(completes(c, g) == completes(s, g)); } }
    if no_completion(c) { assert forall|g: Grid| !#[trigger] completes(s, g) by { assert(completes(c, g) == completes(s, g)); } }
}
