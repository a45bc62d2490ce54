// needs: comps
// Generated sudokus: filled fields, symmetry.
use vstd::arithmetic::mul::*;

/// number of the symmetry, -1: no such name
pub open spec fn sym_kind(s: Option<Seq<char>>) -> int {
    if s == None::<Seq<char>> { 0 }
    else if s == Some(seq!['r', 'o', 't', 'a', 't', 'e', '-', '9', '0']) { 1 }
    else if s == Some(seq!['r', 'o', 't', 'a', 't', 'e', '-', '1', '8', '0']) { 2 }
    else if s == Some(seq!['m', 'i', 'r', 'r', 'o', 'r', '-', 'x']) { 3 }
    else if s == Some(seq!['m', 'i', 'r', 'r', 'o', 'r', '-', 'y']) { 4 }
    else if s == Some(seq!['m', 'i', 'r', 'r', 'o', 'r', '-', 'x', 'y']) { 5 }
    else { -1 }
}
/// symmetric k: q is an image of p
pub open spec fn orbit(n: int, k: int, p: (int, int), q: (int, int)) -> bool {
    let turn = (n - 1 - p.1, p.0);
    let half = (n - 1 - p.0, n - 1 - p.1);
    let back = (p.1, n - 1 - p.0);
    let down = (n - 1 - p.0, p.1);
    let right = (p.0, n - 1 - p.1);
    q == p || (k == 1 && (q == turn || q == half || q == back)) || (k == 2 && q == half) || (k == 3 && q == down) || (k == 4 && q == right)
        || (k == 5 && (q == down || q == right || q == half))
}
pub broadcast proof fn orbit_equiv(n: int, k: int, p: (int, int), q: (int, int), r: (int, int))
    ensures #[trigger] orbit(n, k, p, q) && #[trigger] orbit(n, k, q, r) ==> orbit(n, k, p, r), orbit(n, k, p, q) ==> orbit(n, k, q, p),
{ }
pub open spec fn symmetric(s: Sudoku, k: int) -> bool {
    forall|p: (int, int), q: (int, int)| at(s, p) && #[trigger] orbit(side(s), k, p, q) ==> (num(s, p) != 0 <==> num(s, q) != 0)
}
/// s shows some of the numbers of the complete grid g
pub open spec fn clues_of(s: Sudoku, g: Sudoku) -> bool {
    forall|q: (int, int)| at(g, q) ==> (#[trigger] num(s, q) == 0 || num(s, q) == num(g, q))
}
pub proof fn full_unique(s: Sudoku, t: Sudoku)
    requires wf(s), wf(t), same_dims(s, t), same_nums(s, t), valid(s.bw, s.bh, s.nums),
    ensures unique(t), forall|q: (int, int)| at(t, q) ==> #[trigger] num(t, q) != 0 && num(s, q) == num(t, q), clues_of(t, s),
{
    nums_ext(s, t);
    assert forall|q: (int, int)| at(s, q) implies #[trigger] num(s, q) != 0 by { assert(gv(s.nums, q) == num(s, q)); }
    assert forall|q: (int, int)| at(t, q) implies #[trigger] num(t, q) != 0 && num(s, q) == num(t, q) by { assert(num(s, q) != 0); }
    assert(completes(t, t.nums)) by { assert forall|p: (int, int)| at(t, p) && num(t, p) != 0 implies num(t, p) == gv(t.nums, p) by { } }
    assert forall|g: Grid, h: Grid| #[trigger] completes(t, g) && #[trigger] completes(t, h) implies g == h by {
        assert forall|p: (int, int)| ingrid(t.bw, t.bh, p) implies #[trigger] gv(g, p) == gv(h, p) by { assert(num(s, p) != 0 && num(t, p) == num(s, p)); }
        grid_ext(t.bw, t.bh, g, h);
    }
}
pub open spec fn nfilled(s: Sudoku) -> int { filled_fields(s).len() as int }
pub proof fn all_filled(s: Sudoku)
    requires wf(s), forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) != 0,
    ensures nfilled(s) == fields(side(s)).len(),
{
    broadcast use {prelude_facts, sud_facts};
    assert(filled_fields(s) =~= fields(side(s)).to_set());
    fields(side(s)).unique_seq_to_set();
}
pub proof fn area(w: int, h: int)
    ensures (w * w) * (h * h) == (w * h) * (w * h),
{
    lemma_mul_is_associative(w * w, h, h);
    lemma_mul_is_associative(w, w, h);
    lemma_mul_is_commutative(w, w * h);
    lemma_mul_is_associative(w * h, w, h);
}
/// writing one field changes the number of filled fields accordingly
pub broadcast proof fn write_filled(s: Sudoku, p: (int, int), v: int)
    requires wf(s), at(s, p),
    ensures nfilled(#[trigger] set_num(s, p, v)) == nfilled(s) + (if v != 0 { 1int } else { 0 }) - (if num(s, p) != 0 { 1int } else { 0 }),
{
    broadcast use {prelude_facts, sud_facts};
    let t = set_num(s, p, v);
    assert(num(t, p) == v);
    let a = filled_fields(s);
    let b = filled_fields(t);
    assert forall|q: (int, int)| q != p implies (#[trigger] a.contains(q) <==> b.contains(q)) by { if at(s, q) { assert(num(t, q) == num(s, q)); } }
    if v != 0 { assert(b =~= a.insert(p)); } else { assert(b =~= a.remove(p)); }
}
pub open spec fn among<T>(it: Seq<T>, n: int, x: T) -> bool { exists|k: int| 0 <= k < n && #[trigger] it[k] == x }
pub broadcast proof fn among_all<T>(it: Seq<T>, x: T)
    ensures #[trigger] among(it, it.len() as int, x) <==> it.contains(x),
{ }
pub proof fn among_next<T>(it: Seq<T>, n: int)
    requires 0 <= n < it.len(), it.no_duplicates(),
    ensures forall|x: T| #[trigger] among(it, n + 1, x) <==> among(it, n, x) || x == it[n], !among(it, n, it[n]),
{
    assert forall|x: T| #[trigger] among(it, n + 1, x) <==> among(it, n, x) || x == it[n] by {
        if among(it, n + 1, x) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] it[k] == x; if k < n { assert(among(it, n, x)); } }
        if x == it[n] { assert(among(it, n + 1, x)); }
        if among(it, n, x) { let k = choose|k: int| 0 <= k < n && #[trigger] it[k] == x; assert(0 <= k < n + 1 && it[k] == x); }
    }
}
/// the first n fields of it are erased
pub open spec fn erased(a: Sudoku, b: Sudoku, it: Seq<(int, int)>, n: int) -> bool {
    wf(b) && same_dims(a, b) && forall|q: (int, int)| at(a, q) ==> #[trigger] num(b, q) == (if among(it, n, q) { 0 } else { num(a, q) })
}
/// of the erased fields the first n are restored
pub open spec fn refilled(a: Sudoku, b: Sudoku, it: Seq<(int, int)>, n: int) -> bool {
    wf(b) && same_dims(a, b) && forall|q: (int, int)| at(a, q) ==> #[trigger] num(b, q) == (if it.contains(q) && !among(it, n, q) { 0 } else { num(a, q) })
}
/// coords: remaining fields, a union of orbits, all of them filled
pub open spec fn remaining(s: Sudoku, k: int, coords: Seq<(int, int)>) -> bool {
    &&& coords.no_duplicates()
    &&& forall|p: (int, int)| #[trigger] coords.contains(p) ==> at(s, p) && num(s, p) != 0
    &&& forall|p: (int, int), q: (int, int)| coords.contains(p) && #[trigger] orbit(side(s), k, p, q) ==> coords.contains(q)
}
pub open spec fn is_orbit(n: int, k: int, it: Seq<(int, int)>) -> bool {
    &&& it.len() > 0 && it.no_duplicates()
    &&& forall|q: (int, int)| #[trigger] it.contains(q) <==> orbit(n, k, it[0], q)
}
pub open spec fn removing(s: Sudoku, k: int, coords: Seq<(int, int)>, it: Seq<(int, int)>, n: int) -> bool {
    &&& coords.no_duplicates()
    &&& forall|p: (int, int)| #[trigger] coords.contains(p) ==> at(s, p) && num(s, p) != 0 && !among(it, n, p)
    &&& forall|i: int| n <= i < it.len() ==> coords.contains(#[trigger] it[i])
    &&& forall|p: (int, int), q: (int, int)| coords.contains(p) && #[trigger] orbit(side(s), k, p, q) ==> coords.contains(q) || it.contains(q)
}
pub open spec fn full_fields(s: Sudoku, it: Seq<(int, int)>) -> bool {
    forall|i: int| 0 <= i < it.len() ==> at(s, #[trigger] it[i]) && num(s, it[i]) != 0
}
pub proof fn removing_none(s: Sudoku, k: int, coords: Seq<(int, int)>, it: Seq<(int, int)>, p: (int, int))
    requires remaining(s, k, coords), is_orbit(side(s), k, it), coords.contains(p), it.contains(p),
    ensures removing(s, k, coords, it, 0), full_fields(s, it),
{
    broadcast use orbit_equiv;
    assert(orbit(side(s), k, it[0], p));
    assert(orbit(side(s), k, p, it[0]));
    assert forall|i: int| 0 <= i < it.len() implies coords.contains(#[trigger] it[i]) by { assert(it.contains(it[i])); }
}
pub proof fn removing_next(s: Sudoku, k: int, coords: Seq<(int, int)>, it: Seq<(int, int)>, n: int)
    requires removing(s, k, coords, it, n), it.no_duplicates(), 0 <= n < it.len(),
    ensures coords.contains(it[n]), removing(s, k, remove_first(coords, it[n]), it, n + 1),
{
    broadcast use remove_first_nodup;
    among_next(it, n);
    let c = remove_first(coords, it[n]);
    assert(coords.contains(it[n]));
    assert forall|i: int| n + 1 <= i < it.len() implies c.contains(#[trigger] it[i]) by { assert(coords.contains(it[i]) && it[i] != it[n]); }
    assert(it.contains(it[n]));
}
pub proof fn removing_done(s: Sudoku, k: int, coords: Seq<(int, int)>, it: Seq<(int, int)>)
    requires removing(s, k, coords, it, it.len() as int), is_orbit(side(s), k, it),
    ensures remaining(s, k, coords), forall|p: (int, int)| #[trigger] coords.contains(p) ==> !it.contains(p),
{
    broadcast use {among_all, orbit_equiv};
    assert forall|p: (int, int), q: (int, int)| coords.contains(p) && #[trigger] orbit(side(s), k, p, q) implies coords.contains(q) by {
        assert(!it.contains(p)) by { if it.contains(p) { assert(among(it, it.len() as int, p)); } }
        if it.contains(q) { assert(orbit(side(s), k, it[0], q)); assert(orbit(side(s), k, q, p)); assert(orbit(side(s), k, it[0], p)); }
    }
}
pub proof fn orbit_of(n: int, k: int, p: (int, int), it: Seq<(int, int)>)
    requires it.no_duplicates(), forall|q: (int, int)| #[trigger] it.contains(q) <==> orbit(n, k, p, q),
    ensures is_orbit(n, k, it),
{
    broadcast use orbit_equiv;
    assert(orbit(n, k, p, p));
    assert(it.contains(p));
    assert(it.contains(it[0]));
    assert(orbit(n, k, p, it[0]));
    assert forall|q: (int, int)| #[trigger] it.contains(q) <==> orbit(n, k, it[0], q) by {
        if it.contains(q) { assert(orbit(n, k, p, q)); assert(orbit(n, k, it[0], p)); }
        if orbit(n, k, it[0], q) { assert(orbit(n, k, p, q)); }
    }
}
pub proof fn same_orbit(n: int, k: int, a: Seq<(int, int)>, b: Seq<(int, int)>)
    requires is_orbit(n, k, a), b.no_duplicates(), forall|q: (int, int)| #[trigger] b.contains(q) <==> a.contains(q),
    ensures is_orbit(n, k, b), b.len() == a.len(),
{
    orbit_of(n, k, a[0], b);
    a.unique_seq_to_set();
    b.unique_seq_to_set();
    assert(a.to_set() =~= b.to_set());
}
pub proof fn erased_none(a: Sudoku, it: Seq<(int, int)>)
    requires wf(a), ensures erased(a, a, it, 0),
{ }
pub proof fn erased_next(a: Sudoku, b: Sudoku, it: Seq<(int, int)>, n: int)
    requires erased(a, b, it, n), wf(a), it.no_duplicates(), 0 <= n < it.len(), at(a, it[n]),
    ensures erased(a, set_num(b, it[n], 0), it, n + 1), num(b, it[n]) == num(a, it[n]),
{
    broadcast use sud_facts;
    among_next(it, n);
    let c = set_num(b, it[n], 0);
    assert forall|q: (int, int)| at(a, q) implies #[trigger] num(c, q) == (if among(it, n + 1, q) { 0 } else { num(a, q) }) by {
        assert(num(b, q) == (if among(it, n, q) { 0 } else { num(a, q) }));
    }
}
pub proof fn erased_done(a: Sudoku, b: Sudoku, it: Seq<(int, int)>, k: int, coords: Seq<(int, int)>, g: Sudoku)
    requires erased(a, b, it, it.len() as int), is_orbit(side(a), k, it), symmetric(a, k), remaining(a, k, coords), clues_of(a, g), same_dims(a, g),
        forall|p: (int, int)| #[trigger] coords.contains(p) ==> !it.contains(p), forall|i: int| 0 <= i < it.len() ==> at(a, #[trigger] it[i]),
    ensures symmetric(b, k), remaining(b, k, coords), clues_of(b, g),
{
    broadcast use {among_all, orbit_equiv};
    let n = side(a);
    assert forall|q: (int, int)| at(a, q) implies #[trigger] num(b, q) == (if it.contains(q) { 0 } else { num(a, q) }) by { assert(among(it, it.len() as int, q) <==> it.contains(q)); }
    assert forall|p: (int, int), q: (int, int)| at(b, p) && #[trigger] orbit(side(b), k, p, q) implies (num(b, p) != 0 <==> num(b, q) != 0) by {
        assert(at(a, q));
        assert(it.contains(p) <==> it.contains(q)) by {
            assert(orbit(n, k, p, q) && orbit(n, k, q, p));
            if it.contains(p) { assert(orbit(n, k, it[0], p)); assert(orbit(n, k, it[0], q)); }
            if it.contains(q) { assert(orbit(n, k, it[0], q)); assert(orbit(n, k, it[0], p)); }
        }
    }
    assert forall|p: (int, int)| #[trigger] coords.contains(p) implies at(b, p) && num(b, p) != 0 by { assert(!it.contains(p)); }
}
pub proof fn refilled_none(a: Sudoku, b: Sudoku, it2: Seq<(int, int)>, it3: Seq<(int, int)>)
    requires erased(a, b, it2, it2.len() as int), forall|q: (int, int)| #[trigger] it3.contains(q) <==> it2.contains(q),
    ensures refilled(a, b, it3, 0),
{
    broadcast use among_all;
    assert forall|q: (int, int)| at(a, q) implies #[trigger] num(b, q) == (if it3.contains(q) && !among(it3, 0, q) { 0 } else { num(a, q) }) by {
        assert(among(it2, it2.len() as int, q) <==> it2.contains(q));
        assert(it3.contains(q) <==> it2.contains(q));
    }
}
pub proof fn refilled_next(a: Sudoku, b: Sudoku, it: Seq<(int, int)>, n: int)
    requires refilled(a, b, it, n), wf(a), it.no_duplicates(), 0 <= n < it.len(), at(a, it[n]),
    ensures refilled(a, set_num(b, it[n], num(a, it[n])), it, n + 1), num(b, it[n]) == 0,
{
    broadcast use sud_facts;
    among_next(it, n);
    assert(it.contains(it[n]));
    let c = set_num(b, it[n], num(a, it[n]));
    assert forall|q: (int, int)| at(a, q) implies #[trigger] num(c, q) == (if it.contains(q) && !among(it, n + 1, q) { 0 } else { num(a, q) }) by {
        assert(num(b, q) == (if it.contains(q) && !among(it, n, q) { 0 } else { num(a, q) }));
    }
}
pub proof fn refilled_done(a: Sudoku, b: Sudoku, it: Seq<(int, int)>)
    requires refilled(a, b, it, it.len() as int), wf(a), unique(a),
    ensures unique(b), a.nums == b.nums,
{
    broadcast use among_all;
    assert(same_nums(a, b)) by { assert forall|q: (int, int)| at(a, q) implies #[trigger] num(a, q) == num(b, q) by { assert(among(it, it.len() as int, q) <==> it.contains(q)); } }
    nums_ext(a, b);
    same_comps(a, b);
    let g = choose|g: Grid| #[trigger] completes(a, g);
    assert(completes(b, g));
    assert forall|g: Grid, h: Grid| #[trigger] completes(b, g) && #[trigger] completes(b, h) implies g == h by { assert(completes(a, g) && completes(a, h)); }
}
pub proof fn same_full(s: Sudoku, a: Seq<(int, int)>, b: Seq<(int, int)>)
    requires full_fields(s, a), forall|q: (int, int)| #[trigger] b.contains(q) <==> a.contains(q),
    ensures full_fields(s, b),
{
    assert forall|i: int| 0 <= i < b.len() implies at(s, #[trigger] b[i]) && num(s, b[i]) != 0 by {
        assert(b.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(at(s, a[j]));
    }
}
/// the first n fields of it are erased where the template is empty
pub open spec fn patterned(t: Sudoku, s: Sudoku, it: Seq<(int, int)>, n: int) -> bool {
    wf(s) && same_dims(t, s) && forall|q: (int, int)| at(t, q) ==> (#[trigger] num(s, q) == 0 <==> among(it, n, q) && num(t, q) == 0)
}
pub proof fn patterned_none(t: Sudoku, s: Sudoku, it: Seq<(int, int)>)
    requires wf(s), same_dims(t, s), forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) != 0,
    ensures patterned(t, s, it, 0),
{ }
pub proof fn patterned_next(t: Sudoku, s: Sudoku, it: Seq<(int, int)>, n: int)
    requires patterned(t, s, it, n), it.no_duplicates(), 0 <= n < it.len(), at(t, it[n]),
    ensures num(t, it[n]) == 0 ==> patterned(t, set_num(s, it[n], 0), it, n + 1), num(t, it[n]) != 0 ==> patterned(t, s, it, n + 1),
{
    broadcast use sud_facts;
    among_next(it, n);
    let c = set_num(s, it[n], 0);
    assert forall|q: (int, int)| at(t, q) && num(t, it[n]) == 0 implies (#[trigger] num(c, q) == 0 <==> among(it, n + 1, q) && num(t, q) == 0) by {
        assert(num(s, q) == 0 <==> among(it, n, q) && num(t, q) == 0);
    }
}
pub proof fn patterned_done(t: Sudoku, s: Sudoku, it: Seq<(int, int)>)
    requires patterned(t, s, it, it.len() as int), forall|q: (int, int)| at(t, q) && num(t, q) == 0 ==> #[trigger] it.contains(q),
    ensures forall|q: (int, int)| at(t, q) ==> (#[trigger] num(s, q) != 0 <==> num(t, q) != 0),
{
    broadcast use {among_all, fields_contains};
    assert forall|q: (int, int)| at(t, q) implies (#[trigger] num(s, q) != 0 <==> num(t, q) != 0) by { assert(among(it, it.len() as int, q) <==> it.contains(q)); }
}
