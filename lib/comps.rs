// needs: geom
// needs: sud
// needs: solving
// Completions of a sudoku.
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub type Grid = Seq<Seq<int>>;
pub open spec fn gv(g: Grid, p: (int, int)) -> int { g[p.0][p.1] }
pub open spec fn grid_of(w: int, h: int, g: Grid) -> bool {
    g.len() == w * h && forall|r: int| 0 <= r < w * h ==> (#[trigger] g[r]).len() == w * h
}
/// a complete grid without conflicts
pub open spec fn valid(w: int, h: int, g: Grid) -> bool {
    &&& grid_of(w, h, g)
    &&& forall|p: (int, int)| ingrid(w, h, p) ==> 1 <= #[trigger] gv(g, p) <= w * h
    &&& forall|p: (int, int), q: (int, int)| ingrid(w, h, p) && ingrid(w, h, q) && #[trigger] peers(w, h, p, q) ==> gv(g, p) != gv(g, q)
}
pub open spec fn agrees(s: Sudoku, g: Grid) -> bool {
    forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 ==> gv(g, p) == num(s, p)
}
pub open spec fn completes(s: Sudoku, g: Grid) -> bool { valid(s.bw, s.bh, g) && agrees(s, g) }
pub open spec fn solved_from(s: Sudoku, t: Sudoku) -> bool { wf(t) && same_dims(s, t) && completes(s, t.nums) }
/// out lists every completion of s exactly once
pub open spec fn lists_comps(s: Sudoku, out: Seq<Sudoku>) -> bool {
    &&& forall|t: Sudoku| #[trigger] out.contains(t) ==> solved_from(s, t)
    &&& forall|g: Grid| #[trigger] completes(s, g) ==> exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g
    &&& forall|a: int, b: int| 0 <= a < b < out.len() ==> (#[trigger] out[a]).nums != (#[trigger] out[b]).nums
}
pub proof fn grid_ext(w: int, h: int, a: Grid, b: Grid)
    requires grid_of(w, h, a), grid_of(w, h, b), forall|p: (int, int)| ingrid(w, h, p) ==> #[trigger] gv(a, p) == gv(b, p),
    ensures a == b,
{
    assert forall|r: int| 0 <= r < w * h implies a[r] == b[r] by {
        assert forall|c: int| 0 <= c < w * h implies a[r][c] == b[r][c] by { assert(gv(a, (r, c)) == gv(b, (r, c))); }
        assert(a[r] =~= b[r]);
    }
    assert(a =~= b);
}
/// n different values among 1..n are all of them
pub proof fn pigeonhole(n: int, f: spec_fn(int) -> int, v: int)
    requires n >= 1, 1 <= v <= n, forall|k: int| 0 <= k < n ==> 1 <= #[trigger] f(k) <= n,
        forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] f(a) != #[trigger] f(b),
    ensures exists|k: int| 0 <= k < n && #[trigger] f(k) == v,
{
    let s = Seq::new(n as nat, f);
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            assert(s[i] == f(i) && s[j] == f(j));
            if i < j { assert(f(i) != f(j)); } else { assert(f(j) != f(i)); }
        }
    }
    s.unique_seq_to_set();
    s.to_set_ensures();
    vstd::set_lib::lemma_int_range(1, n + 1);
    let all = vstd::set_lib::set_int_range(1, n + 1);
    assert(s.to_set().subset_of(all)) by {
        assert forall|x: int| s.to_set().contains(x) implies all.contains(x) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            assert(s[i] == f(i));
        }
    }
    vstd::set_lib::lemma_subset_equality(s.to_set(), all);
    assert(s.to_set().contains(v));
    let k = choose|k: int| 0 <= k < s.len() && s[k] == v;
    assert(f(k) == v);
}
/// field k of row r, of column c, of the box with number b
pub open spec fn unit_cell(w: int, h: int, kind: int, u: int, k: int) -> (int, int) {
    if kind == 0 { (u, k) } else if kind == 1 { (k, u) } else { ((u / h) * h + k / w, (u % h) * w + k % w) }
}
pub open spec fn in_unit(w: int, h: int, kind: int, u: int, p: (int, int)) -> bool {
    if kind == 0 { p.0 == u } else if kind == 1 { p.1 == u } else { box_no(w, h, p) == u }
}
pub proof fn unit_cells(w: int, h: int, kind: int, u: int)
    requires dims(w, h), 0 <= kind < 3, 0 <= u < w * h,
    ensures
        forall|k: int| 0 <= k < w * h ==> ingrid(w, h, #[trigger] unit_cell(w, h, kind, u, k)) && in_unit(w, h, kind, u, unit_cell(w, h, kind, u, k)),
        forall|a: int, b: int| 0 <= a < b < w * h ==> #[trigger] unit_cell(w, h, kind, u, a) != #[trigger] unit_cell(w, h, kind, u, b),
{
    if kind == 2 {
        block(u, h);
        block_inside(u, w, h);
        lemma_mul_is_commutative(w, h);
        assert forall|k: int| 0 <= k < w * h implies ingrid(w, h, #[trigger] unit_cell(w, h, kind, u, k)) && in_unit(w, h, kind, u, unit_cell(w, h, kind, u, k)) by {
            block(k, w);
            block_inside(k, h, w);
            let p = unit_cell(w, h, kind, u, k);
            div_of(p.0, h, u / h, k / w);
            div_of(p.1, w, u % h, k % w);
            lemma_mul_inequality(u / h, w - 1, h);
            lemma_mul_is_distributive_sub_other_way(h, w, 1);
            lemma_mul_inequality(u % h, h - 1, w);
            lemma_mul_is_distributive_sub_other_way(w, h, 1);
            lemma_mul_nonnegative(u / h, h);
            lemma_mul_nonnegative(u % h, w);
        }
        assert forall|a: int, b: int| 0 <= a < b < w * h implies #[trigger] unit_cell(w, h, kind, u, a) != #[trigger] unit_cell(w, h, kind, u, b) by {
            block(a, w);
            block(b, w);
        }
    }
}
/// fields of one unit see each other
pub proof fn unit_peers(w: int, h: int, kind: int, u: int, p: (int, int), q: (int, int))
    requires dims(w, h), 0 <= kind < 3, ingrid(w, h, p), ingrid(w, h, q), in_unit(w, h, kind, u, p), in_unit(w, h, kind, u, q), p != q,
    ensures peers(w, h, p, q),
{ box_no_facts(w, h); }
/// every value occurs in every unit of a valid grid
pub proof fn unit_has(w: int, h: int, kind: int, u: int, g: Grid, v: int) -> (p: (int, int))
    requires dims(w, h), 0 <= kind < 3, 0 <= u < w * h, valid(w, h, g), 1 <= v <= w * h,
    ensures ingrid(w, h, p), in_unit(w, h, kind, u, p), gv(g, p) == v,
{
    unit_cells(w, h, kind, u);
    dims_pos(w, h);
    let f = |k: int| gv(g, unit_cell(w, h, kind, u, k));
    assert forall|k: int| 0 <= k < w * h implies 1 <= #[trigger] f(k) <= w * h by { assert(ingrid(w, h, unit_cell(w, h, kind, u, k))); }
    assert forall|a: int, b: int| 0 <= a < b < w * h implies #[trigger] f(a) != #[trigger] f(b) by {
        let p = unit_cell(w, h, kind, u, a);
        let q = unit_cell(w, h, kind, u, b);
        assert(p != q);
        unit_peers(w, h, kind, u, p, q);
        assert(peers(w, h, p, q));
    }
    pigeonhole(w * h, f, v);
    let k = choose|k: int| 0 <= k < w * h && #[trigger] f(k) == v;
    unit_cell(w, h, kind, u, k)
}

/// the first n sudokus of it have been copied to out
pub open spec fn copies(it: Seq<Sudoku>, out: Seq<Sudoku>, n: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> wf(#[trigger] out[i]) && same_dims(it[i], out[i]) && same_nums(it[i], out[i])
}
pub proof fn nums_ext(a: Sudoku, b: Sudoku)
    requires wf(a), wf(b), same_dims(a, b), same_nums(a, b),
    ensures a.nums == b.nums,
{
    assert forall|p: (int, int)| ingrid(a.bw, a.bh, p) implies #[trigger] gv(a.nums, p) == gv(b.nums, p) by { assert(num(a, p) == num(b, p)); }
    grid_ext(a.bw, a.bh, a.nums, b.nums);
}
pub proof fn same_comps(a: Sudoku, b: Sudoku)
    requires wf(a), wf(b), same_dims(a, b), same_nums(a, b),
    ensures forall|out: Seq<Sudoku>| #[trigger] lists_comps(a, out) <==> lists_comps(b, out),
        forall|g: Grid| #[trigger] completes(a, g) <==> completes(b, g),
{
    nums_ext(a, b);
    assert forall|g: Grid| #[trigger] completes(a, g) <==> completes(b, g) by {
        assert forall|p: (int, int)| at(a, p) implies num(a, p) == num(b, p) by { }
        if agrees(a, g) { assert(agrees(b, g)); }
        if agrees(b, g) { assert(agrees(a, g)); }
    }
    assert forall|out: Seq<Sudoku>| #[trigger] lists_comps(a, out) <==> lists_comps(b, out) by {
        if lists_comps(a, out) { same_lists(a, b, out); }
        if lists_comps(b, out) { same_lists(b, a, out); }
    }
}
proof fn same_lists(a: Sudoku, b: Sudoku, out: Seq<Sudoku>)
    requires same_dims(a, b), lists_comps(a, out), forall|g: Grid| #[trigger] completes(a, g) <==> completes(b, g),
    ensures lists_comps(b, out),
{
    assert forall|t: Sudoku| #[trigger] out.contains(t) implies solved_from(b, t) by { assert(solved_from(a, t)); assert(completes(a, t.nums)); }
    assert forall|g: Grid| #[trigger] completes(b, g) implies exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g by { assert(completes(a, g)); }
}
pub proof fn lists_wf(s: Sudoku, out: Seq<Sudoku>)
    requires lists_comps(s, out),
    ensures forall|i: int| 0 <= i < out.len() ==> wf(#[trigger] out[i]) && same_dims(s, out[i]),
{
    assert forall|i: int| 0 <= i < out.len() implies wf(#[trigger] out[i]) && same_dims(s, out[i]) by { assert(out.contains(out[i])); assert(solved_from(s, out[i])); }
}
pub proof fn lists_copies(s: Sudoku, it: Seq<Sudoku>, out: Seq<Sudoku>)
    requires lists_comps(s, it), copies(it, out, it.len() as int),
    ensures lists_comps(s, out),
{
    assert forall|i: int| 0 <= i < out.len() implies (#[trigger] out[i]).nums == it[i].nums && solved_from(s, out[i]) by {
        assert(it.contains(it[i]));
        assert(solved_from(s, it[i]));
        nums_ext(it[i], out[i]);
    }
    assert forall|t: Sudoku| #[trigger] out.contains(t) implies solved_from(s, t) by {
        let i = choose|i: int| 0 <= i < out.len() && out[i] == t;
        assert(solved_from(s, out[i]));
    }
    assert forall|g: Grid| #[trigger] completes(s, g) implies exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g by {
        let t = choose|t: Sudoku| #[trigger] it.contains(t) && t.nums == g;
        let i = choose|i: int| 0 <= i < it.len() && it[i] == t;
        assert(out[i].nums == g);
        assert(out.contains(out[i]));
    }
    assert forall|a: int, b: int| 0 <= a < b < out.len() implies (#[trigger] out[a]).nums != (#[trigger] out[b]).nums by {
        assert(out[a].nums == it[a].nums && out[b].nums == it[b].nums);
    }
}
pub open spec fn unique(s: Sudoku) -> bool {
    (exists|g: Grid| #[trigger] completes(s, g)) && forall|g: Grid, h: Grid| #[trigger] completes(s, g) && #[trigger] completes(s, h) ==> g == h
}
pub broadcast proof fn lists_unique(s: Sudoku, out: Seq<Sudoku>)
    ensures #[trigger] lists_comps(s, out) ==> (unique(s) <==> out.len() == 1),
{
    if lists_comps(s, out) {
        if out.len() == 1 {
            assert(out.contains(out[0]));
            assert(solved_from(s, out[0]));
            assert forall|g: Grid, h: Grid| #[trigger] completes(s, g) && #[trigger] completes(s, h) implies g == h by {
                let t = choose|t: Sudoku| #[trigger] out.contains(t) && t.nums == g;
                let u = choose|u: Sudoku| #[trigger] out.contains(u) && u.nums == h;
            }
        }
        if unique(s) {
            let g = choose|g: Grid| #[trigger] completes(s, g);
            let t = choose|t: Sudoku| #[trigger] out.contains(t) && t.nums == g;
            if out.len() > 1 {
                assert(out.contains(out[0]) && out.contains(out[1]));
                assert(completes(s, out[0].nums) && completes(s, out[1].nums));
                assert(out[0].nums != out[1].nums);
            }
        }
    }
}
/// s has no completion
pub open spec fn no_completion(s: Sudoku) -> bool { forall|g: Grid| !#[trigger] completes(s, g) }
pub proof fn has_completion(s: Sudoku, out: Seq<Sudoku>)
    requires lists_comps(s, out),
    ensures out.len() == 0 ==> no_completion(s), out.len() > 0 ==> solved_from(s, out[0]) && !no_completion(s),
{
    if out.len() > 0 {
        assert(out.contains(out[0]));
    } else {
        assert forall|g: Grid| !#[trigger] completes(s, g) by {
            if completes(s, g) { let t = choose|t: Sudoku| #[trigger] out.contains(t) && t.nums == g; assert(out.contains(t)); }
        }
    }
}
