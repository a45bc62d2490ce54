// needs: comps
// Every filled box extends to a complete grid.
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub proof fn shift_differs(x: int, a: int, b: int, n: int)
    requires n >= 1, 0 <= a < n, 0 <= b < n, a != b,
    ensures (x + a) % n != (x + b) % n,
{
    lemma_fundamental_div_mod(x + a, n);
    lemma_fundamental_div_mod(x + b, n);
    if (x + a) % n == (x + b) % n {
        let q1 = (x + a) / n;
        let q2 = (x + b) / n;
        assert(b - a == n * q2 - n * q1);
        lemma_mul_is_distributive_sub(n, q2, q1);
        if q2 > q1 { lemma_mul_inequality(1, q2 - q1, n); lemma_mul_is_commutative(n, q2 - q1); }
        else if q2 < q1 { lemma_mul_inequality(1, q1 - q2, n); lemma_mul_is_commutative(n, q1 - q2); lemma_mul_is_distributive_sub(n, q1, q2); }
    }
}
pub proof fn shift_back(x: int, k: int, n: int)
    requires n >= 1, 0 <= k < n,
    ensures ((x + k) % n - x) % n == k,
{
    lemma_sub_mod_noop(x + k, x, n);
    lemma_sub_mod_noop((x + k) % n, x, n);
    lemma_mod_twice(x + k, n);
    lemma_small_mod(k as nat, n as nat);
}
pub open spec fn base(w: int, h: int, p: (int, int)) -> int { (((p.0 % h) * w + p.0 / h) + p.1) % (w * h) }
pub proof fn base_cell(w: int, h: int, u: int, k: int)
    requires dims(w, h), 0 <= u < w * h, 0 <= k < w * h,
    ensures base(w, h, unit_cell(w, h, 2, u, k)) == ((u / h + (u % h) * w) + k) % (w * h),
{
    lemma_mul_is_commutative(w, h);
    let p = unit_cell(w, h, 2, u, k);
    block(k, w);
    block_inside(k, h, w);
    div_of(p.0, h, u / h, k / w);
    lemma_fundamental_div_mod(k, w);
    lemma_mul_is_commutative(w, k / w);
}
pub proof fn base_differs(w: int, h: int, p: (int, int), q: (int, int))
    requires dims(w, h), ingrid(w, h, p), ingrid(w, h, q), peers(w, h, p, q),
    ensures base(w, h, p) != base(w, h, q),
{
    let n = w * h;
    dims_pos(w, h);
    lemma_mul_is_commutative(w, h);
    let y = (p.0 % h) * w + p.0 / h;
    let z = (q.0 % h) * w + q.0 / h;
    block(p.0, h);
    block(q.0, h);
    block_inside(p.0, w, h);
    block_inside(q.0, w, h);
    lemma_mul_inequality(p.0 % h, h - 1, w);
    lemma_mul_inequality(q.0 % h, h - 1, w);
    lemma_mul_nonnegative(p.0 % h, w);
    lemma_mul_nonnegative(q.0 % h, w);
    lemma_mul_is_distributive_sub_other_way(w, h, 1);
    div_of(y, w, p.0 % h, p.0 / h);
    div_of(z, w, q.0 % h, q.0 / h);
    if p.0 == q.0 {
        shift_differs(y, p.1, q.1, n);
    } else if p.1 == q.1 {
        if y == z { lemma_fundamental_div_mod(p.0, h); lemma_fundamental_div_mod(q.0, h); }
        assert(y != z);
        shift_differs(p.1, y, z, n);
    } else {
        box_no_facts(w, h);
        let u = box_no(w, h, p);
        let a = cell_index(w, h, p);
        let b = cell_index(w, h, q);
        base_cell(w, h, u, a);
        base_cell(w, h, u, b);
        if a == b { assert(p == q); }
        shift_differs(u / h + (u % h) * w, a, b, n);
    }
}
/// p is field number k of its box
pub proof fn cell_index(w: int, h: int, p: (int, int)) -> (k: int)
    requires dims(w, h), ingrid(w, h, p),
    ensures 0 <= k < w * h, unit_cell(w, h, 2, box_no(w, h, p), k) == p,
{
    dims_pos(w, h);
    box_no_facts(w, h);
    block(p.0, h);
    block(p.1, w);
    let k = (p.0 % h) * w + p.1 % w;
    div_of(k, w, p.0 % h, p.1 % w);
    lemma_mul_inequality(p.0 % h, h - 1, w);
    lemma_mul_nonnegative(p.0 % h, w);
    lemma_mul_is_distributive_sub_other_way(w, h, 1);
    lemma_mul_is_commutative(w, h);
    lemma_fundamental_div_mod(p.0, h);
    lemma_fundamental_div_mod(p.1, w);
    lemma_mul_is_commutative(h, p.0 / h);
    lemma_mul_is_commutative(w, p.1 / w);
    k
}
/// exactly the box of p is filled, with different numbers 1..N
pub open spec fn filled_box(s: Sudoku, p: (int, int)) -> bool {
    &&& wf(s) && at(s, p)
    &&& forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 ==> same_box(s.bw, s.bh, p, q)
    &&& forall|q: (int, int)| at(s, q) && same_box(s.bw, s.bh, p, q) ==> 1 <= #[trigger] num(s, q) <= side(s)
    &&& forall|q: (int, int), r: (int, int)| at(s, q) && at(s, r) && q != r && same_box(s.bw, s.bh, p, q) && same_box(s.bw, s.bh, p, r) ==> #[trigger] num(s, q) != #[trigger] num(s, r)
}
pub open spec fn box_index(s: Sudoku, u: int, p: (int, int)) -> int { (base(s.bw, s.bh, p) - (u / s.bh + (u % s.bh) * s.bw)) % side(s) }
pub open spec fn from_box(s: Sudoku, u: int) -> Grid {
    Seq::new(side(s) as nat, |r: int| Seq::new(side(s) as nat, |c: int| num(s, unit_cell(s.bw, s.bh, 2, u, box_index(s, u, (r, c))))))
}
proof fn from_box_val(s: Sudoku, p: (int, int), q: (int, int))
    requires filled_box(s, p), at(s, q),
    ensures ({
        let u = box_no(s.bw, s.bh, p);
        let i = box_index(s, u, q);
        let c = unit_cell(s.bw, s.bh, 2, u, i);
        0 <= u < side(s) && 0 <= i < side(s) && at(s, c) && same_box(s.bw, s.bh, p, c) && gv(from_box(s, u), q) == num(s, c)
    }),
{
    dims_pos(s.bw, s.bh);
    box_no_facts(s.bw, s.bh);
    let u = box_no(s.bw, s.bh, p);
    lemma_mod_bound(base(s.bw, s.bh, q) - (u / s.bh + (u % s.bh) * s.bw), side(s));
    assert(at(s, p));
    unit_cells(s.bw, s.bh, 2, u);
    let c = unit_cell(s.bw, s.bh, 2, u, box_index(s, u, q));
    assert(ingrid(s.bw, s.bh, c) && in_unit(s.bw, s.bh, 2, u, c));
}
proof fn from_box_diff(s: Sudoku, p: (int, int), a: (int, int), b: (int, int))
    requires filled_box(s, p), at(s, a), at(s, b), peers(s.bw, s.bh, a, b),
    ensures gv(from_box(s, box_no(s.bw, s.bh, p)), a) != gv(from_box(s, box_no(s.bw, s.bh, p)), b),
{
    let w = s.bw;
    let h = s.bh;
    let u = box_no(w, h, p);
    let n = side(s);
    from_box_val(s, p, a);
    from_box_val(s, p, b);
    base_differs(w, h, a, b);
    dims_pos(w, h);
    lemma_mod_bound((a.0 % h) * w + a.0 / h + a.1, n);
    lemma_mod_bound((b.0 % h) * w + b.0 / h + b.1, n);
    shift_differs(-(u / h + (u % h) * w), base(w, h, a), base(w, h, b), n);
    let i = box_index(s, u, a);
    let j = box_index(s, u, b);
    unit_cells(w, h, 2, u);
    let c = unit_cell(w, h, 2, u, i);
    let d = unit_cell(w, h, 2, u, j);
    assert(c != d) by { if i < j { assert(c != d); } else { assert(d != c); } }
    assert(num(s, c) != num(s, d));
}
proof fn from_box_agrees(s: Sudoku, p: (int, int), q: (int, int))
    requires filled_box(s, p), at(s, q), num(s, q) != 0,
    ensures gv(from_box(s, box_no(s.bw, s.bh, p)), q) == num(s, q),
{
    let w = s.bw;
    let h = s.bh;
    let u = box_no(w, h, p);
    from_box_val(s, p, q);
    assert(same_box(w, h, p, q));
    box_no_facts(w, h);
    assert(ingrid(w, h, p) && ingrid(w, h, q));
    assert(box_no(w, h, q) == u);
    let k = cell_index(w, h, q);
    base_cell(w, h, u, k);
    dims_pos(w, h);
    shift_back(u / h + (u % h) * w, k, side(s));
}
pub proof fn box_extends(s: Sudoku, p: (int, int))
    requires filled_box(s, p),
    ensures exists|g: Grid| #[trigger] completes(s, g),
{
    let g = from_box(s, box_no(s.bw, s.bh, p));
    assert forall|q: (int, int)| ingrid(s.bw, s.bh, q) implies 1 <= #[trigger] gv(g, q) <= s.bw * s.bh by { from_box_val(s, p, q); }
    assert forall|a: (int, int), b: (int, int)| ingrid(s.bw, s.bh, a) && ingrid(s.bw, s.bh, b) && #[trigger] peers(s.bw, s.bh, a, b) implies gv(g, a) != gv(g, b) by {
        from_box_diff(s, p, a, b);
    }
    assert(grid_of(s.bw, s.bh, g)) by { dims_pos(s.bw, s.bh); }
    assert forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 implies gv(g, q) == num(s, q) by { from_box_agrees(s, p, q); }
    assert(completes(s, g));
}
/// a box has side(s) fields
pub proof fn box_count(s: Sudoku, p: (int, int), it: Seq<(int, int)>)
    requires wf(s), at(s, p), it.no_duplicates(), forall|q: (int, int)| #[trigger] it.contains(q) <==> at(s, q) && same_box(s.bw, s.bh, p, q),
    ensures it.len() == side(s),
{
    let w = s.bw;
    let h = s.bh;
    dims_pos(w, h);
    box_no_facts(w, h);
    assert(ingrid(w, h, p));
    let u = box_no(w, h, p);
    unit_cells(w, h, 2, u);
    let cells = Seq::new(side(s) as nat, |k: int| unit_cell(w, h, 2, u, k));
    assert(cells.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < cells.len() && 0 <= j < cells.len() && i != j implies cells[i] != cells[j] by {
            if i < j { assert(unit_cell(w, h, 2, u, i) != unit_cell(w, h, 2, u, j)); } else { assert(unit_cell(w, h, 2, u, j) != unit_cell(w, h, 2, u, i)); }
        }
    }
    it.unique_seq_to_set();
    cells.unique_seq_to_set();
    it.to_set_ensures();
    cells.to_set_ensures();
    assert forall|q: (int, int)| it.to_set().contains(q) <==> cells.to_set().contains(q) by {
        if it.contains(q) {
            assert(ingrid(w, h, q));
            let k = cell_index(w, h, q);
            assert(cells[k] == q);
            assert(cells.contains(q));
        }
        if cells.contains(q) {
            let k = choose|k: int| 0 <= k < cells.len() && cells[k] == q;
            assert(ingrid(w, h, unit_cell(w, h, 2, u, k)) && in_unit(w, h, 2, u, unit_cell(w, h, 2, u, k)));
        }
    }
    assert(it.to_set() =~= cells.to_set());
}
/// the first n fields of it hold different numbers 1..N, the rest is empty, and the other numbers are left
pub open spec fn filling(s: Sudoku, it: Seq<(int, int)>, n: int, left: Seq<int>) -> bool {
    &&& wf(s) && left.no_duplicates() && left.len() == it.len() - n
    &&& forall|v: int| #[trigger] left.contains(v) ==> 1 <= v <= side(s)
    &&& forall|k: int| 0 <= k < n ==> 1 <= num(s, #[trigger] it[k]) <= side(s) && !left.contains(num(s, it[k]))
    &&& forall|a: int, b: int| 0 <= a < b < n ==> num(s, #[trigger] it[a]) != num(s, #[trigger] it[b])
    &&& forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 ==> exists|k: int| 0 <= k < n && #[trigger] it[k] == q
}
pub proof fn filling_next(s: Sudoku, it: Seq<(int, int)>, n: int, left: Seq<int>)
    requires filling(s, it, n, left), 0 <= n < it.len(), it.no_duplicates(), forall|k: int| 0 <= k < it.len() ==> at(s, #[trigger] it[k]),
    ensures left.len() > 0, filling(set_num(s, it[n], left.last()), it, n + 1, left.drop_last()),
{
    let v = left.last();
    let l = left.drop_last();
    let t = set_num(s, it[n], v);
    set_num_facts(s, it[n], v);
    assert(left.contains(left[left.len() - 1]));
    assert forall|x: int| #[trigger] l.contains(x) implies left.contains(x) && x != v by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
        assert(left[i] == x);
    }
    assert forall|k: int| 0 <= k < n + 1 implies 1 <= num(t, #[trigger] it[k]) <= side(t) && !l.contains(num(t, it[k])) && (k < n ==> num(t, it[k]) == num(s, it[k])) by {
        if k < n { assert(it[k] != it[n]); }
    }
    assert forall|a: int, b: int| 0 <= a < b < n + 1 implies num(t, #[trigger] it[a]) != num(t, #[trigger] it[b]) by {
        if b == n { assert(num(t, it[b]) == v); assert(left.contains(v)); assert(!left.contains(num(s, it[a]))); }
    }
    assert forall|q: (int, int)| at(t, q) && #[trigger] num(t, q) != 0 implies exists|k: int| 0 <= k < n + 1 && #[trigger] it[k] == q by {
        if q != it[n] { assert(num(s, q) == num(t, q)); let k = choose|k: int| 0 <= k < n && #[trigger] it[k] == q; assert(it[k] == q); } else { assert(it[n] == q); }
    }
}
pub proof fn filling_done(s: Sudoku, it: Seq<(int, int)>, left: Seq<int>, p: (int, int))
    requires at(s, p), filling(s, it, it.len() as int, left), forall|q: (int, int)| #[trigger] it.contains(q) <==> at(s, q) && same_box(s.bw, s.bh, p, q),
    ensures exists|g: Grid| #[trigger] completes(s, g),
{
    assert forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 implies same_box(s.bw, s.bh, p, q) by {
        let k = choose|k: int| 0 <= k < it.len() && #[trigger] it[k] == q;
        assert(it.contains(q));
    }
    assert forall|q: (int, int)| at(s, q) && same_box(s.bw, s.bh, p, q) implies 1 <= #[trigger] num(s, q) <= side(s) by {
        assert(it.contains(q));
        let k = choose|k: int| 0 <= k < it.len() && it[k] == q;
        assert(1 <= num(s, it[k]));
    }
    assert forall|q: (int, int), r: (int, int)| at(s, q) && at(s, r) && q != r && same_box(s.bw, s.bh, p, q) && same_box(s.bw, s.bh, p, r) implies #[trigger] num(s, q) != #[trigger] num(s, r) by {
        assert(it.contains(q) && it.contains(r));
        let j = choose|k: int| 0 <= k < it.len() && it[k] == q;
        let k = choose|k: int| 0 <= k < it.len() && it[k] == r;
        if j < k { assert(num(s, it[j]) != num(s, it[k])); } else { assert(num(s, it[k]) != num(s, it[j])); }
    }
    box_extends(s, p);
}
/// a listing of at least one completion
pub broadcast proof fn lists_some(s: Sudoku, out: Seq<Sudoku>)
    ensures #[trigger] lists_comps(s, out) && (exists|g: Grid| #[trigger] completes(s, g)) ==> out.len() > 0 && solved_from(s, out[0]),
{
    if lists_comps(s, out) && (exists|g: Grid| #[trigger] completes(s, g)) {
        let g = choose|g: Grid| #[trigger] completes(s, g);
        let t = choose|t: Sudoku| #[trigger] out.contains(t) && t.nums == g;
        assert(out.contains(out[0]));
    }
}
