// needs: geom
// The Sudoku object seen as two grids of numbers and candidate sets.
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub open spec fn side(s: Sudoku) -> int { s.bw * s.bh }
pub open spec fn at(s: Sudoku, p: (int, int)) -> bool { ingrid(s.bw, s.bh, p) }
pub open spec fn num(s: Sudoku, p: (int, int)) -> int { s.nums[p.0][p.1] }
pub open spec fn cand(s: Sudoku, p: (int, int)) -> Set<int> { s.cands[p.0][p.1] }
pub open spec fn wf(s: Sudoku) -> bool {
    &&& dims(s.bw, s.bh)
    &&& s.bs == (s.bw, s.bh)
    &&& s.indices == irange(0, side(s))
    &&& s.numbers == irange(1, side(s) + 1)
    &&& s.nums.len() == side(s)
    &&& s.cands.len() == side(s)
    &&& forall|r: int| 0 <= r < side(s) ==> (#[trigger] s.nums[r]).len() == side(s)
    &&& forall|r: int| 0 <= r < side(s) ==> (#[trigger] s.cands[r]).len() == side(s)
}
pub open spec fn same_dims(a: Sudoku, b: Sudoku) -> bool { a.bw == b.bw && a.bh == b.bh }
pub open spec fn set_num(s: Sudoku, p: (int, int), v: int) -> Sudoku {
    Sudoku { nums: s.nums.update(p.0, s.nums[p.0].update(p.1, v)), ..s }
}
pub open spec fn set_cand(s: Sudoku, p: (int, int), v: Set<int>) -> Sudoku {
    Sudoku { cands: s.cands.update(p.0, s.cands[p.0].update(p.1, v)), ..s }
}
pub open spec fn same_nums(a: Sudoku, b: Sudoku) -> bool { forall|q: (int, int)| at(a, q) ==> #[trigger] num(a, q) == num(b, q) }
pub open spec fn same_cands(a: Sudoku, b: Sudoku) -> bool { forall|q: (int, int)| at(a, q) ==> #[trigger] cand(a, q) == cand(b, q) }
pub open spec fn same_cand(a: Sudoku, b: Sudoku, q: (int, int)) -> bool { cand(a, q) == cand(b, q) }
pub open spec fn peer(s: Sudoku, p: (int, int), q: (int, int)) -> bool { peers(s.bw, s.bh, p, q) }

pub broadcast proof fn set_num_facts(s: Sudoku, p: (int, int), v: int)
    requires wf(s), at(s, p),
    ensures
        wf(#[trigger] set_num(s, p, v)), same_dims(s, set_num(s, p, v)),
        forall|q: (int, int)| at(s, q) ==> #[trigger] num(set_num(s, p, v), q) == (if q == p { v } else { num(s, q) }),
        forall|q: (int, int)| #[trigger] cand(set_num(s, p, v), q) == cand(s, q),
{ }
pub broadcast proof fn set_cand_facts(s: Sudoku, p: (int, int), v: Set<int>)
    requires wf(s), at(s, p),
    ensures
        wf(#[trigger] set_cand(s, p, v)), same_dims(s, set_cand(s, p, v)),
        forall|q: (int, int)| at(s, q) ==> #[trigger] cand(set_cand(s, p, v), q) == (if q == p { v } else { cand(s, q) }),
        forall|q: (int, int)| #[trigger] num(set_cand(s, p, v), q) == num(s, q),
{ }
/// a Sudoku is determined by its box size, numbers and candidates
pub proof fn sud_ext(a: Sudoku, b: Sudoku)
    requires wf(a), wf(b), same_dims(a, b), same_nums(a, b), same_cands(a, b),
    ensures a == b,
{
    assert forall|r: int| 0 <= r < side(a) implies a.nums[r] == b.nums[r] by {
        assert forall|c: int| 0 <= c < side(a) implies a.nums[r][c] == b.nums[r][c] by { assert(num(a, (r, c)) == num(b, (r, c))); }
        assert(a.nums[r] =~= b.nums[r]);
    }
    assert forall|r: int| 0 <= r < side(a) implies a.cands[r] == b.cands[r] by {
        assert forall|c: int| 0 <= c < side(a) implies a.cands[r][c] == b.cands[r][c] by { assert(cand(a, (r, c)) == cand(b, (r, c))); }
        assert(a.cands[r] =~= b.cands[r]);
    }
    assert(a.nums =~= b.nums);
    assert(a.cands =~= b.cands);
}

/// all fields in row-major order
pub open spec fn fields(n: int) -> Seq<(int, int)> { prod(irange(0, n), irange(0, n)) }
pub broadcast proof fn fields_contains(n: int, q: (int, int))
    ensures #[trigger] fields(n).contains(q) <==> 0 <= q.0 < n && 0 <= q.1 < n,
{ broadcast use prelude_facts; }
pub broadcast proof fn fields_nodup(n: int)
    ensures #[trigger] fields(n).no_duplicates(),
{ broadcast use prelude_facts; }

/// every field mentioned is in the listing
pub broadcast proof fn num_field(s: Sudoku, q: (int, int))
    ensures #![trigger num(s, q)] at(s, q) <==> fields(side(s)).contains(q),
{ fields_contains(side(s), q); }
pub broadcast proof fn cand_field(s: Sudoku, q: (int, int))
    ensures #![trigger cand(s, q)] at(s, q) <==> fields(side(s)).contains(q),
{ fields_contains(side(s), q); }

pub proof fn flat_len<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>, m: int)
    requires forall|a: A| #[trigger] s.contains(a) ==> f(a).len() == m, m >= 0,
    ensures flat(s, f).len() == s.len() * m,
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < m ==> flat(s, f)[#[trigger] (i * m) + j] == #[trigger] f(s[i])[j],
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|a: A| #[trigger] t.contains(a) implies f(a).len() == m by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
            assert(s[i] == a); assert(s.contains(a));
        }
        flat_len(t, f, m);
        assert(s.contains(s[s.len() - 1]));
        let l = s.len() as int;
        assert((l - 1) * m + m == l * m) by { lemma_mul_is_distributive_add_other_way(m, l - 1, 1); }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < m implies flat(s, f)[#[trigger] (i * m) + j] == #[trigger] f(s[i])[j] by {
            if i < l - 1 {
                assert(t[i] == s[i]);
                assert(f(t[i])[j] == f(s[i])[j]);
                lemma_mul_inequality(i + 1, l - 1, m);
                lemma_mul_is_distributive_add_other_way(m, i, 1);
                lemma_mul_nonnegative(i, m);
                assert(flat(t, f)[(i * m) + j] == f(t[i])[j]);
            }
        }
    } else { lemma_mul_basics(m); }
}

pub proof fn fields_index(n: int)
    requires n >= 1,
    ensures fields(n).len() == n * n,
        forall|k: int| 0 <= k < n * n ==> #[trigger] fields(n)[k] == (k / n, k % n),
{
    broadcast use prelude_facts;
    let f = |x: int| comp(irange(0, n), |y: int| true, |y: int| (x, y));
    flat_len(irange(0, n), f, n);
    assert forall|k: int| 0 <= k < n * n implies #[trigger] fields(n)[k] == (k / n, k % n) by {
        block(k, n);
        block_inside(k, n, n);
        let i = k / n;
        let j = k % n;
        assert(flat(irange(0, n), f)[(i * n) + j] == f(irange(0, n)[i])[j]);
    }
}

/// fields (row-major) that satisfy p
pub open spec fn fields_where(s: Sudoku, p: spec_fn((int, int)) -> bool) -> Seq<(int, int)> {
    comp(fields(side(s)), p, |q: (int, int)| q)
}
pub open spec fn filled_fields(s: Sudoku) -> Set<(int, int)> { fields(side(s)).to_set().filter(|p: (int, int)| num(s, p) != 0) }
pub broadcast proof fn filled_fields_contains(s: Sudoku, p: (int, int))
    ensures #[trigger] filled_fields(s).contains(p) <==> at(s, p) && num(s, p) != 0,
{ broadcast use {prelude_facts, fields_contains}; }

/// a list lists a subset of the fields in row-major order
pub open spec fn before(p: (int, int), q: (int, int)) -> bool { p.0 < q.0 || (p.0 == q.0 && p.1 < q.1) }
pub open spec fn row_major(s: Seq<(int, int)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j])
}
pub proof fn fields_row_major(n: int)
    requires n >= 1,
    ensures row_major(fields(n)),
{
    fields_index(n);
    assert forall|i: int, j: int| 0 <= i < j < fields(n).len() implies before(#[trigger] fields(n)[i], #[trigger] fields(n)[j]) by {
        block(i, n);
        block(j, n);
        if i / n > j / n { lemma_mul_inequality(j / n + 1, i / n, n); lemma_mul_is_distributive_add_other_way(n, j / n, 1); }
    }
}
/// a filtered listing keeps the order
pub broadcast proof fn comp_row_major(s: Seq<(int, int)>, p: spec_fn((int, int)) -> bool, f: spec_fn((int, int)) -> (int, int))
    requires row_major(s), forall|q: (int, int)| #[trigger] s.contains(q) && p(q) ==> f(q) == q,
    ensures #[trigger] row_major(comp(s, p, f)),
    decreases s.len(),
{
    broadcast use prelude_facts;
    if s.len() > 0 {
        let t = s.drop_last();
        let l = s.last();
        assert forall|q: (int, int)| #[trigger] t.contains(q) implies s.contains(q) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == q; assert(s[i] == q);
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies before(#[trigger] t[i], #[trigger] t[j]) by { assert(before(s[i], s[j])); }
        comp_row_major(t, p, f);
        assert(s.contains(s[s.len() - 1]));
        let r = comp(t, p, f);
        if p(l) {
            assert forall|i: int, j: int| 0 <= i < j < comp(s, p, f).len() implies before(#[trigger] comp(s, p, f)[i], #[trigger] comp(s, p, f)[j]) by {
                if j == r.len() {
                    assert(r.contains(r[i]));
                    let a = choose|a: (int, int)| #[trigger] t.contains(a) && p(a) && f(a) == r[i];
                    let k = choose|k: int| 0 <= k < t.len() && t[k] == a;
                    assert(before(s[k], s[s.len() - 1]));
                }
            }
        }
    }
}

pub broadcast group sud_facts { set_num_facts, set_cand_facts, fields_contains, fields_nodup, filled_fields_contains }
