// Geometry of a sudoku grid with boxes of width w and height h (side length n = w*h).
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub open spec fn dims(w: int, h: int) -> bool { w >= 1 && h >= 1 }
pub open spec fn ingrid(w: int, h: int, p: (int, int)) -> bool { 0 <= p.0 < w * h && 0 <= p.1 < w * h }
#[verifier::opaque]
pub open spec fn same_box(w: int, h: int, p: (int, int), q: (int, int)) -> bool { p.0 / h == q.0 / h && p.1 / w == q.1 / w }
pub open spec fn same_unit(w: int, h: int, p: (int, int), q: (int, int)) -> bool {
    p.0 == q.0 || p.1 == q.1 || same_box(w, h, p, q)
}
pub open spec fn peers(w: int, h: int, p: (int, int), q: (int, int)) -> bool { p != q && same_unit(w, h, p, q) }
/// boxes are numbered row-major; there are h boxes next to each other
pub open spec fn box_no(w: int, h: int, p: (int, int)) -> int { (p.0 / h) * h + p.1 / w }
pub open spec fn part_no(w: int, h: int, p: (int, int)) -> int { (p.0 % h) * w + p.1 % w }

/// the listing `s` names exactly the fields satisfying `sel`, each once
pub open spec fn lists(s: Seq<(int, int)>, w: int, h: int, sel: spec_fn((int, int)) -> bool) -> bool {
    &&& s.no_duplicates()
    &&& forall|q: (int, int)| #[trigger] s.contains(q) <==> ingrid(w, h, q) && sel(q)
}

pub proof fn div_of(x: int, d: int, q: int, r: int)
    requires d > 0, x == q * d + r, 0 <= r < d,
    ensures x / d == q, x % d == r,
{
    lemma_fundamental_div_mod_converse(x, d, q, r);
}

pub proof fn block(x: int, d: int)
    requires d > 0,
    ensures x == (x / d) * d + x % d, 0 <= x % d < d, x - x % d == (x / d) * d,
{
    lemma_fundamental_div_mod(x, d);
    lemma_mul_is_commutative(d, x / d);
}

/// y lies in the same block of length d as x
pub proof fn in_block(x: int, y: int, d: int)
    requires d > 0,
    ensures x / d == y / d <==> x - x % d <= y < x - x % d + d,
{
    block(x, d);
    block(y, d);
    if x / d != y / d {
        if x / d < y / d { lemma_mul_inequality(x / d + 1, y / d, d); lemma_mul_is_distributive_add_other_way(d, x / d, 1); }
        else { lemma_mul_inequality(y / d + 1, x / d, d); lemma_mul_is_distributive_add_other_way(d, y / d, 1); }
    }
}

/// x in [0, k*d)  ==>  the block of x is inside [0, k*d)
pub proof fn block_inside(x: int, k: int, d: int)
    requires d > 0, k > 0, 0 <= x < k * d,
    ensures 0 <= x / d < k, 0 <= x - x % d, x - x % d + d <= k * d,
{
    block(x, d);
    lemma_div_pos_is_pos(x, d);
    lemma_mul_is_commutative(k, d);
    lemma_multiply_divide_lt(x, d, k);
    lemma_mul_inequality(x / d + 1, k, d);
    lemma_mul_is_distributive_add_other_way(d, x / d, 1);
    lemma_mul_nonnegative(x / d, d);
}

pub proof fn dims_pos(w: int, h: int)
    requires dims(w, h),
    ensures w * h >= 1, w * h == h * w, w <= w * h, h <= w * h,
{
    lemma_mul_is_commutative(w, h);
    lemma_mul_inequality(1, w, h);
    lemma_mul_inequality(1, h, w);
}

/// everything about the box of the field (r, c)
pub proof fn box_facts(w: int, h: int, r: int, c: int)
    requires dims(w, h), ingrid(w, h, (r, c)),
    ensures
        ({ let gy = r - r % h; let gx = c - c % w;
            &&& 0 <= gy && gy + h <= w * h && 0 <= gx && gx + w <= w * h
            &&& gy <= r < gy + h && gx <= c < gx + w
            &&& gy == (r / h) * h && gx == (c / w) * w
            &&& same_box(w, h, (r, c), (r, c)) && ingrid(w, h, (r, c))
            &&& forall|q: (int, int)| #[trigger] same_box(w, h, (r, c), q) <==> gy <= q.0 < gy + h && gx <= q.1 < gx + w
            &&& forall|q: (int, int)| #[trigger] same_box(w, h, (r, c), q) ==>
                    prod(irange(0, h), irange(0, w)).contains((q.0 - gy, q.1 - gx))
            &&& forall|q: (int, int)| #[trigger] same_box(w, h, (r, c), q) ==> ingrid(w, h, q)
            &&& irange(0, w * h).contains(r) && irange(0, w * h).contains(c)
            &&& forall|q: (int, int)| #[trigger] ingrid(w, h, q) ==> irange(0, w * h).contains(q.0) && irange(0, w * h).contains(q.1)
        }),
{
    broadcast use prelude_facts;
    reveal(same_box);
    dims_pos(w, h);
    block(r, h);
    block(c, w);
    block_inside(r, w, h);
    lemma_mul_is_commutative(w, h);
    block_inside(c, h, w);
    assert forall|q: (int, int)| #[trigger] same_box(w, h, (r, c), q) <==>
        r - r % h <= q.0 < r - r % h + h && c - c % w <= q.1 < c - c % w + w by {
        in_block(r, q.0, h);
        in_block(c, q.1, w);
    }
}

/// box numbers identify boxes
pub proof fn box_no_facts(w: int, h: int)
    requires dims(w, h),
    ensures
        forall|p: (int, int)| #[trigger] ingrid(w, h, p) ==> 0 <= box_no(w, h, p) < w * h && box_no(w, h, p) / h == p.0 / h
            && box_no(w, h, p) % h == p.1 / w,
        forall|p: (int, int), q: (int, int)| #[trigger] ingrid(w, h, p) && #[trigger] ingrid(w, h, q) ==>
            (box_no(w, h, p) == box_no(w, h, q) <==> same_box(w, h, p, q)),
{
    reveal(same_box);
    lemma_mul_is_commutative(w, h);
    assert forall|p: (int, int)| #[trigger] ingrid(w, h, p) implies 0 <= box_no(w, h, p) < w * h && box_no(w, h, p) / h == p.0 / h
            && box_no(w, h, p) % h == p.1 / w by {
        block_inside(p.0, w, h);
        block_inside(p.1, h, w);
        block(p.0, h);
        div_of(box_no(w, h, p), h, p.0 / h, p.1 / w);
    }
}

/// everything about the box with number b
pub proof fn the_box_facts(w: int, h: int, b: int)
    requires dims(w, h), 0 <= b < w * h,
    ensures
        ({ let y = (b / h) * h; let x = (b % h) * w;
            &&& 0 <= y && y + h <= w * h && 0 <= x && x + w <= w * h
            &&& forall|q: (int, int)| #[trigger] ingrid(w, h, q) ==>
                (box_no(w, h, q) == b <==> y <= q.0 < y + h && x <= q.1 < x + w)
            &&& forall|q: (int, int)| #[trigger] ingrid(w, h, q) && box_no(w, h, q) == b ==>
                    prod(irange(0, h), irange(0, w)).contains((q.0 - y, q.1 - x))
        }),
{
    broadcast use prelude_facts;
    dims_pos(w, h);
    box_no_facts(w, h);
    let r = (b / h) * h;
    let c = (b % h) * w;
    block(b, h);
    block_inside(b, w, h);
    lemma_mul_is_commutative(w, h);
    lemma_mul_inequality(b % h + 1, h, w);
    lemma_mul_is_distributive_add_other_way(w, b % h, 1);
    lemma_mul_nonnegative(b % h, w);
    div_of(r, h, b / h, 0);
    div_of(c, w, b % h, 0);
    assert forall|q: (int, int)| #[trigger] ingrid(w, h, q) implies
        (box_no(w, h, q) == b <==> r <= q.0 < r + h && c <= q.1 < c + w) by {
        in_block(r, q.0, h);
        in_block(c, q.1, w);
        block_inside(q.0, w, h);
        block_inside(q.1, h, w);
        block(q.0, h);
        div_of(box_no(w, h, q), h, q.0 / h, q.1 / w);
        if box_no(w, h, q) == b { assert(q.0 / h == b / h && q.1 / w == b % h); }
    }
}

/// everything about the part with number b
pub proof fn the_part_facts(w: int, h: int, b: int)
    requires dims(w, h), 0 <= b < w * h,
    ensures
        ({ let row = b / w; let col = b % w;
            &&& 0 <= row < h && 0 <= col < w
            &&& forall|i: int, j: int| 0 <= i < w && 0 <= j < h ==> {
                let q = (row + #[trigger] (i * h), col + #[trigger] (j * w));
                ingrid(w, h, q) && part_no(w, h, q) == b && q.0 / h == i && q.1 / w == j }
            &&& forall|q: (int, int)| #[trigger] ingrid(w, h, q) && part_no(w, h, q) == b ==>
                    prod(irange(0, w), irange(0, h)).contains((q.0 / h, q.1 / w))
                    && q == (row + (q.0 / h) * h, col + (q.1 / w) * w)
        }),
{
    broadcast use prelude_facts;
    dims_pos(w, h);
    let row = b / w;
    let col = b % w;
    block(b, w);
    lemma_mul_is_commutative(w, h);
    block_inside(b, h, w);
    assert forall|i: int, j: int| 0 <= i < w && 0 <= j < h implies {
        let q = (row + #[trigger] (i * h), col + #[trigger] (j * w));
        ingrid(w, h, q) && part_no(w, h, q) == b && q.0 / h == i && q.1 / w == j } by {
        let q = (row + i * h, col + j * w);
        div_of(q.0, h, i, row);
        div_of(q.1, w, j, col);
        lemma_mul_inequality(i + 1, w, h);
        lemma_mul_is_distributive_add_other_way(h, i, 1);
        lemma_mul_inequality(j + 1, h, w);
        lemma_mul_is_distributive_add_other_way(w, j, 1);
        lemma_mul_nonnegative(i, h);
        lemma_mul_nonnegative(j, w);
    }
    assert forall|q: (int, int)| #[trigger] ingrid(w, h, q) && part_no(w, h, q) == b implies
        prod(irange(0, w), irange(0, h)).contains((q.0 / h, q.1 / w)) && q == (row + (q.0 / h) * h, col + (q.1 / w) * w) by {
        block_inside(q.0, w, h);
        block_inside(q.1, h, w);
        block(q.0, h);
        block(q.1, w);
        div_of(b, w, q.0 % h, q.1 % w);
    }
}

pub proof fn len_facts(w: int, h: int)
    ensures (w * w) * (h * h) == (w * h) * (w * h),
{
    lemma_mul_is_associative(w * w, h, h);
    lemma_mul_is_associative(w, w, h);
    lemma_mul_is_commutative(w, w * h);
    lemma_mul_is_associative(w * h, w, h);
}
