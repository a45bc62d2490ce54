// needs: comps
// needs: cover
// The exact cover rows of a sudoku: (r, c, n) covers its field, and n in its row, column and box.

pub type Tags = (Seq<char>, Seq<char>, Seq<char>, Seq<char>);
pub open spec fn tags(y: YM) -> Tags { let s = y[(0, 0, 1)]; (s[0].0, s[1].0, s[2].0, s[3].0) }
pub open spec fn row4(w: int, h: int, t: Tags, k: Row) -> Seq<Col> {
    seq![(t.0, (k.0, k.1)), (t.1, (k.0, k.2)), (t.2, (k.1, k.2)), (t.3, (box_no(w, h, (k.0, k.1)), k.2))]
}
pub open spec fn row_ok(w: int, h: int, k: Row) -> bool { ingrid(w, h, (k.0, k.1)) && 1 <= k.2 <= w * h }
pub open spec fn tags_differ(t: Tags) -> bool { t.0 != t.1 && t.0 != t.2 && t.0 != t.3 && t.1 != t.2 && t.1 != t.3 && t.2 != t.3 }
pub open spec fn rows_model(w: int, h: int, y: YM) -> bool {
    &&& tags_differ(tags(y))
    &&& forall|k: Row| #[trigger] y.dom().contains(k) <==> row_ok(w, h, k)
    &&& forall|k: Row| row_ok(w, h, k) ==> #[trigger] y[k] == row4(w, h, tags(y), k)
}
pub open spec fn col_ok(w: int, h: int, t: Tags, c: Col) -> bool {
    ||| c.0 == t.0 && ingrid(w, h, c.1)
    ||| (c.0 == t.1 || c.0 == t.2 || c.0 == t.3) && 0 <= c.1.0 < w * h && 1 <= c.1.1 <= w * h
}
pub open spec fn all_cols(w: int, h: int, y: YM, d: Set<Col>) -> bool {
    forall|c: Col| #[trigger] d.contains(c) <==> col_ok(w, h, tags(y), c)
}
pub proof fn row4_contains(w: int, h: int, t: Tags, k: Row, c: Col)
    ensures row4(w, h, t, k).contains(c) <==> c == (t.0, (k.0, k.1)) || c == (t.1, (k.0, k.2)) || c == (t.2, (k.1, k.2))
        || c == (t.3, (box_no(w, h, (k.0, k.1)), k.2)),
{
    let s = row4(w, h, t, k);
    assert(s[0] == (t.0, (k.0, k.1)) && s[1] == (t.1, (k.0, k.2)) && s[2] == (t.2, (k.1, k.2)) && s[3] == (t.3, (box_no(w, h, (k.0, k.1)), k.2)));
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(i == 0 || i == 1 || i == 2 || i == 3); }
}
pub proof fn row_contains(w: int, h: int, y: YM)
    requires rows_model(w, h, y),
    ensures forall|k: Row, c: Col| row_ok(w, h, k) ==> (#[trigger] y[k].contains(c) <==> ({ let t = tags(y);
        c == (t.0, (k.0, k.1)) || c == (t.1, (k.0, k.2)) || c == (t.2, (k.1, k.2)) || c == (t.3, (box_no(w, h, (k.0, k.1)), k.2)) })),
{
    assert forall|k: Row, c: Col| row_ok(w, h, k) implies (#[trigger] y[k].contains(c) <==> ({ let t = tags(y);
        c == (t.0, (k.0, k.1)) || c == (t.1, (k.0, k.2)) || c == (t.2, (k.1, k.2)) || c == (t.3, (box_no(w, h, (k.0, k.1)), k.2)) })) by {
        row4_contains(w, h, tags(y), k, c);
    }
}
pub proof fn rows_wf(w: int, h: int, y: YM)
    requires dims(w, h), rows_model(w, h, y),
    ensures wf_rows(y), forall|i: Row, j: Col| #[trigger] y.dom().contains(i) && #[trigger] y[i].contains(j) ==> col_ok(w, h, tags(y), j),
{
    row_contains(w, h, y);
    box_no_facts(w, h);
    let t = tags(y);
    assert forall|i: Row| #[trigger] y.dom().contains(i) implies y[i].len() > 0 && y[i].no_duplicates() by {
        let s = row4(w, h, t, i);
        assert(y[i] == s);
        assert(s[0].0 == t.0 && s[1].0 == t.1 && s[2].0 == t.2 && s[3].0 == t.3);
    }
    assert forall|i: Row, j: Col| #[trigger] y.dom().contains(i) && #[trigger] y[i].contains(j) implies col_ok(w, h, tags(y), j) by {
        assert(ingrid(w, h, (i.0, i.1)));
    }
}
/// two rows share a column exactly if they name the same field or the same number in a common unit
pub open spec fn clash(w: int, h: int, k: Row, l: Row) -> bool {
    (k.0 == l.0 && k.1 == l.1) || (k.2 == l.2 && same_unit(w, h, (k.0, k.1), (l.0, l.1)))
}
pub proof fn shares(w: int, h: int, y: YM, k: Row, l: Row)
    requires dims(w, h), rows_model(w, h, y), row_ok(w, h, k), row_ok(w, h, l),
    ensures (exists|c: Col| y[k].contains(c) && #[trigger] y[l].contains(c)) <==> clash(w, h, k, l),
{
    row_contains(w, h, y);
    box_no_facts(w, h);
    let t = tags(y);
    assert(ingrid(w, h, (k.0, k.1)) && ingrid(w, h, (l.0, l.1)));
    if clash(w, h, k, l) {
        if k.0 == l.0 && k.1 == l.1 { let c = (t.0, (k.0, k.1)); assert(y[k].contains(c) && y[l].contains(c)); }
        else if k.0 == l.0 { let c = (t.1, (k.0, k.2)); assert(y[k].contains(c) && y[l].contains(c)); }
        else if k.1 == l.1 { let c = (t.2, (k.1, k.2)); assert(y[k].contains(c) && y[l].contains(c)); }
        else { let c = (t.3, (box_no(w, h, (k.0, k.1)), k.2)); assert(y[k].contains(c) && y[l].contains(c)); }
    }
}

/// the row of a given
pub open spec fn grow(s: Sudoku, p: (int, int)) -> Row { (p.0, p.1, num(s, p)) }
/// column c is closed by one of the first n fields
pub open spec fn taken(s: Sudoku, y: YM, it: Seq<(int, int)>, n: int, c: Col) -> bool {
    exists|i: int| 0 <= i < n && num(s, #[trigger] it[i]) != 0 && y[grow(s, it[i])].contains(c)
}
pub broadcast proof fn taken_step(s: Sudoku, y: YM, it: Seq<(int, int)>, n: int, c: Col)
    requires 0 <= n,
    ensures #[trigger] taken(s, y, it, n + 1, c) <==> taken(s, y, it, n, c) || (num(s, it[n]) != 0 && y[grow(s, it[n])].contains(c)),
{
    if taken(s, y, it, n, c) { let i = choose|i: int| 0 <= i < n && num(s, #[trigger] it[i]) != 0 && y[grow(s, it[i])].contains(c); assert(num(s, it[i]) != 0); }
}
/// the first n fields hold numbers 1..N without conflict
pub open spec fn clean(s: Sudoku, it: Seq<(int, int)>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n && num(s, #[trigger] it[i]) != 0 ==> row_ok(s.bw, s.bh, grow(s, it[i]))
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j && num(s, #[trigger] it[i]) != 0 && num(s, #[trigger] it[j]) != 0
            ==> !clash(s.bw, s.bh, grow(s, it[i]), grow(s, it[j]))
}
/// the columns open after the first n fields
pub open spec fn open_cols(s: Sudoku, y: YM, d: Set<Col>, it: Seq<(int, int)>, n: int) -> bool {
    forall|c: Col| #[trigger] d.contains(c) <==> col_ok(s.bw, s.bh, tags(y), c) && !taken(s, y, it, n, c)
}
pub proof fn taken_by(s: Sudoku, y: YM, it: Seq<(int, int)>, n: int, c: Col, i: int)
    requires 0 <= i < n, num(s, it[i]) != 0, y[grow(s, it[i])].contains(c),
    ensures taken(s, y, it, n, c),
{ }
pub proof fn given_apart(s: Sudoku, y: YM, d: Set<Col>, n: int, i: int)
    requires wf(s), rows_model(s.bw, s.bh, y), 0 <= i < n, clean(s, fields(side(s)), n), open_cols(s, y, d, fields(side(s)), n),
        num(s, fields(side(s))[i]) != 0, fits(y, d, grow(s, fields(side(s))[n])), row_ok(s.bw, s.bh, grow(s, fields(side(s))[n])),
    ensures !clash(s.bw, s.bh, grow(s, fields(side(s))[n]), grow(s, fields(side(s))[i])),
{
    let it = fields(side(s));
    let k = grow(s, it[n]);
    let l = grow(s, it[i]);
    assert(row_ok(s.bw, s.bh, l));
    if clash(s.bw, s.bh, k, l) {
        shares(s.bw, s.bh, y, k, l);
        let c = choose|c: Col| y[k].contains(c) && #[trigger] y[l].contains(c);
        taken_by(s, y, it, n, c, i);
        assert(!d.contains(c));
    }
}
pub proof fn given_clash(s: Sudoku, y: YM, n: int, i: int, c: Col, g: Grid)
    requires wf(s), rows_model(s.bw, s.bh, y), 0 <= i < n < fields(side(s)).len(), clean(s, fields(side(s)), n),
        num(s, fields(side(s))[i]) != 0, num(s, fields(side(s))[n]) != 0, row_ok(s.bw, s.bh, grow(s, fields(side(s))[n])),
        y[grow(s, fields(side(s))[n])].contains(c), y[grow(s, fields(side(s))[i])].contains(c),
    ensures !completes(s, g),
{
    broadcast use fields_contains;
    let it = fields(side(s));
    let p = it[n];
    let q = it[i];
    fields_nodup(side(s));
    assert(it.no_duplicates());
    assert(p != q);
    assert(it.contains(p) && it.contains(q));
    shares(s.bw, s.bh, y, grow(s, p), grow(s, q));
    reveal(same_box);
    if completes(s, g) {
        assert(gv(g, p) == num(s, p) && gv(g, q) == num(s, q));
        assert(peers(s.bw, s.bh, p, q));
    }
}
/// the field it[n] fits, or no completion exists
pub proof fn given_step(s: Sudoku, y: YM, d: Set<Col>, n: int)
    requires wf(s), rows_model(s.bw, s.bh, y), 0 <= n < fields(side(s)).len(), clean(s, fields(side(s)), n), open_cols(s, y, d, fields(side(s)), n),
        num(s, fields(side(s))[n]) != 0,
    ensures
        fits(y, d, grow(s, fields(side(s))[n])) ==> clean(s, fields(side(s)), n + 1),
        !fits(y, d, grow(s, fields(side(s))[n])) ==> forall|g: Grid| !completes(s, g),
{
    broadcast use fields_contains;
    let it = fields(side(s));
    let w = s.bw;
    let h = s.bh;
    let p = it[n];
    let k = grow(s, p);
    assert(it.contains(p));
    rows_wf(w, h, y);
    if fits(y, d, k) {
        assert(row_ok(w, h, k));
        assert forall|i: int| 0 <= i < n && num(s, #[trigger] it[i]) != 0 implies !clash(w, h, k, grow(s, it[i])) by { given_apart(s, y, d, n, i); }
        reveal(same_box);
        assert forall|i: int, j: int| 0 <= i < n + 1 && 0 <= j < n + 1 && i != j && num(s, #[trigger] it[i]) != 0 && num(s, #[trigger] it[j]) != 0
            implies !clash(w, h, grow(s, it[i]), grow(s, it[j])) by {
            if i == n { given_apart(s, y, d, n, j); } else if j == n { given_apart(s, y, d, n, i); }
        }
    } else {
        assert forall|g: Grid| !completes(s, g) by {
            if completes(s, g) {
                assert(gv(g, p) == num(s, p));
                assert(row_ok(w, h, k));
                row_contains(w, h, y);
                let c = choose|c: Col| #[trigger] y[k].contains(c) && !d.contains(c);
                assert(y.dom().contains(k) && y[k].contains(c));
                assert(col_ok(w, h, tags(y), c));
                assert(taken(s, y, it, n, c));
                let i = choose|i: int| 0 <= i < n && num(s, #[trigger] it[i]) != 0 && y[grow(s, it[i])].contains(c);
                given_clash(s, y, n, i, c, g);
            }
        }
    }
}
pub proof fn given_skip(s: Sudoku, it: Seq<(int, int)>, n: int)
    requires clean(s, it, n), 0 <= n < it.len(), num(s, it[n]) == 0,
    ensures clean(s, it, n + 1),
{ }

/// u is s with the empty fields filled from the rows of t
pub open spec fn shows(s: Sudoku, t: Set<Row>, u: Sudoku) -> bool {
    &&& wf(u) && same_dims(s, u)
    &&& forall|p: (int, int)| at(s, p) ==> (#[trigger] num(s, p) != 0 ==> num(u, p) == num(s, p))
    &&& forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) == 0 ==> t.contains((p.0, p.1, num(u, p)))
}
pub open spec fn cover_of(s: Sudoku, g: Grid) -> Set<Row> {
    fields(side(s)).to_set().filter(|p: (int, int)| num(s, p) == 0).map(|p: (int, int)| (p.0, p.1, gv(g, p)))
}
pub proof fn cover_of_contains(s: Sudoku, g: Grid, k: Row)
    ensures cover_of(s, g).contains(k) <==> at(s, (k.0, k.1)) && num(s, (k.0, k.1)) == 0 && gv(g, (k.0, k.1)) == k.2,
{
    broadcast use {fields_contains, to_set_contains};
    let e = fields(side(s)).to_set().filter(|p: (int, int)| num(s, p) == 0);
    let f = |p: (int, int)| (p.0, p.1, gv(g, p));
    if at(s, (k.0, k.1)) && num(s, (k.0, k.1)) == 0 && gv(g, (k.0, k.1)) == k.2 {
        assert(e.contains((k.0, k.1)));
        assert(f((k.0, k.1)) == k);
    }
    if cover_of(s, g).contains(k) {
        let p = choose|p: (int, int)| #[trigger] e.contains(p) && f(p) == k;
        assert(p == (k.0, k.1));
    }
}
pub open spec fn final_cols(s: Sudoku, y: YM, d: Set<Col>) -> bool {
    wf(s) && rows_model(s.bw, s.bh, y) && clean(s, fields(side(s)), fields(side(s)).len() as int)
        && open_cols(s, y, d, fields(side(s)), fields(side(s)).len() as int)
}
/// a row that still fits names an empty field
pub proof fn fits_empty(s: Sudoku, y: YM, d: Set<Col>, k: Row)
    requires final_cols(s, y, d), fits(y, d, k),
    ensures row_ok(s.bw, s.bh, k), num(s, (k.0, k.1)) == 0,
        forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 ==> !clash(s.bw, s.bh, k, grow(s, q)),
{
    broadcast use fields_contains;
    let it = fields(side(s));
    let w = s.bw;
    let h = s.bh;
    assert(y.dom().contains(k));
    reveal(same_box);
    assert forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 implies !clash(w, h, k, grow(s, q)) by {
        assert(it.contains(q));
        let i = choose|i: int| 0 <= i < it.len() && it[i] == q;
        assert(num(s, it[i]) != 0);
        if clash(w, h, k, grow(s, q)) {
            shares(w, h, y, k, grow(s, q));
            let c = choose|c: Col| y[k].contains(c) && #[trigger] y[grow(s, q)].contains(c);
            assert(d.contains(c));
            assert(taken(s, y, it, it.len() as int, c));
        }
    }
    let p = (k.0, k.1);
    if num(s, p) != 0 { assert(clash(w, h, k, grow(s, p))); }
}
pub proof fn cover_apart(w: int, h: int, y: YM, d: Set<Col>, t: Set<Row>, k: Row, l: Row)
    requires dims(w, h), rows_model(w, h, y), is_cover(y, d, t), t.contains(k), t.contains(l), clash(w, h, k, l),
    ensures k == l,
{
    assert(fits(y, d, k) && fits(y, d, l));
    assert(y.dom().contains(k) && y.dom().contains(l));
    shares(w, h, y, k, l);
    let c = choose|c: Col| y[k].contains(c) && #[trigger] y[l].contains(c);
    assert(y[k].contains(c) && y[l].contains(c));
}
/// a cover, shown in the grid, is a completion, and the grid determines the cover
pub proof fn cover_completes(s: Sudoku, y: YM, d: Set<Col>, t: Set<Row>, u: Sudoku)
    requires final_cols(s, y, d), is_cover(y, d, t), shows(s, t, u),
    ensures completes(s, u.nums), t == cover_of(s, u.nums),
{
    broadcast use fields_contains;
    let w = s.bw;
    let h = s.bh;
    let g = u.nums;
    let it = fields(side(s));
    assert forall|k: Row| t.contains(k) <==> cover_of(s, g).contains(k) by {
        cover_of_contains(s, g, k);
        if t.contains(k) {
            assert(fits(y, d, k));
            fits_empty(s, y, d, k);
            let l = (k.0, k.1, num(u, (k.0, k.1)));
            assert(num(s, (k.0, k.1)) == 0);
            assert(t.contains(l));
            cover_apart(w, h, y, d, t, k, l);
        }
    }
    assert(t =~= cover_of(s, g));
    assert forall|p: (int, int)| ingrid(w, h, p) implies 1 <= #[trigger] gv(g, p) <= w * h by {
        if num(s, p) != 0 {
            assert(it.contains(p));
            let i = choose|i: int| 0 <= i < it.len() && it[i] == p;
            assert(num(s, it[i]) != 0);
            assert(num(u, p) == num(s, p));
        } else {
            let k = (p.0, p.1, num(u, p));
            assert(t.contains(k));
            assert(fits(y, d, k));
            assert(y.dom().contains(k));
        }
    }
    assert forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 implies gv(g, p) == num(s, p) by { assert(num(u, p) == num(s, p)); }
    assert forall|p: (int, int), q: (int, int)| ingrid(w, h, p) && ingrid(w, h, q) && #[trigger] peers(w, h, p, q) implies gv(g, p) != gv(g, q) by {
        let k = (p.0, p.1, gv(g, p));
        let l = (q.0, q.1, gv(g, q));
        assert(num(s, p) == 0 ==> t.contains((p.0, p.1, num(u, p))));
        assert(num(s, q) == 0 ==> t.contains((q.0, q.1, num(u, q))));
        if gv(g, p) == gv(g, q) {
            assert(clash(w, h, k, l));
            if num(s, p) == 0 && num(s, q) == 0 { cover_apart(w, h, y, d, t, k, l); }
            else if num(s, p) == 0 { assert(fits(y, d, k)); fits_empty(s, y, d, k); assert(grow(s, q) == l); assert(num(s, q) != 0); }
            else if num(s, q) == 0 { assert(fits(y, d, l)); fits_empty(s, y, d, l); assert(grow(s, p) == k); assert(num(s, p) != 0);
                reveal(same_box); assert(clash(w, h, l, k)); }
            else {
                assert(it.contains(p) && it.contains(q));
                let i = choose|i: int| 0 <= i < it.len() && it[i] == p;
                let j = choose|j: int| 0 <= j < it.len() && it[j] == q;
                assert(num(s, it[i]) != 0 && num(s, it[j]) != 0);
                assert(grow(s, p) == k && grow(s, q) == l);
            }
        }
    }
}
/// every completion is a cover
pub proof fn completion_covers(s: Sudoku, y: YM, d: Set<Col>, g: Grid)
    requires final_cols(s, y, d), completes(s, g),
    ensures is_cover(y, d, cover_of(s, g)),
{
    broadcast use fields_contains;
    let w = s.bw;
    let h = s.bh;
    let t = cover_of(s, g);
    let it = fields(side(s));
    rows_wf(w, h, y);
    row_contains(w, h, y);
    box_no_facts(w, h);
    assert forall|i: Row| #[trigger] t.contains(i) implies row_ok(w, h, i) && num(s, (i.0, i.1)) == 0 && gv(g, (i.0, i.1)) == i.2 by { cover_of_contains(s, g, i); }
    assert forall|i: Row| #[trigger] t.contains(i) implies fits(y, d, i) by {
        assert(y.dom().contains(i));
        assert forall|c: Col| #[trigger] y[i].contains(c) implies d.contains(c) by {
            if taken(s, y, it, it.len() as int, c) {
                let m = choose|m: int| 0 <= m < it.len() && num(s, #[trigger] it[m]) != 0 && y[grow(s, it[m])].contains(c);
                let q = it[m];
                assert(it.contains(q));
                assert(gv(g, q) == num(s, q));
                shares(w, h, y, i, grow(s, q));
                let p = (i.0, i.1);
                assert(p != q);
                assert(peers(w, h, p, q));
            }
        }
    }
    assert forall|i: Row, k: Row, j: Col| #[trigger] t.contains(i) && #[trigger] t.contains(k) && #[trigger] y[i].contains(j) && y[k].contains(j) implies i == k by {
        shares(w, h, y, i, k);
        assert(clash(w, h, i, k));
        let p = (i.0, i.1);
        let q = (k.0, k.1);
        if p != q { assert(peers(w, h, p, q)); }
    }
    assert forall|j: Col| #[trigger] d.contains(j) implies exists|i: Row| #[trigger] t.contains(i) && y[i].contains(j) by {
        let a = tags(y);
        let kind = if j.0 == a.1 { 0 } else if j.0 == a.2 { 1int } else { 2 };
        let p = if j.0 == a.0 { j.1 } else { unit_has(w, h, kind, j.1.0, g, j.1.1) };
        let k = (p.0, p.1, gv(g, p));
        assert(ingrid(w, h, p));
        assert(row_ok(w, h, k));
        assert(y[k].contains(j));
        if num(s, p) != 0 {
            assert(it.contains(p));
            let m = choose|m: int| 0 <= m < it.len() && it[m] == p;
            assert(num(s, it[m]) != 0);
            assert(grow(s, p) == k);
            assert(taken(s, y, it, it.len() as int, j));
        }
        cover_of_contains(s, g, k);
        assert(t.contains(k));
    }
}
/// the first n covers, shown, are the first n completions
pub open spec fn shown(s: Sudoku, res: Seq<Seq<Row>>, n: int, out: Seq<Sudoku>) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> shows(s, tail(res[i], 0), #[trigger] out[i])
}
pub proof fn all_shown(s: Sudoku, y: YM, d: Set<Col>, res: Seq<Seq<Row>>, out: Seq<Sudoku>)
    requires final_cols(s, y, d), lists_covers(y, d, Seq::empty(), res), shown(s, res, res.len() as int, out),
    ensures lists_comps(s, out),
{
    assert forall|i: int| 0 <= i < out.len() implies completes(s, (#[trigger] out[i]).nums) && tail(res[i], 0) == cover_of(s, out[i].nums) by {
        assert(res.contains(res[i]));
        assert(shows(s, tail(res[i], 0), out[i]));
        cover_completes(s, y, d, tail(res[i], 0), out[i]);
    }
    assert forall|t: Sudoku| #[trigger] out.contains(t) implies solved_from(s, t) by {
        let i = choose|i: int| 0 <= i < out.len() && out[i] == t;
        assert(completes(s, out[i].nums));
    }
    assert forall|g: Grid| #[trigger] completes(s, g) implies exists|t: Sudoku| #[trigger] out.contains(t) && t.nums == g by {
        completion_covers(s, y, d, g);
        let r = choose|r: Seq<Row>| #[trigger] res.contains(r) && tail(r, 0) == cover_of(s, g);
        let i = choose|i: int| 0 <= i < res.len() && res[i] == r;
        let u = out[i];
        assert(completes(s, u.nums));
        assert(cover_of(s, u.nums) == cover_of(s, g));
        assert forall|p: (int, int)| ingrid(s.bw, s.bh, p) implies #[trigger] gv(u.nums, p) == gv(g, p) by {
            if num(s, p) == 0 {
                cover_of_contains(s, g, (p.0, p.1, gv(g, p)));
                cover_of_contains(s, u.nums, (p.0, p.1, gv(g, p)));
            }
        }
        grid_ext(s.bw, s.bh, u.nums, g);
        assert(out.contains(u));
    }
    assert forall|a: int, b: int| 0 <= a < b < out.len() implies (#[trigger] out[a]).nums != (#[trigger] out[b]).nums by {
        assert(tail(res[a], 0) == cover_of(s, out[a].nums));
        assert(tail(res[b], 0) == cover_of(s, out[b].nums));
        assert(tail(res[a], Seq::<Row>::empty().len() as int) != tail(res[b], Seq::<Row>::empty().len() as int));
    }
}

pub broadcast proof fn map_comp_dom<A, K, V>(m: Map<K, V>, s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> (K, V), k: K)
    ensures #[trigger] map_add(m, comp(s, p, f)).dom().contains(k) <==> m.dom().contains(k) || exists|a: A| #[trigger] s.contains(a) && p(a) && f(a).0 == k,
{
    let c = comp(s, p, f);
    map_add_dom(m, c, k);
    if exists|a: A| #[trigger] s.contains(a) && p(a) && f(a).0 == k {
        let a = choose|a: A| #[trigger] s.contains(a) && p(a) && f(a).0 == k;
        comp_contains(s, p, f, (k, f(a).1));
        assert(c.contains((k, f(a).1)));
    }
    if exists|v: V| #[trigger] c.contains((k, v)) {
        let v = choose|v: V| #[trigger] c.contains((k, v));
        comp_contains(s, p, f, (k, v));
    }
}
pub broadcast proof fn map_comp_val<A, K, V>(m: Map<K, V>, s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> (K, V), k: K)
    ensures map_add(m, comp(s, p, f)).dom().contains(k) && !m.dom().contains(k) ==>
        exists|a: A| #[trigger] s.contains(a) && p(a) && f(a) == (k, #[trigger] map_add(m, comp(s, p, f))[k]),
{
    map_add_val(m, comp(s, p, f), k);
    map_add_dom(m, comp(s, p, f), k);
    comp_contains(s, p, f, (k, map_add(m, comp(s, p, f))[k]));
}
pub open spec fn same_tags(y: YM, t: Tags) -> bool { tags(y) == t }
/// the rows, once every entry is known
pub proof fn rows_are(w: int, h: int, y: YM, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    requires dims(w, h), tags_differ((a, b, c, d)), forall|k: Row| #[trigger] y.dom().contains(k) <==> row_ok(w, h, k),
        forall|k: Row| row_ok(w, h, k) ==> #[trigger] y[k] == row4(w, h, (a, b, c, d), k),
    ensures rows_model(w, h, y), tags(y) == (a, b, c, d),
{
    dims_pos(w, h);
    let k: Row = (0, 0, 1);
    assert(ingrid(w, h, (k.0, k.1)));
    assert(row_ok(w, h, k));
    let s = y[k];
    assert(s == row4(w, h, (a, b, c, d), k));
    assert(s[0].0 == a && s[1].0 == b && s[2].0 == c && s[3].0 == d);
}
pub broadcast proof fn box_code(w: int, h: int, r: int, c: int)
    requires dims(w, h), ingrid(w, h, (r, c)),
    ensures #[trigger] box_no(w, h, (r, c)) == (r / h) * h + c / w,
{ }
pub proof fn open_next(s: Sudoku, y: YM, d: Set<Col>, it: Seq<(int, int)>, n: int)
    requires open_cols(s, y, d, it, n), n >= 0,
    ensures num(s, it[n]) == 0 ==> open_cols(s, y, d, it, n + 1),
        num(s, it[n]) != 0 ==> open_cols(s, y, without(d, y[grow(s, it[n])]), it, n + 1),
{
    broadcast use {taken_step, cover_facts};
}
pub open spec fn kept(s: Sudoku, u: Sudoku) -> bool {
    wf(u) && same_dims(s, u) && forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) != 0 ==> num(u, p) == num(s, p)
}
/// the first n rows of it are written to u
pub open spec fn written(u: Sudoku, it: Seq<Row>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> num(u, ((#[trigger] it[k]).0, it[k].1)) == it[k].2
}
pub proof fn write_row(s: Sudoku, y: YM, d: Set<Col>, it: Seq<Row>, n: int, u: Sudoku)
    requires final_cols(s, y, d), is_cover(y, d, tail(it, 0)), 0 <= n < it.len(), kept(s, u), written(u, it, n),
    ensures at(s, (it[n].0, it[n].1)), kept(s, set_num(u, (it[n].0, it[n].1), it[n].2)), written(set_num(u, (it[n].0, it[n].1), it[n].2), it, n + 1),
{
    let k = it[n];
    let t = tail(it, 0);
    let v = set_num(u, (k.0, k.1), k.2);
    tail_contains(it, 0, k);
    assert(t.contains(k));
    assert(fits(y, d, k));
    fits_empty(s, y, d, k);
    set_num_facts(u, (k.0, k.1), k.2);
    assert forall|j: int| 0 <= j < n + 1 implies num(v, ((#[trigger] it[j]).0, it[j].1)) == it[j].2 by {
        let l = it[j];
        tail_contains(it, 0, l);
        assert(fits(y, d, l));
        fits_empty(s, y, d, l);
        if l.0 == k.0 && l.1 == k.1 { cover_apart(s.bw, s.bh, y, d, t, k, l); }
    }
}
pub proof fn written_shows(s: Sudoku, y: YM, d: Set<Col>, it: Seq<Row>, u: Sudoku)
    requires final_cols(s, y, d), is_cover(y, d, tail(it, 0)), kept(s, u), written(u, it, it.len() as int),
    ensures shows(s, tail(it, 0), u),
{
    broadcast use fields_contains;
    let t = tail(it, 0);
    let a = tags(y);
    let fs = fields(side(s));
    row_contains(s.bw, s.bh, y);
    assert forall|p: (int, int)| at(s, p) && #[trigger] num(s, p) == 0 implies t.contains((p.0, p.1, num(u, p))) by {
        let c: Col = (a.0, p);
        if taken(s, y, fs, fs.len() as int, c) {
            let i = choose|i: int| 0 <= i < fs.len() && num(s, #[trigger] fs[i]) != 0 && y[grow(s, fs[i])].contains(c);
            assert(row_ok(s.bw, s.bh, grow(s, fs[i])));
            assert(fs[i] == p);
        }
        assert(d.contains(c));
        let k = choose|k: Row| #[trigger] t.contains(k) && y[k].contains(c);
        assert(fits(y, d, k));
        fits_empty(s, y, d, k);
        tail_contains(it, 0, k);
        let j = choose|j: int| 0 <= j < it.len() && it[j] == k;
        assert(num(u, (it[j].0, it[j].1)) == it[j].2);
    }
}
/// one more field is looked at
pub proof fn given_next(s: Sudoku, y: YM, d: Set<Col>, n: int)
    requires wf(s), rows_model(s.bw, s.bh, y), 0 <= n < fields(side(s)).len(), clean(s, fields(side(s)), n), open_cols(s, y, d, fields(side(s)), n),
    ensures
        num(s, fields(side(s))[n]) == 0 ==> clean(s, fields(side(s)), n + 1) && open_cols(s, y, d, fields(side(s)), n + 1),
        num(s, fields(side(s))[n]) != 0 && fits(y, d, grow(s, fields(side(s))[n])) ==> clean(s, fields(side(s)), n + 1)
            && open_cols(s, y, without(d, y[grow(s, fields(side(s))[n])]), fields(side(s)), n + 1),
        num(s, fields(side(s))[n]) != 0 && !fits(y, d, grow(s, fields(side(s))[n])) ==> lists_comps(s, Seq::empty()),
{
    open_next(s, y, d, fields(side(s)), n);
    if num(s, fields(side(s))[n]) != 0 { given_step(s, y, d, n); } else { given_skip(s, fields(side(s)), n); }
}
pub broadcast group rows_facts { taken_step }
