// needs: text
// The picture of a sudoku.
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

/// the separator of candidates that counts
pub open spec fn view_sep(s: Sudoku, x: Option<Seq<char>>) -> Seq<char> { match x { Some(v) => v, None => if side(s) > 9 { seq![','] } else { Seq::empty() } } }
pub open spec fn cand_text(q: Seq<int>, sep: Seq<char>) -> Seq<char> { str_join(sep, int_strs(q)) }
/// what is written in the field f
pub open spec fn pictured(t: Seq<char>, s: Sudoku, f: (int, int), incl: bool, sep: Seq<char>, pre: Seq<char>) -> bool {
    if num(s, f) != 0 { t == int_str(num(s, f)) }
    else if !incl { t.len() == 0 }
    else { exists|q: Seq<int>| #[trigger] lists_set(q, cand(s, f)) && t == pre.add(cand_text(q, sep)) }
}
pub open spec fn fitted(t: Seq<char>, m: int, right: bool) -> Seq<char> { if right { str_rjust(t, m) } else { str_ljust(t, m) } }
/// x shows the field f in m characters
pub open spec fn shown_in(x: Seq<char>, s: Sudoku, f: (int, int), incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int) -> bool {
    x.len() == m && exists|t: Seq<char>| #[trigger] pictured(t, s, f, incl, sep, pre) && x == fitted(t, m, right)
}
/// the first cells of a row of n fields, a bar after each box but the last
pub open spec fn row_pieces(cells: Seq<Seq<char>>, w: int, n: int) -> Seq<Seq<char>>
    decreases cells.len(),
{
    if cells.len() == 0 { Seq::empty() }
    else {
        let p = row_pieces(cells.drop_last(), w, n).push(cells.last());
        if cells.len() as int % w == 0 && cells.len() < n { p.push(seq!['|']) } else { p }
    }
}
/// a line between boxes: h boxes side by side, w fields of m characters and a blank between them each
pub open spec fn rule_line(w: int, h: int, m: int) -> Seq<char> { str_join(seq!['-', '+', '-'], Seq::new(h as nat, |i: int| str_repeat(seq!['-'], w * m + (w - 1)))) }
/// a line for each of the first rows, a rule after each row of boxes but the last
pub open spec fn picture_lines(rows: Seq<Seq<Seq<char>>>, w: int, h: int, n: int, m: int) -> Seq<Seq<char>>
    decreases rows.len(),
{
    if rows.len() == 0 { Seq::empty() }
    else {
        let p = picture_lines(rows.drop_last(), w, h, n, m).push(str_join(seq![' '], row_pieces(rows.last(), w, n)));
        if rows.len() as int % h == 0 && rows.len() < n { p.push(rule_line(w, h, m)) } else { p }
    }
}
pub open spec fn row_shown(cells: Seq<Seq<char>>, s: Sudoku, r: int, incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int) -> bool {
    forall|c: int| 0 <= c < cells.len() ==> shown_in(#[trigger] cells[c], s, (r, c), incl, sep, pre, right, m)
}
pub open spec fn rows_shown(rows: Seq<Seq<Seq<char>>>, s: Sudoku, incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int) -> bool {
    forall|r: int| 0 <= r < rows.len() ==> (#[trigger] rows[r]).len() == side(s) && row_shown(rows[r], s, r, incl, sep, pre, right, m)
}
/// v is the picture of s
pub open spec fn pictures(v: Seq<char>, s: Sudoku, incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool) -> bool {
    exists|rows: Seq<Seq<Seq<char>>>, m: int| rows.len() == side(s) && #[trigger] rows_shown(rows, s, incl, sep, pre, right, m)
        && v == str_join(seq!['\n'], picture_lines(rows, s.bw, s.bh, side(s), m))
}
// ---- widths ---------------------------------------------------------------
pub open spec fn in_range(s: Sudoku) -> bool { forall|q: (int, int)| at(s, q) ==> 0 <= #[trigger] num(s, q) <= side(s) }
/// m characters are enough for the numbers
pub open spec fn room_nums(m: int, s: Sudoku) -> bool { m >= 0 && forall|v: int| 1 <= v <= side(s) ==> (#[trigger] int_str(v)).len() <= m }
/// m characters are enough for the candidates of f
pub open spec fn room_at(m: int, s: Sudoku, f: (int, int), sep: Seq<char>, pre: Seq<char>) -> bool {
    forall|q: Seq<int>| #[trigger] lists_set(q, cand(s, f)) ==> pre.len() + cand_text(q, sep).len() <= m
}
proof fn text_grows(a: int, b: int)
    requires 0 <= a <= b,
    ensures nat_str(a).len() <= nat_str(b).len(),
    decreases b,
{
    nat_str_is(a);
    nat_str_is(b);
    if a >= 10 { text_grows(a / 10, b / 10); }
}
/// the widths of the numbers: side(s) has the longest text
pub proof fn room_start(s: Sudoku)
    requires wf(s),
    ensures room_nums(int_str(side(s)).len() as int, s), int_str(side(s)).len() > 1 <==> side(s) > 9,
        forall|l: Seq<int>| l.len() == side(s) && (forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == int_str(s.numbers[i]).len()) ==> #[trigger] seq_max(l) == int_str(side(s)).len(),
        seq_max(s.numbers) == side(s), s.numbers.len() == side(s),
{
    dims_pos(s.bw, s.bh);
    nat_str_is(side(s));
    assert forall|v: int| 1 <= v <= side(s) implies (#[trigger] int_str(v)).len() <= int_str(side(s)).len() by { text_grows(v, side(s)); }
    assert forall|l: Seq<int>| l.len() == side(s) && (forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == int_str(s.numbers[i]).len()) implies #[trigger] seq_max(l) == int_str(side(s)).len() by {
        seq_max_is(l);
        let k = choose|k: int| 0 <= k < l.len() && l[k] == seq_max(l);
        assert(s.numbers[k] == k + 1);
        assert(int_str(k + 1).len() <= int_str(side(s)).len());
        assert(s.numbers[side(s) - 1] == side(s));
        assert(l.contains(l[side(s) - 1]));
    }
    seq_max_is(s.numbers);
    assert(s.numbers[side(s) - 1] == side(s));
    assert(s.numbers.contains(s.numbers[side(s) - 1]));
}
pub open spec fn total_len(p: Seq<Seq<char>>) -> int
    decreases p.len(),
{ if p.len() == 0 { 0 } else { total_len(p.drop_last()) + p.last().len() } }
proof fn total_join(x: Seq<char>, p: Seq<Seq<char>>)
    ensures str_join(x, p).len() == if p.len() == 0 { 0 } else { total_len(p) + x.len() * (p.len() - 1) },
    decreases p.len(),
{
    reveal_with_fuel(total_len, 2);
    if p.len() == 1 { assert(p.drop_last().len() == 0); }
    if p.len() > 1 {
        total_join(x, p.drop_last());
        assert(x.len() * (p.len() - 1) == x.len() * (p.len() - 2) + x.len()) by (nonlinear_arith);
    }
}
proof fn total_remove(p: Seq<Seq<char>>, j: int)
    requires 0 <= j < p.len(),
    ensures total_len(p) == total_len(p.remove(j)) + p[j].len(),
    decreases p.len(),
{
    if j < p.len() - 1 {
        total_remove(p.drop_last(), j);
        assert(p.remove(j).drop_last() =~= p.drop_last().remove(j));
    } else { assert(p.remove(j) =~= p.drop_last()); }
}
proof fn total_same(a: Seq<int>, b: Seq<int>)
    requires a.no_duplicates(), b.no_duplicates(), forall|v: int| #[trigger] a.contains(v) <==> b.contains(v),
    ensures a.len() == b.len(), total_len(int_strs(a)) == total_len(int_strs(b)),
    decreases a.len(),
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(int_strs(a) =~= int_strs(b)); }
    else {
        let x = a.last();
        assert(a.contains(a[a.len() - 1]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let c = b.remove(j);
        let d = a.drop_last();
        assert forall|v: int| #[trigger] d.contains(v) <==> c.contains(v) by {
            if d.contains(v) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == v;
                assert(a[i] == v && a[i] != a[a.len() - 1]);
                assert(a.contains(v));
                let k = choose|k: int| 0 <= k < b.len() && b[k] == v;
                if k < j { assert(c[k] == v); } else { assert(c[k - 1] == v); }
            }
            if c.contains(v) {
                let i = choose|i: int| 0 <= i < c.len() && c[i] == v;
                let k = if i < j { i } else { i + 1 };
                assert(b[k] == v && b[k] != b[j]);
                assert(b.contains(v));
                assert(a.contains(v));
                let l = choose|l: int| 0 <= l < a.len() && a[l] == v;
                assert(a[a.len() - 1] == x && a[l] != x && l < d.len());
                assert(d[l] == v);
            }
        }
        total_same(d, c);
        total_remove(int_strs(b), j);
        assert(int_strs(b).remove(j) =~= int_strs(c));
        assert(int_strs(a).drop_last() =~= int_strs(d));
    }
}
/// all listings of the candidates are n characters long
pub open spec fn all_long(c: Set<int>, sep: Seq<char>, n: int) -> bool { forall|q: Seq<int>| #[trigger] lists_set(q, c) ==> cand_text(q, sep).len() == n }
pub broadcast proof fn cand_long(c: Seq<int>, sep: Seq<char>)
    requires c.no_duplicates(),
    ensures all_long(c.to_set(), sep, (#[trigger] cand_text(c, sep)).len() as int),
{
    assert forall|q: Seq<int>| #[trigger] lists_set(q, c.to_set()) implies cand_text(q, sep).len() == cand_text(c, sep).len() by {
        assert forall|v: int| #[trigger] c.contains(v) <==> q.contains(v) by { assert(c.to_set().contains(v) <==> c.contains(v)); }
        total_same(c, q);
        total_join(sep, int_strs(c));
        total_join(sep, int_strs(q));
    }
}
pub proof fn room_for(s: Sudoku, f: (int, int), sep: Seq<char>, pre: Seq<char>, n: int, m: int)
    requires all_long(cand(s, f), sep, n), m >= pre.len() + n,
    ensures room_at(m, s, f, sep, pre),
{ }
pub proof fn room_more(s: Sudoku, f: (int, int), sep: Seq<char>, pre: Seq<char>, m: int, n: int)
    requires room_at(m, s, f, sep, pre), n >= m,
    ensures room_at(n, s, f, sep, pre),
{ }
pub broadcast proof fn cand_comp(sep: Seq<char>, s: Seq<int>, p: spec_fn(int) -> bool, f: spec_fn(int) -> Seq<char>)
    requires forall|x: int| #[trigger] p(x), forall|x: int| #[trigger] f(x) == int_str(x),
    ensures #[trigger] str_join(sep, comp(s, p, f)) == cand_text(s, sep),
{
    broadcast use prelude_facts;
    assert(comp(s, p, f) =~= int_strs(s));
}
pub broadcast proof fn sorted_cands(c: Seq<int>)
    requires c.no_duplicates(),
    ensures lists_set(#[trigger] sort_ints(c), c.to_set()),
{
    sort_ints_is(c);
    let q = sort_ints(c);
    assert forall|v: int| #[trigger] q.contains(v) <==> c.to_set().contains(v) by { assert(q.contains(v) <==> c.contains(v)); }
}
pub broadcast group picture_facts { cand_comp, cand_long, sorted_cands }

proof fn fitted_len(t: Seq<char>, m: int, right: bool)
    requires t.len() <= m,
    ensures fitted(t, m, right).len() == m,
{ repeat_len(seq![' '], m - t.len()); }
proof fn repeat_len(c: Seq<char>, n: int)
    requires c.len() == 1, n >= 0,
    ensures str_repeat(c, n).len() == n,
    decreases n,
{ if n > 0 { repeat_len(c, n - 1); } }
/// every text of the field fits in
pub proof fn cell_shown(s: Sudoku, f: (int, int), incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int)
    requires wf(s), at(s, f), in_range(s), room_nums(m, s), incl && num(s, f) == 0 ==> room_at(m, s, f, sep, pre),
    ensures forall|t: Seq<char>| #[trigger] pictured(t, s, f, incl, sep, pre) ==> shown_in(fitted(t, m, right), s, f, incl, sep, pre, right, m),
        right ==> forall|t: Seq<char>| pictured(t, s, f, incl, sep, pre) ==> shown_in(#[trigger] str_rjust(t, m), s, f, incl, sep, pre, right, m),
        !right ==> forall|t: Seq<char>| pictured(t, s, f, incl, sep, pre) ==> shown_in(#[trigger] str_ljust(t, m), s, f, incl, sep, pre, right, m),
{
    assert forall|t: Seq<char>| #[trigger] pictured(t, s, f, incl, sep, pre) implies shown_in(fitted(t, m, right), s, f, incl, sep, pre, right, m) by {
        assert(t.len() <= m);
        fitted_len(t, m, right);
    }
}
pub proof fn row_more(cells: Seq<Seq<char>>, x: Seq<char>, s: Sudoku, r: int, incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int)
    requires row_shown(cells, s, r, incl, sep, pre, right, m), shown_in(x, s, (r, cells.len() as int), incl, sep, pre, right, m),
    ensures row_shown(cells.push(x), s, r, incl, sep, pre, right, m),
        row_pieces(cells.push(x), s.bw, side(s)) == {
            let p = row_pieces(cells, s.bw, side(s)).push(x);
            if (cells.len() + 1) as int % s.bw == 0 && cells.len() + 1 < side(s) { p.push(seq!['|']) } else { p }
        },
{
    let c = cells.push(x);
    assert(c.drop_last() =~= cells);
    assert forall|k: int| 0 <= k < c.len() implies shown_in(#[trigger] c[k], s, (r, k), incl, sep, pre, right, m) by { if k < cells.len() { assert(c[k] == cells[k]); } }
}
/// the text of the first rows and the line break after them
pub open spec fn picture_part(t: Seq<char>, rows: Seq<Seq<Seq<char>>>, s: Sudoku, m: int) -> bool {
    let p = str_join(seq!['\n'], picture_lines(rows, s.bw, s.bh, side(s), m));
    t == if 0 < rows.len() < side(s) { p.add(seq!['\n']) } else { p }
}
pub proof fn rows_more(t: Seq<char>, u: Seq<char>, rows: Seq<Seq<Seq<char>>>, cells: Seq<Seq<char>>, rule: Seq<char>, s: Sudoku, incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int)
    requires rows_shown(rows, s, incl, sep, pre, right, m), row_shown(cells, s, rows.len() as int, incl, sep, pre, right, m), cells.len() == side(s), rows.len() < side(s),
        picture_part(t, rows, s, m), rule == rule_line(s.bw, s.bh, m).add(seq!['\n']),
    ensures rows_shown(rows.push(cells), s, incl, sep, pre, right, m),
        ({
            let n = rows.len() + 1;
            let a = t.add(str_join(seq![' '], row_pieces(cells, s.bw, side(s))));
            let b = if n < side(s) { a.add(seq!['\n']) } else { a };
            u == (if n as int % s.bh == 0 && n < side(s) { b.add(rule) } else { b })
        }) ==> picture_part(u, rows.push(cells), s, m),
{
    let r2 = rows.push(cells);
    let nl = seq!['\n'];
    assert(r2.drop_last() =~= rows);
    assert forall|r: int| 0 <= r < r2.len() implies (#[trigger] r2[r]).len() == side(s) && row_shown(r2[r], s, r, incl, sep, pre, right, m) by { if r < rows.len() { assert(r2[r] == rows[r]); } }
    let l0 = picture_lines(rows, s.bw, s.bh, side(s), m);
    let line = str_join(seq![' '], row_pieces(cells, s.bw, side(s)));
    let l1 = l0.push(line);
    if rows.len() > 0 { lines_some(rows, s.bw, s.bh, side(s), m); }
    join_push(nl, l0, line);
    join_push(nl, l1, rule_line(s.bw, s.bh, m));
    let n = rows.len() + 1;
    let a = t.add(line);
    assert(a =~= str_join(nl, l1));
    assert(a.add(nl).add(rule) =~= a.add(nl).add(rule_line(s.bw, s.bh, m)).add(nl));
}
proof fn lines_some(rows: Seq<Seq<Seq<char>>>, w: int, h: int, n: int, m: int)
    requires rows.len() > 0,
    ensures picture_lines(rows, w, h, n, m).len() > 0,
{ }
proof fn join_push(x: Seq<char>, p: Seq<Seq<char>>, y: Seq<char>)
    ensures str_join(x, p.push(y)) == if p.len() == 0 { y } else { str_join(x, p).add(x).add(y) },
{ assert(p.push(y).drop_last() =~= p); }
pub proof fn rule_is(w: int, h: int, m: int)
    requires w >= 1,
    ensures forall|y: Seq<char>, x: Seq<Seq<char>>| y =~= seq!['-', '+', '-'] && x.len() == h && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == str_repeat(seq!['-'], w + w * m - 1)) ==> #[trigger] str_join(y, x) == rule_line(w, h, m),
{
    assert forall|y: Seq<char>, x: Seq<Seq<char>>| y =~= seq!['-', '+', '-'] && x.len() == h && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == str_repeat(seq!['-'], w + w * m - 1)) implies #[trigger] str_join(y, x) == rule_line(w, h, m) by {
        assert(x =~= Seq::new(h as nat, |i: int| str_repeat(seq!['-'], w * m + (w - 1))));
    }
}
pub proof fn picture_done(v: Seq<char>, rows: Seq<Seq<Seq<char>>>, s: Sudoku, incl: bool, sep: Seq<char>, pre: Seq<char>, right: bool, m: int)
    requires rows.len() == side(s), rows_shown(rows, s, incl, sep, pre, right, m), picture_part(v, rows, s, m),
    ensures pictures(v, s, incl, sep, pre, right),
{ }
