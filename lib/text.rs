// needs: strings
// needs: sud
// Sudokus as text.
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

/// the characters of string.whitespace
pub open spec fn blanks() -> Seq<char> { seq![' ', '\t', '\n', '\r', '\u{b}', '\u{c}'] }
/// the characters of ws that are not in special
pub open spec fn ignored(ws: Seq<char>, special: Seq<char>) -> Seq<char>
    decreases ws.len(),
{
    if ws.len() == 0 { ws } else if special.contains(ws.last()) { ignored(ws.drop_last(), special) } else { ignored(ws.drop_last(), special).push(ws.last()) }
}
pub open spec fn int_strs(q: Seq<int>) -> Seq<Seq<char>> { Seq::new(q.len(), |i: int| int_str(q[i])) }
pub open spec fn row_parts(s: Sudoku, r: int) -> Seq<Seq<char>> { Seq::new(side(s) as nat, |c: int| int_str(num(s, (r, c)))) }
pub open spec fn row_texts(s: Sudoku, cx: Seq<char>) -> Seq<Seq<char>> { Seq::new(side(s) as nat, |r: int| str_join(cx, row_parts(s, r))) }
/// the numbers, cx between columns and rx between rows
pub open spec fn num_text(s: Sudoku, rx: Seq<char>, cx: Seq<char>) -> Seq<char> { str_join(rx, row_texts(s, cx)) }
/// the numbers of a set in increasing order
pub open spec fn lists_set(q: Seq<int>, cs: Set<int>) -> bool { is_sorted(q) && q.no_duplicates() && forall|v: int| #[trigger] q.contains(v) <==> cs.contains(v) }
pub open spec fn cell_text(t: Seq<char>, cs: Set<int>) -> bool { exists|q: Seq<int>| #[trigger] lists_set(q, cs) && t == str_join(Seq::empty(), int_strs(q)) }
pub open spec fn cell_texts(s: Sudoku, ct: Seq<Seq<char>>) -> bool {
    ct.len() == fields(side(s)).len() && forall|k: int| 0 <= k < ct.len() ==> cell_text(#[trigger] ct[k], cand(s, fields(side(s))[k]))
}
/// what encode writes
pub open spec fn encodes(s: Sudoku, rx: Seq<char>, cx: Seq<char>, incl: bool, t: Seq<char>) -> bool {
    if incl { exists|ct: Seq<Seq<char>>| #[trigger] cell_texts(s, ct) && t == num_text(s, rx, cx).add(seq!['|']).add(str_join(seq![','], ct)) }
    else { t == num_text(s, rx, cx) }
}
/// the text of each field, e for an empty one
pub open spec fn field_text(v: int, e: Seq<char>) -> Seq<char> { if v == 0 { e } else { int_str(v) } }
pub open spec fn field_texts(s: Sudoku, e: Seq<char>) -> Seq<Seq<char>> { Seq::new(fields(side(s)).len(), |k: int| field_text(num(s, fields(side(s))[k]), e)) }
pub open spec fn digit_free(x: Seq<char>) -> bool { forall|c: char| is_digit(c) ==> !#[trigger] x.contains(c) }
pub open spec fn small(v: int) -> bool { 0 <= v <= 9 }
/// the sudokus whose text can be read back: x between the fields, e for an empty one, sx before the candidates, cx between them
pub open spec fn readable(s: Sudoku, e: Seq<char>, x: Seq<char>, sx: Seq<char>, cx: Seq<char>, incl: bool) -> bool {
    &&& e.len() > 0 && sx.len() > 0 && cx.len() > 0
    &&& digit_free(sx) && digit_free(cx) && apart(e, sx) && apart(x, sx)
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) >= 0 && (num(s, q) != 0 ==> int_str(num(s, q)) != e)
    &&& x.len() == 0 ==> e.len() == 1 && forall|q: (int, int)| at(s, q) ==> small(#[trigger] num(s, q))
    &&& x.len() > 0 ==> digit_free(x) && apart(e, x) && !incl
    &&& incl ==> forall|q: (int, int), v: int| at(s, q) && #[trigger] cand(s, q).contains(v) ==> small(v)
}
/// the text t, white space aside, lists the fields of s
pub open spec fn body(s: Sudoku, e: Seq<char>, x: Seq<char>, sx: Seq<char>, cx: Seq<char>, incl: bool, t: Seq<char>) -> bool {
    if incl { exists|ct: Seq<Seq<char>>| #[trigger] cell_texts(s, ct) && t == str_join(x, field_texts(s, e)).add(sx).add(str_join(cx, ct)) }
    else { t == str_join(x, field_texts(s, e)) }
}
/// a text that decode reads
pub open spec fn spells(s: Sudoku, e: Seq<char>, x: Seq<char>, sx: Seq<char>, cx: Seq<char>, incl: bool, t: Seq<char>) -> bool {
    body(s, e, x, sx, cx, incl, spread(str_strip(t), ignored(blanks(), e.add(sx).add(cx).add(x)), x))
}

pub open spec fn sep_of(x: Option<Seq<char>>) -> Seq<char> { match x { Some(v) => v, None => Seq::empty() } }
pub proof fn sorted_list(q: Seq<int>, c: Seq<int>, cs: Set<int>)
    requires perm(q, c), is_sorted(q), c.no_duplicates(), forall|v: int| #[trigger] c.contains(v) <==> cs.contains(v),
    ensures lists_set(q, cs),
{
    assert forall|v: int| #[trigger] q.contains(v) <==> cs.contains(v) by { assert(q.contains(v) <==> c.contains(v)); }
}
pub proof fn marks(e: Seq<char>, sx: Seq<char>, cx: Seq<char>, x: Seq<char>, special: Seq<char>)
    requires special == e.add(sx).add(cx).add(x) || (x.len() == 0 && special == e.add(sx).add(cx)),
    ensures special == e.add(sx).add(cx).add(x), forall|c: char| x.contains(c) ==> #[trigger] special.contains(c),
{
    assert(special =~= e.add(sx).add(cx).add(x));
    assert forall|c: char| x.contains(c) implies #[trigger] special.contains(c) by { in_concat(e.add(sx).add(cx), x, c); }
}
pub proof fn area_root(n: int)
    requires n >= 0,
    ensures root(n * n) == n as real, root(n * n).floor() == n,
{
    assert(n * n >= 0) by (nonlinear_arith) requires n >= 0;
    root_of_square(n * n, n);
}
pub proof fn field_no(n: int, k: int, row: int, col: int)
    requires n >= 1, 0 <= k < n * n, 0 <= col < n, k == row * n + col, row >= 0,
    ensures fields(n)[k] == (row, col), row < n, forall|j: int| 0 <= j < k ==> #[trigger] fields(n)[j] != (row, col),
{
    fields_index(n);
    lemma_fundamental_div_mod_converse(k, n, row, col);
    block_inside(k, n, n);
    fields_nodup(n);
    assert forall|j: int| 0 <= j < k implies #[trigger] fields(n)[j] != (row, col) by { assert(fields(n)[j] != fields(n)[k]); }
}
pub proof fn next_row(n: int, row: int, col: int)
    requires n >= 1,
    ensures (row + 1) * n + 0 == row * n + n, n * n == (n - 1) * n + n, row >= n ==> row * n >= n * n,
{
    assert((row + 1) * n == row * n + n && n * n == (n - 1) * n + n) by (nonlinear_arith);
    if row >= n { assert(row * n >= n * n) by (nonlinear_arith) requires row >= n, n >= 1; }
}

pub proof fn nums_all(a: Sudoku, b: Sudoku, k: int)
    requires wf(a), wf(b), same_dims(a, b), k >= side(b) * side(b),
        forall|j: int| 0 <= j < k ==> num(a, #[trigger] fields(side(b))[j]) == num(b, fields(side(b))[j]),
    ensures same_nums(a, b),
{
    dims_pos(b.bw, b.bh);
    fields_index(side(b));
    assert forall|q: (int, int)| at(a, q) implies #[trigger] num(a, q) == num(b, q) by {
        fields_contains(side(b), q);
        let j = choose|j: int| 0 <= j < fields(side(b)).len() && fields(side(b))[j] == q;
    }
}
pub proof fn cands_all(a: Sudoku, b: Sudoku, k: int)
    requires wf(a), wf(b), same_dims(a, b), k >= side(b) * side(b),
        forall|j: int| 0 <= j < k ==> cand(a, #[trigger] fields(side(b))[j]) == cand(b, fields(side(b))[j]),
    ensures same_cands(a, b),
{
    dims_pos(b.bw, b.bh);
    fields_index(side(b));
    assert forall|q: (int, int)| at(a, q) implies #[trigger] cand(a, q) == cand(b, q) by {
        fields_contains(side(b), q);
        let j = choose|j: int| 0 <= j < fields(side(b)).len() && fields(side(b))[j] == q;
    }
}
/// an empty candidate part: there is one field, and it has no candidates
pub proof fn no_cells(s: Sudoku, cx: Seq<char>, ct: Seq<Seq<char>>)
    requires wf(s), cell_texts(s, ct), cx.len() > 0, str_join(cx, ct).len() == 0, small_candidates(s),
    ensures forall|q: (int, int)| at(s, q) ==> #[trigger] cand(s, q) == Set::<int>::empty(),
{
    let n = side(s);
    dims_pos(s.bw, s.bh);
    fields_index(n);
    assert(n * n > 0) by (nonlinear_arith) requires n > 0;
    assert(ct.len() == n * n);
    if ct.len() > 1 { assert(str_join(cx, ct).len() >= cx.len()); }
    assert forall|q: (int, int)| at(s, q) implies #[trigger] cand(s, q) == Set::<int>::empty() by {
        fields_contains(n, q);
        let j = choose|j: int| 0 <= j < fields(n).len() && fields(n)[j] == q;
        assert(cell_text(ct[j], cand(s, q)));
        assert(digit_free(seq!['|'])) by { assert forall|c: char| is_digit(c) implies !#[trigger] seq!['|'].contains(c) by { assert(seq!['|'][0] == '|'); } }
        cell_text_is(ct[j], cand(s, q), seq!['|']);
        assert(cand(s, q) =~= Set::<int>::empty()) by {
            assert forall|v: int| !cand(s, q).contains(v) by { if cand(s, q).contains(v) { let i = choose|i: int| 0 <= i < chars_of(ct[j]).len() && chars_of(ct[j])[i] == int_str(v); } }
        }
    }
}
proof fn in_concat(a: Seq<char>, b: Seq<char>, c: char)
    ensures a.add(b).contains(c) <==> a.contains(c) || b.contains(c),
{
    let s = a.add(b);
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(s[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert(s[a.len() + i] == c); }
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); } }
}

pub proof fn contains_one(s: Seq<char>, c: char)
    ensures str_contains(s, seq![c]) <==> s.contains(c),
{
    let x = seq![c];
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.subrange(i, i + 1) =~= x); assert(occurs(s, x, i)); }
    if str_contains(s, x) { let i = choose|i: int| #[trigger] occurs(s, x, i); assert(s.subrange(i, i + 1)[0] == c); assert(s[i] == c); }
}
/// the next white space character is replaced (or left, if it means something)
pub proof fn blank_step(s: Seq<char>, k: int, special: Seq<char>, x: Seq<char>)
    requires 0 <= k < blanks().len(), forall|c: char| x.contains(c) ==> #[trigger] special.contains(c),
    ensures ({
        let c = chars_of(blanks())[k];
        let a = spread(s, ignored(blanks().take(k), special), x);
        let b = spread(s, ignored(blanks().take(k + 1), special), x);
        (str_contains(special, c) ==> b == a) && (!str_contains(special, c) ==> b == str_replace(a, c, x))
    }),
{
    let c = blanks()[k];
    assert(chars_of(blanks())[k] =~= seq![c]);
    contains_one(special, c);
    assert(blanks().take(k + 1).drop_last() =~= blanks().take(k));
    assert(blanks().take(k + 1).last() == c);
    let i = ignored(blanks().take(k), special);
    if !special.contains(c) {
        spread_more(s, i, c, x);
        replace_one(spread(s, i, x), c, x);
    }
}
pub proof fn blank_start(s: Seq<char>, special: Seq<char>, x: Seq<char>)
    ensures spread(s, ignored(blanks().take(0), special), x) == s, blanks().take(blanks().len() as int) == blanks(),
{
    assert(blanks().take(0) =~= Seq::<char>::empty());
    spread_none(s, Seq::empty(), x);
    assert(blanks().take(blanks().len() as int) =~= blanks());
}
/// only the set of special characters counts
pub proof fn ignored_same(ws: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires forall|c: char| a.contains(c) <==> #[trigger] b.contains(c),
    ensures ignored(ws, a) == ignored(ws, b),
    decreases ws.len(),
{ if ws.len() > 0 { ignored_same(ws.drop_last(), a, b); } }

pub proof fn digits_apart(t: Seq<char>, x: Seq<char>)
    requires digits(t), digit_free(x),
    ensures apart(t, x),
{ assert forall|i: int| 0 <= i < t.len() implies !x.contains(#[trigger] t[i]) by { assert(is_digit(t[i])); } }
/// the texts of the fields and their sum
pub proof fn field_texts_are(s: Sudoku, e: Seq<char>, x: Seq<char>, sx: Seq<char>, cx: Seq<char>, incl: bool)
    requires wf(s), readable(s, e, x, sx, cx, incl),
    ensures ({
        let p = field_texts(s, e);
        &&& p.len() == side(s) * side(s)
        &&& p.len() > 0
        &&& x.len() > 0 ==> str_split(str_join(x, p), x) == p
        &&& x.len() == 0 ==> chars_of(str_join(x, p)) == p
        &&& apart(str_join(x, p), sx)
        &&& forall|k: int| 0 <= k < p.len() ==> {
            let v = num(s, #[trigger] fields(side(s))[k]);
            if p[k] == e { v == 0 } else { is_int_str(p[k]) && str_int(p[k]) == v }
        }
    }),
{
    let n = side(s);
    let p = field_texts(s, e);
    dims_pos(s.bw, s.bh);
    fields_index(n);
    assert(n * n > 0) by (nonlinear_arith) requires n > 0;
    assert forall|k: int| 0 <= k < p.len() implies ({
            let v = num(s, #[trigger] fields(n)[k]);
            if p[k] == e { v == 0 } else { is_int_str(p[k]) && str_int(p[k]) == v }
        }) && apart(p[k], sx) && (x.len() > 0 ==> apart(p[k], x)) && (x.len() == 0 ==> p[k].len() == 1) by {
        let q = fields(n)[k];
        assert(fields(n).contains(q));
        fields_contains(n, q);
        assert(at(s, q));
        let v = num(s, q);
        assert(p[k] == field_text(v, e));
        int_of_str(v);
        if v != 0 { digits_apart(p[k], sx); if x.len() > 0 { digits_apart(p[k], x); } }
    }
    if x.len() > 0 {
        assert forall|k: int| 0 <= k < p.len() implies apart(#[trigger] p[k], x) by { let q = fields(n)[k]; }
        split_join(x, p);
    } else {
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).len() == 1 by { let q = fields(n)[k]; }
        assert(x =~= Seq::<char>::empty());
        join_chars(p);
    }
    let ok = |c: char| !sx.contains(c);
    assert forall|k: int, i: int| 0 <= k < p.len() && 0 <= i < p[k].len() implies #[trigger] ok(p[k][i]) by { let q = fields(n)[k]; assert(apart(p[k], sx)); }
    join_all(x, p, ok);
    let t = str_join(x, p);
    assert forall|i: int| 0 <= i < t.len() implies !sx.contains(#[trigger] t[i]) by { assert(ok(t[i])); }
}
/// the text of a set of digits
pub proof fn cell_text_is(t: Seq<char>, cs: Set<int>, cx: Seq<char>)
    requires cell_text(t, cs), forall|v: int| #[trigger] cs.contains(v) ==> small(v), digit_free(cx),
    ensures apart(t, cx), str_strip(t) == t,
        forall|a: Seq<char>| #[trigger] chars_of(t).contains(a) ==> is_int_str(a) && cs.contains(str_int(a)),
        forall|v: int| #[trigger] cs.contains(v) ==> chars_of(t).contains(int_str(v)) && str_int(int_str(v)) == v,
{
    let q = choose|q: Seq<int>| #[trigger] lists_set(q, cs) && t == str_join(Seq::empty(), int_strs(q));
    let p = int_strs(q);
    assert forall|k: int| 0 <= k < q.len() implies small(#[trigger] q[k]) && cs.contains(q[k]) && p[k] == seq![digit(q[k])] && is_int_str(p[k]) && str_int(p[k]) == q[k] && is_digit(p[k][0]) by {
        assert(q.contains(q[k]));
        assert(cs.contains(q[k]));
        int_of_str(q[k]);
    }
    assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).len() == 1 by { assert(small(q[k])); }
    join_chars(p);
    assert(chars_of(t) == p);
    assert forall|a: Seq<char>| #[trigger] chars_of(t).contains(a) implies is_int_str(a) && cs.contains(str_int(a)) by {
        let k = choose|k: int| 0 <= k < p.len() && p[k] == a;
        assert(small(q[k]));
    }
    assert forall|v: int| #[trigger] cs.contains(v) implies chars_of(t).contains(int_str(v)) && str_int(int_str(v)) == v by {
        assert(q.contains(v));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == v;
        assert(small(q[k]));
        assert(p[k] == int_str(v));
        int_of_str(v);
    }
    assert forall|i: int| 0 <= i < t.len() implies is_digit(#[trigger] t[i]) by {
        assert(chars_of(t)[i] == p[i]);
        assert(seq![t[i]] == p[i]);
        assert(small(q[i]));
        assert(p[i][0] == t[i]);
    }
    assert forall|i: int| 0 <= i < t.len() implies !cx.contains(#[trigger] t[i]) by { assert(is_digit(t[i])); }
    strip_none(t);
}
pub proof fn cell_texts_are(s: Sudoku, e: Seq<char>, x: Seq<char>, sx: Seq<char>, cx: Seq<char>, ct: Seq<Seq<char>>)
    requires wf(s), readable(s, e, x, sx, cx, true), cell_texts(s, ct),
    ensures str_split(str_join(cx, ct), cx) == ct,
        forall|k: int| 0 <= k < ct.len() ==> {
            let cs = cand(s, fields(side(s))[k]);
            let t = #[trigger] ct[k];
            &&& str_strip(t) == t
            &&& forall|a: Seq<char>| #[trigger] chars_of(t).contains(a) ==> is_int_str(a) && cs.contains(str_int(a))
            &&& forall|v: int| #[trigger] cs.contains(v) ==> chars_of(t).contains(int_str(v)) && str_int(int_str(v)) == v
        },
{
    let n = side(s);
    dims_pos(s.bw, s.bh);
    fields_index(n);
    assert(n * n > 0) by (nonlinear_arith) requires n > 0;
    assert forall|k: int| 0 <= k < ct.len() implies apart(#[trigger] ct[k], cx) && ({
            let cs = cand(s, fields(side(s))[k]);
            let t = ct[k];
            &&& str_strip(t) == t
            &&& forall|a: Seq<char>| #[trigger] chars_of(t).contains(a) ==> is_int_str(a) && cs.contains(str_int(a))
            &&& forall|v: int| #[trigger] cs.contains(v) ==> chars_of(t).contains(int_str(v)) && str_int(int_str(v)) == v
        }) by {
        let q = fields(n)[k];
        assert(fields(n).contains(q));
        fields_contains(n, q);
        assert(at(s, q));
        cell_text_is(ct[k], cand(s, q), cx);
    }
    split_join(cx, ct);
}

proof fn join_rows(s: Sudoku, x: Seq<char>, k: int)
    requires wf(s), 1 <= k <= side(s),
    ensures str_join(x, row_texts(s, x).take(k)) == str_join(x, field_texts(s, seq!['0']).take(k * side(s))),
    decreases k,
{
    let n = side(s);
    let p = field_texts(s, seq!['0']);
    let t = row_texts(s, x);
    dims_pos(s.bw, s.bh);
    fields_index(n);
    assert(n * n > 0 && k * n <= n * n) by (nonlinear_arith) requires n > 0, k <= n;
    assert(k * n == (k - 1) * n + n && (k - 1) * n >= 0) by (nonlinear_arith) requires n > 0, k >= 1;
    let a = p.take((k - 1) * n);
    let b = row_parts(s, k - 1);
    assert forall|c: int| 0 <= c < n implies p[(k - 1) * n + c] == b[c] by {
        let i = (k - 1) * n + c;
        lemma_fundamental_div_mod_converse(i, n, k - 1, c);
        assert(fields(n)[i] == (k - 1, c));
        int_of_str(0);
    }
    assert(p.take(k * n) =~= a.add(b));
    if k == 1 {
        assert((k - 1) * n == 0) by (nonlinear_arith) requires k == 1;
        assert(a =~= Seq::<Seq<char>>::empty());
        assert(a.add(b) =~= b);
        assert(t.take(1) =~= seq![str_join(x, b)]);
        join_one(x, str_join(x, b));
    } else {
        join_rows(s, x, k - 1);
        join_add(x, a, b);
        assert(t.take(k).drop_last() =~= t.take(k - 1));
        assert(t.take(k).last() == str_join(x, b));
    }
}
/// all the numbers in one row of texts
pub proof fn join_all_rows(s: Sudoku, x: Seq<char>)
    requires wf(s),
    ensures num_text(s, x, x) == str_join(x, field_texts(s, seq!['0'])),
{
    let n = side(s);
    dims_pos(s.bw, s.bh);
    fields_index(n);
    join_rows(s, x, n);
    assert(row_texts(s, x).take(n) =~= row_texts(s, x));
    assert(field_texts(s, seq!['0']).take(n * n) =~= field_texts(s, seq!['0']));
}
/// replacing white space in the number part
pub proof fn spread_numbers(s: Sudoku, rx: Seq<char>, cx: Seq<char>, cs: Seq<char>, y: Seq<char>)
    requires wf(s), digit_free(cs), forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) >= 0,
        spread(rx, cs, y) == y, spread(cx, cs, y) == y,
    ensures spread(num_text(s, rx, cx), cs, y) == str_join(y, field_texts(s, seq!['0'])),
{
    let n = side(s);
    dims_pos(s.bw, s.bh);
    let t = row_texts(s, cx);
    spread_join(rx, t, cs, y);
    let u = Seq::new(t.len(), |i: int| spread(t[i], cs, y));
    assert forall|r: int| 0 <= r < n implies u[r] == #[trigger] row_texts(s, y)[r] by {
        let p = row_parts(s, r);
        spread_join(cx, p, cs, y);
        let v = Seq::new(p.len(), |i: int| spread(p[i], cs, y));
        assert forall|c: int| 0 <= c < n implies v[c] == p[c] by {
            assert(at(s, (r, c)));
            int_of_str(num(s, (r, c)));
            digits_apart(p[c], cs);
            spread_none(p[c], cs, y);
        }
        assert(v =~= p);
    }
    assert(u =~= row_texts(s, y));
    join_all_rows(s, y);
}
proof fn no_zero(s: Sudoku)
    requires forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) >= 0,
    ensures forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 ==> int_str(num(s, q)) != seq!['0'],
{
    assert forall|q: (int, int)| at(s, q) && #[trigger] num(s, q) != 0 implies int_str(num(s, q)) != seq!['0'] by {
        int_of_str(num(s, q));
        int_of_str(0);
        assert(digit(0) == '0');
    }
}
pub open spec fn small_numbers(s: Sudoku) -> bool { forall|q: (int, int)| at(s, q) ==> small(#[trigger] num(s, q)) }
pub open spec fn small_candidates(s: Sudoku) -> bool { forall|q: (int, int), v: int| at(s, q) && #[trigger] cand(s, q).contains(v) ==> small(v) }
pub open spec fn only_blanks(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> blanks().contains(#[trigger] x[i]) }
proof fn blanks_are(c: char)
    ensures blanks().contains(c) <==> c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{b}' || c == '\u{c}',
        blanks().contains(c) ==> is_space(c) && !is_digit(c),
{
    let b = blanks();
    assert(b[0] == ' ' && b[1] == '\t' && b[2] == '\n' && b[3] == '\r' && b[4] == '\u{b}' && b[5] == '\u{c}');
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert(0 <= i < 6); }
}
proof fn drop_blanks(x: Seq<char>, ws: Seq<char>)
    requires forall|i: int| 0 <= i < x.len() ==> ws.contains(#[trigger] x[i]),
    ensures sans(x, ws) == Seq::<char>::empty(),
    decreases x.len(),
{
    if x.len() > 0 {
        assert forall|i: int| 0 <= i < x.skip(1).len() implies ws.contains(#[trigger] x.skip(1)[i]) by { assert(ws.contains(x[i + 1])); }
        drop_blanks(x.skip(1), ws);
        assert(ws.contains(x[0]));
        assert(sans(x, ws) =~= Seq::<char>::empty());
    } else { assert(x =~= Seq::<char>::empty()); }
}
pub proof fn ignored_all(ws: Seq<char>, special: Seq<char>)
    requires forall|i: int| 0 <= i < ws.len() ==> !special.contains(#[trigger] ws[i]),
    ensures ignored(ws, special) == ws,
    decreases ws.len(),
{
    if ws.len() > 0 {
        let d = ws.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !special.contains(#[trigger] d[i]) by { assert(!special.contains(ws[i])); }
        ignored_all(d, special);
        assert(!special.contains(ws[ws.len() - 1]));
        assert(d.push(ws.last()) =~= ws);
    }
}
proof fn ignored_in(ws: Seq<char>, special: Seq<char>, c: char)
    ensures ignored(ws, special).contains(c) <==> ws.contains(c) && !special.contains(c),
    decreases ws.len(),
{
    if ws.len() > 0 {
        let d = ws.drop_last();
        let i = ignored(d, special);
        ignored_in(d, special, c);
        assert(ws =~= d.push(ws.last()));
        assert(ws.contains(c) <==> d.contains(c) || c == ws.last()) by {
            if d.contains(c) { let k = choose|k: int| 0 <= k < d.len() && d[k] == c; assert(ws[k] == c); }
            assert(ws[ws.len() - 1] == ws.last());
            if ws.contains(c) && c != ws.last() { let k = choose|k: int| 0 <= k < ws.len() && ws[k] == c; assert(d[k] == c); }
        }
        let j = i.push(ws.last());
        assert(j.contains(c) <==> i.contains(c) || c == ws.last()) by {
            if i.contains(c) { let k = choose|k: int| 0 <= k < i.len() && i[k] == c; assert(j[k] == c); }
            assert(j[i.len() as int] == ws.last());
            if j.contains(c) && c != ws.last() { let k = choose|k: int| 0 <= k < j.len() && j[k] == c; assert(i[k] == c); }
        }
    }
}
proof fn default_marks(x: Seq<char>, c: char)
    ensures seq!['0'].add(seq!['|']).add(seq![',']).add(x).contains(c) <==> c == '0' || c == '|' || c == ',' || x.contains(c),
{
    in_concat(seq!['0'].add(seq!['|']).add(seq![',']), x, c);
    in_concat(seq!['0'].add(seq!['|']), seq![','], c);
    in_concat(seq!['0'], seq!['|'], c);
    assert(seq!['0'][0] == '0' && seq!['|'][0] == '|' && seq![','][0] == ',');
}
/// ROUND TRIP: an encoding with white space between rows and columns, and any white space inserted into it, is read back as the same sudoku
pub proof fn round_trip_plain(s: Sudoku, rx: Seq<char>, cx: Seq<char>, incl: bool, t: Seq<char>, u: Seq<char>)
    requires wf(s), small_numbers(s), incl ==> small_candidates(s), only_blanks(rx), only_blanks(cx),
        encodes(s, rx, cx, incl, t), sans(u, blanks()) == sans(t, blanks()),
    ensures readable(s, seq!['0'], Seq::empty(), seq!['|'], seq![','], incl), spells(s, seq!['0'], Seq::empty(), seq!['|'], seq![','], incl, u),
{
    let y = Seq::<char>::empty();
    let e = seq!['0'];
    let sx = seq!['|'];
    let cs = seq![','];
    let b = blanks();
    assert forall|q: (int, int)| at(s, q) implies #[trigger] num(s, q) >= 0 by { assert(small(num(s, q))); }
    no_zero(s);
    assert(readable(s, e, y, sx, cs, incl)) by {
        assert forall|c: char| is_digit(c) implies !#[trigger] sx.contains(c) by { assert(sx[0] == '|'); }
        assert forall|c: char| is_digit(c) implies !#[trigger] cs.contains(c) by { assert(cs[0] == ','); }
        assert(!sx.contains('0'));
    }
    assert(digit_free(b)) by { assert forall|c: char| is_digit(c) implies !#[trigger] b.contains(c) by { blanks_are(c); } }
    drop_blanks(rx, b);
    drop_blanks(cx, b);
    spread_numbers(s, rx, cx, b, y);
    let special = e.add(sx).add(cs).add(y);
    assert forall|i: int| 0 <= i < b.len() implies !special.contains(#[trigger] b[i]) by { default_marks(y, b[i]); blanks_are(b[i]); assert(b.contains(b[i])); }
    ignored_all(b, special);
    let p = str_join(y, field_texts(s, e));
    assert(apart(sx, b)) by { blanks_are('|'); }
    assert(apart(cs, b)) by { blanks_are(','); }
    if incl {
        let ct = choose|ct: Seq<Seq<char>>| #[trigger] cell_texts(s, ct) && t == num_text(s, rx, cx).add(seq!['|']).add(str_join(seq![','], ct));
        cell_texts_are(s, e, y, sx, cs, ct);
        let k = str_join(cs, ct);
        spread_add(num_text(s, rx, cx).add(sx), k, b, y);
        spread_add(num_text(s, rx, cx), sx, b, y);
        spread_none(sx, b, y);
        cells_no_blanks(s, ct);
        spread_none(k, b, y);
        assert(sans(t, b) == p.add(sx).add(k));
    }
    let w = sans(t, b);
    assert(body(s, e, y, sx, cs, incl, w));
    assert forall|i: int| 0 <= i < w.len() implies !is_space(#[trigger] w[i]) by { text_no_space(s, y, incl, w, i); }
    strip_without(u, b);
}
/// the candidate part holds no white space
proof fn cells_no_blanks(s: Sudoku, ct: Seq<Seq<char>>)
    requires wf(s), small_candidates(s), cell_texts(s, ct),
    ensures apart(str_join(seq![','], ct), blanks()),
        forall|i: int| 0 <= i < str_join(seq![','], ct).len() ==> !is_space(#[trigger] str_join(seq![','], ct)[i]),
{
    let cs = seq![','];
    let n = side(s);
    let b = blanks();
    dims_pos(s.bw, s.bh);
    fields_index(n);
    let ok = |c: char| is_digit(c) || c == ',';
    assert forall|k: int, i: int| 0 <= k < ct.len() && 0 <= i < ct[k].len() implies #[trigger] ok(ct[k][i]) by {
        let q = fields(n)[k];
        assert(fields(n).contains(q));
        fields_contains(n, q);
        assert(at(s, q));
        assert(digit_free(cs)) by { assert forall|c: char| is_digit(c) implies !#[trigger] cs.contains(c) by { assert(cs[0] == ','); } }
        cell_text_is(ct[k], cand(s, q), cs);
        let t = ct[k];
        let a = seq![t[i]];
        assert(chars_of(t)[i] == a);
        assert(chars_of(t).contains(a));
        let v = str_int(a);
        assert(cand(s, q).contains(v));
        cell_digit(t, cand(s, q), i);
    }
    join_all(cs, ct, ok);
    let t = str_join(cs, ct);
    assert forall|i: int| 0 <= i < t.len() implies !b.contains(#[trigger] t[i]) && !is_space(t[i]) by { assert(ok(t[i])); blanks_are(t[i]); }
}
proof fn cell_digit(t: Seq<char>, cs: Set<int>, i: int)
    requires cell_text(t, cs), forall|v: int| #[trigger] cs.contains(v) ==> small(v), 0 <= i < t.len(),
    ensures is_digit(t[i]),
{
    let q = choose|q: Seq<int>| #[trigger] lists_set(q, cs) && t == str_join(Seq::empty(), int_strs(q));
    let p = int_strs(q);
    let ok = |c: char| is_digit(c);
    assert forall|k: int, j: int| 0 <= k < p.len() && 0 <= j < p[k].len() implies #[trigger] ok(p[k][j]) by {
        assert(q.contains(q[k]));
        assert(cs.contains(q[k]));
        int_of_str(q[k]);
        assert(is_digit(p[k][j]));
    }
    join_all(Seq::empty(), p, ok);
    assert(ok(t[i]));
}
proof fn text_no_space(s: Sudoku, y: Seq<char>, incl: bool, w: Seq<char>, i: int)
    requires wf(s), y.len() == 0, 0 <= i < w.len(), body(s, seq!['0'], y, seq!['|'], seq![','], incl, w), small_numbers(s), incl ==> small_candidates(s),
    ensures !is_space(w[i]),
{
    let e = seq!['0'];
    let n = side(s);
    dims_pos(s.bw, s.bh);
    fields_index(n);
    let p = field_texts(s, e);
    let ok = |c: char| is_digit(c);
    assert forall|k: int, j: int| 0 <= k < p.len() && 0 <= j < p[k].len() implies #[trigger] ok(p[k][j]) by {
        let q = fields(n)[k];
        assert(fields(n).contains(q));
        fields_contains(n, q);
        assert(at(s, q));
        assert(small(num(s, q)));
        int_of_str(num(s, q));
        assert(is_digit(p[k][j]));
    }
    join_all(y, p, ok);
    let t = str_join(y, p);
    if i < t.len() { assert(ok(t[i])); assert(w[i] == t[i]); }
    else {
        let ct = choose|ct: Seq<Seq<char>>| #[trigger] cell_texts(s, ct) && w == t.add(seq!['|']).add(str_join(seq![','], ct));
        cells_no_blanks(s, ct);
        if i > t.len() { assert(w[i] == str_join(seq![','], ct)[i - t.len() - 1]); } else { assert(w[i] == '|'); }
    }
}
/// a row or column separator that is the number separator or one character of white space
pub open spec fn sep_or_blank(r: Seq<char>, x: Seq<char>) -> bool { r == x || (r.len() == 1 && blanks().contains(r[0]) && !x.contains(r[0])) }
/// ROUND TRIP: numbers of any length with a number separator
pub proof fn round_trip_separated(s: Sudoku, rx: Seq<char>, cx: Seq<char>, x: Seq<char>, t: Seq<char>)
    requires wf(s), forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) >= 0,
        x.len() > 0, digit_free(x), !x.contains('|'), sep_or_blank(rx, x), sep_or_blank(cx, x),
        encodes(s, rx, cx, false, t),
    ensures readable(s, seq!['0'], x, seq!['|'], seq![','], false), spells(s, seq!['0'], x, seq!['|'], seq![','], false, t),
{
    let e = seq!['0'];
    let sx = seq!['|'];
    let cs = seq![','];
    no_zero(s);
    assert(readable(s, e, x, sx, cs, false)) by {
        assert forall|c: char| is_digit(c) implies !#[trigger] sx.contains(c) by { assert(sx[0] == '|'); }
        assert forall|c: char| is_digit(c) implies !#[trigger] cs.contains(c) by { assert(cs[0] == ','); }
        assert(!sx.contains('0'));
        assert forall|i: int| 0 <= i < x.len() implies !sx.contains(#[trigger] x[i]) by { assert(x.contains(x[i])); }
    }
    let g = ignored(blanks(), e.add(sx).add(cs).add(x));
    assert forall|c: char| #[trigger] g.contains(c) <==> blanks().contains(c) && !x.contains(c) by {
        ignored_in(blanks(), e.add(sx).add(cs).add(x), c);
        default_marks(x, c);
        blanks_are(c);
    }
    assert(digit_free(g)) by { assert forall|c: char| is_digit(c) implies !#[trigger] g.contains(c) by { blanks_are(c); } }
    sep_spread(rx, x, g);
    sep_spread(cx, x, g);
    spread_numbers(s, rx, cx, g, x);
    digit_ends(s, rx, cx);
    strip_none(t);
}
proof fn sep_spread(r: Seq<char>, x: Seq<char>, g: Seq<char>)
    requires sep_or_blank(r, x), forall|c: char| #[trigger] g.contains(c) <==> blanks().contains(c) && !x.contains(c),
    ensures spread(r, g, x) == x,
{
    if r == x {
        assert forall|i: int| 0 <= i < x.len() implies !g.contains(#[trigger] x[i]) by { assert(x.contains(x[i])); assert(blanks().contains(x[i]) || !blanks().contains(x[i])); }
        spread_none(x, g, x);
    } else {
        assert(r =~= seq![r[0]]);
        spread_one(r[0], g, x);
    }
}
/// the number part begins and ends with a digit
proof fn digit_ends(s: Sudoku, rx: Seq<char>, cx: Seq<char>)
    requires wf(s), forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) >= 0,
    ensures ({ let t = num_text(s, rx, cx); t.len() > 0 && is_digit(t[0]) && is_digit(t.last()) }),
{
    let n = side(s);
    dims_pos(s.bw, s.bh);
    let t = row_texts(s, cx);
    assert forall|r: int| 0 <= r < n implies (#[trigger] t[r]).len() > 0 && is_digit(t[r][0]) && is_digit(t[r].last()) by {
        let p = row_parts(s, r);
        assert forall|c: int| 0 <= c < p.len() implies (#[trigger] p[c]).len() > 0 && is_digit(p[c][0]) && is_digit(p[c].last()) by {
            assert(at(s, (r, c)));
            int_of_str(num(s, (r, c)));
            assert(is_digit(p[c][0]) && is_digit(p[c][p[c].len() - 1]));
        }
        join_ends(cx, p);
    }
    join_ends(rx, t);
}
proof fn join_ends(x: Seq<char>, parts: Seq<Seq<char>>)
    requires parts.len() > 0, forall|k: int| 0 <= k < parts.len() ==> (#[trigger] parts[k]).len() > 0 && is_digit(parts[k][0]) && is_digit(parts[k].last()),
    ensures ({ let t = str_join(x, parts); t.len() > 0 && is_digit(t[0]) && is_digit(t.last()) }),
    decreases parts.len(),
{
    assert(is_digit(parts[0][0]));
    let l = parts[parts.len() - 1];
    if parts.len() > 1 {
        let d = parts.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).len() > 0 && is_digit(d[k][0]) && is_digit(d[k].last()) by { assert(d[k] == parts[k]); }
        join_ends(x, d);
        let t = str_join(x, parts);
        assert(t.last() == l.last());
        assert(t[0] == str_join(x, d)[0]);
    }
}
