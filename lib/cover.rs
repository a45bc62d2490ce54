// Exact covers: rows (r, c, n), columns with a tag and a pair; X maps a column to the rows that still fit.

pub type Col = (Seq<char>, (int, int));
pub type Row = (int, int, int);
pub type XM = Map<Col, Set<Row>>;
pub type YM = Map<Row, Seq<Col>>;

/// a occurs among the first n elements of s
pub open spec fn seen<T>(s: Seq<T>, n: int, a: T) -> bool { exists|k: int| 0 <= k < n && #[trigger] s[k] == a }
pub broadcast proof fn seen_step<T>(s: Seq<T>, n: int, a: T)
    requires 0 <= n,
    ensures #[trigger] seen(s, n + 1, a) <==> seen(s, n, a) || s[n] == a,
{
    if seen(s, n, a) { let k = choose|k: int| 0 <= k < n && #[trigger] s[k] == a; assert(s[k] == a); }
}
pub broadcast proof fn seen_none<T>(s: Seq<T>, a: T)
    ensures !#[trigger] seen(s, 0, a),
{ }
pub broadcast proof fn seen_all<T>(s: Seq<T>, a: T)
    ensures #[trigger] seen(s, s.len() as int, a) <==> s.contains(a),
{
    if s.contains(a) { let k = choose|k: int| 0 <= k < s.len() && s[k] == a; assert(s[k] == a); }
}
pub open spec fn minus(d: Set<Col>, s: Seq<Col>, n: int) -> Set<Col> { d.filter(|c: Col| !seen(s, n, c)) }
pub broadcast proof fn minus_contains(d: Set<Col>, s: Seq<Col>, n: int, c: Col)
    ensures #[trigger] minus(d, s, n).contains(c) <==> d.contains(c) && !seen(s, n, c),
{ }
pub open spec fn without(d: Set<Col>, s: Seq<Col>) -> Set<Col> { minus(d, s, s.len() as int) }

pub open spec fn wf_rows(y: YM) -> bool {
    forall|i: Row| #[trigger] y.dom().contains(i) ==> y[i].len() > 0 && y[i].no_duplicates()
}
/// all columns of row i are still open
pub open spec fn fits(y: YM, d: Set<Col>, i: Row) -> bool {
    y.dom().contains(i) && forall|c: Col| #[trigger] y[i].contains(c) ==> d.contains(c)
}
pub open spec fn member(y: YM, d: Set<Col>, j: Col, i: Row) -> bool { fits(y, d, i) && y[i].contains(j) }
pub open spec fn mset(y: YM, d: Set<Col>, j: Col) -> Set<Row> { y.dom().filter(|i: Row| member(y, d, j, i)) }
pub broadcast proof fn mset_contains(y: YM, d: Set<Col>, j: Col, i: Row)
    ensures #[trigger] mset(y, d, j).contains(i) <==> member(y, d, j, i),
{ }
/// X is the cover matrix of the open columns
pub open spec fn matrix(x: XM, y: YM) -> bool {
    forall|j: Col, i: Row| x.dom().contains(j) ==> (#[trigger] x[j].contains(i) <==> member(y, x.dom(), j, i))
}
pub proof fn matrix_is(x: XM, y: YM, j: Col)
    requires matrix(x, y), x.dom().contains(j),
    ensures x[j] == mset(y, x.dom(), j),
{ assert(x[j] =~= mset(y, x.dom(), j)); }
pub proof fn matrix_ext(a: XM, b: XM, y: YM)
    requires matrix(a, y), matrix(b, y), a.dom() =~= b.dom(),
    ensures a == b,
{
    assert forall|j: Col| a.dom().contains(j) implies a[j] == b[j] by { assert(a[j] =~= b[j]); }
    assert(a =~= b);
}
/// one row at a time is taken out of (put back into) all columns but j
pub open spec fn partial(x: XM, y: YM, j: Col, it: Seq<Row>, n: int) -> bool {
    forall|k: Col, a: Row| x.dom().contains(k) ==>
        (#[trigger] x[k].contains(a) <==> member(y, x.dom(), k, a) && (k == j || !seen(it, n, a)))
}
pub open spec fn partial2(x: XM, y: YM, j: Col, it: Seq<Row>, n: int, i: Row, row: Seq<Col>, m: int) -> bool {
    forall|k: Col, a: Row| x.dom().contains(k) ==>
        (#[trigger] x[k].contains(a) <==> member(y, x.dom(), k, a) && (k == j || !seen(it, n, a)) && !(a == i && k != j && seen(row, m, k)))
}
pub open spec fn back(x: XM, y: YM, j: Col, it: Seq<Row>, n: int) -> bool {
    forall|k: Col, a: Row| x.dom().contains(k) ==>
        (#[trigger] x[k].contains(a) <==> member(y, x.dom(), k, a) && (k == j || !y[a].contains(j) || seen(it, n, a)))
}
pub open spec fn back2(x: XM, y: YM, j: Col, it: Seq<Row>, n: int, i: Row, row: Seq<Col>, m: int) -> bool {
    forall|k: Col, a: Row| x.dom().contains(k) ==>
        (#[trigger] x[k].contains(a) <==> member(y, x.dom(), k, a)
            && (k == j || !y[a].contains(j) || seen(it, n, a) || (a == i && seen(row, m, k))))
}
/// what select returns: the rows of each column at the time it was closed
pub open spec fn saved(y: YM, d: Set<Col>, row: Seq<Col>, cols: Seq<Set<Row>>, n: int) -> bool {
    cols.len() == n && forall|t: int| 0 <= t < n ==> #[trigger] cols[t] == mset(y, minus(d, row, t), row[t])
}
/// closing column j of the matrix over d
pub proof fn closed(y: YM, d: Set<Col>, e: Set<Col>, j: Col)
    requires forall|c: Col| #[trigger] e.contains(c) <==> d.contains(c) && c != j,
    ensures forall|a: Row| #[trigger] fits(y, e, a) <==> fits(y, d, a) && !y[a].contains(j),
{
    assert forall|a: Row| #[trigger] fits(y, e, a) <==> fits(y, d, a) && !y[a].contains(j) by {
        if fits(y, d, a) && !y[a].contains(j) { assert forall|c: Col| #[trigger] y[a].contains(c) implies e.contains(c) by { } }
        if fits(y, e, a) { assert forall|c: Col| #[trigger] y[a].contains(c) implies d.contains(c) by { } }
    }
}

pub open spec fn is_cover(y: YM, d: Set<Col>, t: Set<Row>) -> bool {
    &&& forall|i: Row| #[trigger] t.contains(i) ==> fits(y, d, i)
    &&& forall|j: Col| #[trigger] d.contains(j) ==> exists|i: Row| #[trigger] t.contains(i) && y[i].contains(j)
    &&& forall|i: Row, k: Row, j: Col| #[trigger] t.contains(i) && #[trigger] t.contains(k) && #[trigger] y[i].contains(j) && y[k].contains(j) ==> i == k
}
pub open spec fn tail(s: Seq<Row>, n: int) -> Set<Row> { s.skip(n).to_set() }
pub open spec fn extends(s: Seq<Row>, pre: Seq<Row>) -> bool {
    s.len() >= pre.len() && s.take(pre.len() as int) == pre
}
/// out lists the covers of d (as extensions of pre), those that use one of the first n rows of it
pub open spec fn part_covers(y: YM, d: Set<Col>, pre: Seq<Row>, out: Seq<Seq<Row>>, it: Seq<Row>, n: int) -> bool {
    &&& forall|s: Seq<Row>| #[trigger] out.contains(s) ==> extends(s, pre) && is_cover(y, d, tail(s, pre.len() as int))
            && exists|k: int| 0 <= k < n && tail(s, pre.len() as int).contains(#[trigger] it[k])
    &&& forall|t: Set<Row>, k: int| #[trigger] is_cover(y, d, t) && 0 <= k < n && t.contains(#[trigger] it[k])
            ==> exists|s: Seq<Row>| #[trigger] out.contains(s) && tail(s, pre.len() as int) == t
    &&& forall|a: int, b: int| 0 <= a < b < out.len() ==> tail(#[trigger] out[a], pre.len() as int) != tail(#[trigger] out[b], pre.len() as int)
}
/// out lists all covers of d once each
pub open spec fn lists_covers(y: YM, d: Set<Col>, pre: Seq<Row>, out: Seq<Seq<Row>>) -> bool {
    &&& forall|s: Seq<Row>| #[trigger] out.contains(s) ==> extends(s, pre) && is_cover(y, d, tail(s, pre.len() as int))
    &&& forall|t: Set<Row>| #[trigger] is_cover(y, d, t) ==> exists|s: Seq<Row>| #[trigger] out.contains(s) && tail(s, pre.len() as int) == t
    &&& forall|a: int, b: int| 0 <= a < b < out.len() ==> tail(#[trigger] out[a], pre.len() as int) != tail(#[trigger] out[b], pre.len() as int)
}
pub proof fn tail_contains(s: Seq<Row>, n: int, x: Row)
    requires 0 <= n <= s.len(),
    ensures tail(s, n).contains(x) <==> exists|k: int| n <= k < s.len() && #[trigger] s[k] == x,
{
    s.skip(n).to_set_ensures();
    if tail(s, n).contains(x) {
        assert(s.skip(n).contains(x));
        let k = choose|k: int| 0 <= k < s.skip(n).len() && s.skip(n)[k] == x;
        assert(s[k + n] == x);
    }
    if exists|k: int| n <= k < s.len() && #[trigger] s[k] == x {
        let k = choose|k: int| n <= k < s.len() && #[trigger] s[k] == x;
        assert(s.skip(n)[k - n] == x);
        assert(s.skip(n).contains(x));
    }
}
pub proof fn tail_step(s: Seq<Row>, pre: Seq<Row>, r: Row)
    requires extends(s, pre.push(r)),
    ensures extends(s, pre), tail(s, pre.len() as int) == tail(s, pre.len() as int + 1).insert(r),
{
    let n = pre.len() as int;
    assert(s.take(n + 1)[n] == r);
    assert(s[n] == r);
    assert(s.take(n) =~= s.take(n + 1).take(n));
    assert(pre.push(r).take(n) =~= pre);
    assert forall|x: Row| tail(s, n).contains(x) <==> tail(s, n + 1).insert(r).contains(x) by {
        tail_contains(s, n, x);
        tail_contains(s, n + 1, x);
    }
    assert(tail(s, n) =~= tail(s, n + 1).insert(r));
}
pub proof fn cover_step(y: YM, d: Set<Col>, r: Row, t: Set<Row>)
    requires wf_rows(y), is_cover(y, d, t), t.contains(r),
    ensures is_cover(y, without(d, y[r]), t.remove(r)),
{
    broadcast use {seen_all, minus_contains};
    let e = without(d, y[r]);
    let u = t.remove(r);
    assert forall|i: Row| #[trigger] u.contains(i) implies fits(y, e, i) by {
        assert(t.contains(i));
        assert forall|c: Col| #[trigger] y[i].contains(c) implies e.contains(c) by { }
    }
    assert forall|j: Col| #[trigger] e.contains(j) implies exists|i: Row| #[trigger] u.contains(i) && y[i].contains(j) by {
        assert(d.contains(j));
        let i = choose|i: Row| #[trigger] t.contains(i) && y[i].contains(j);
        assert(u.contains(i));
    }
    assert forall|i: Row, k: Row, j: Col| #[trigger] u.contains(i) && #[trigger] u.contains(k) && #[trigger] y[i].contains(j) && y[k].contains(j) implies i == k by {
        assert(t.contains(i) && t.contains(k));
    }
}
pub proof fn cover_unstep(y: YM, d: Set<Col>, r: Row, t: Set<Row>)
    requires wf_rows(y), fits(y, d, r), is_cover(y, without(d, y[r]), t),
    ensures is_cover(y, d, t.insert(r)), !t.contains(r),
{
    broadcast use {seen_all, minus_contains};
    let e = without(d, y[r]);
    let u = t.insert(r);
    if t.contains(r) { assert(y[r].contains(y[r][0])); assert(fits(y, e, r)); assert(e.contains(y[r][0])); }
    assert forall|i: Row| #[trigger] u.contains(i) implies fits(y, d, i) by {
        if i != r { assert(t.contains(i)); assert forall|c: Col| #[trigger] y[i].contains(c) implies d.contains(c) by { } }
    }
    assert forall|j: Col| #[trigger] d.contains(j) implies exists|i: Row| #[trigger] u.contains(i) && y[i].contains(j) by {
        if y[r].contains(j) { assert(u.contains(r)); } else {
            assert(e.contains(j));
            let i = choose|i: Row| #[trigger] t.contains(i) && y[i].contains(j);
            assert(u.contains(i));
        }
    }
    assert forall|i: Row, k: Row, j: Col| #[trigger] u.contains(i) && #[trigger] u.contains(k) && #[trigger] y[i].contains(j) && y[k].contains(j) implies i == k by {
        if i != r && k != r { assert(t.contains(i) && t.contains(k)); }
        else if i == r && k != r { assert(t.contains(k)); assert(y[k].contains(j)); assert(e.contains(j)); }
        else if i != r && k == r { assert(t.contains(i)); assert(e.contains(j)); }
    }
}
pub proof fn covers_none(y: YM, d: Set<Col>, pre: Seq<Row>)
    requires wf_rows(y), d.len() == 0,
    ensures lists_covers(y, d, pre, seq![pre]),
{
    let out = seq![pre];
    let n = pre.len() as int;
    assert(pre.take(n) =~= pre);
    assert(tail(pre, n) =~= Set::empty()) by { pre.skip(n).to_set_ensures(); assert(pre.skip(n).len() == 0); }
    assert(d =~= Set::empty()) by { assert forall|c: Col| !d.contains(c) by { if d.contains(c) { assert(d.len() > 0); } } }
    assert forall|t: Set<Row>| #[trigger] is_cover(y, d, t) implies exists|s: Seq<Row>| #[trigger] out.contains(s) && tail(s, n) == t by {
        assert forall|i: Row| !t.contains(i) by { if t.contains(i) { assert(fits(y, d, i)); assert(y[i].contains(y[i][0])); } }
        assert(t =~= Set::empty());
        assert(out[0] == pre);
        assert(out.contains(pre));
    }
    assert forall|s: Seq<Row>| #[trigger] out.contains(s) implies extends(s, pre) && is_cover(y, d, tail(s, n)) by {
        assert(s == pre);
    }
}
pub proof fn part_none(y: YM, d: Set<Col>, pre: Seq<Row>, it: Seq<Row>)
    ensures part_covers(y, d, pre, Seq::empty(), it, 0),
{ }
pub proof fn part_step(y: YM, d: Set<Col>, j: Col, pre: Seq<Row>, out: Seq<Seq<Row>>, it: Seq<Row>, n: int, res: Seq<Seq<Row>>)
    requires wf_rows(y), d.contains(j), 0 <= n < it.len(), it.no_duplicates(),
        forall|k: int| 0 <= k < it.len() ==> member(y, d, j, #[trigger] it[k]),
        part_covers(y, d, pre, out, it, n), lists_covers(y, without(d, y[it[n]]), pre.push(it[n]), res),
    ensures part_covers(y, d, pre, out.add(res), it, n + 1),
{
    broadcast use {add_contains};
    let r = it[n];
    let m = pre.len() as int;
    let o = out.add(res);
    assert(member(y, d, j, r));
    assert forall|s: Seq<Row>| #[trigger] res.contains(s) implies extends(s, pre) && is_cover(y, d, tail(s, m)) && tail(s, m) == tail(s, m + 1).insert(r) by {
        tail_step(s, pre, r);
        cover_unstep(y, d, r, tail(s, m + 1));
    }
    assert forall|s: Seq<Row>| #[trigger] o.contains(s) implies extends(s, pre) && is_cover(y, d, tail(s, m))
            && exists|k: int| 0 <= k < n + 1 && tail(s, m).contains(#[trigger] it[k]) by {
        if out.contains(s) { let k = choose|k: int| 0 <= k < n && tail(s, m).contains(#[trigger] it[k]); assert(tail(s, m).contains(it[k])); }
        else { assert(res.contains(s)); assert(tail(s, m).contains(it[n])); }
    }
    assert forall|t: Set<Row>, k: int| #[trigger] is_cover(y, d, t) && 0 <= k < n + 1 && t.contains(#[trigger] it[k])
            implies exists|s: Seq<Row>| #[trigger] o.contains(s) && tail(s, m) == t by {
        if k < n { let s = choose|s: Seq<Row>| #[trigger] out.contains(s) && tail(s, m) == t; assert(o.contains(s)); }
        else {
            cover_step(y, d, r, t);
            let s = choose|s: Seq<Row>| #[trigger] res.contains(s) && tail(s, m + 1) == t.remove(r);
            assert(o.contains(s));
            assert(tail(s, m) == t.remove(r).insert(r));
            assert(t.remove(r).insert(r) =~= t);
        }
    }
    assert forall|a: int, b: int| 0 <= a < b < o.len() implies tail(#[trigger] o[a], m) != tail(#[trigger] o[b], m) by {
        if b < out.len() { assert(o[a] == out[a] && o[b] == out[b]); }
        else {
            let s2 = res[b - out.len()];
            assert(o[b] == s2);
            assert(res.contains(s2));
            if a < out.len() {
                let s1 = out[a];
                assert(out.contains(s1));
                let k = choose|k: int| 0 <= k < n && tail(s1, m).contains(#[trigger] it[k]);
                assert(member(y, d, j, it[k]));
                assert(tail(s2, m).contains(r));
                if tail(s1, m) == tail(s2, m) {
                    let t = tail(s2, m);
                    assert(is_cover(y, d, t));
                    assert(t.contains(it[k]) && t.contains(r) && y[it[k]].contains(j) && y[r].contains(j));
                    assert(it[k] == it[n]);
                }
            } else {
                let s1 = res[a - out.len()];
                assert(o[a] == s1);
                assert(res.contains(s1));
                tail_step(s1, pre, r); tail_step(s2, pre, r);
                cover_unstep(y, d, r, tail(s1, m + 1));
                cover_unstep(y, d, r, tail(s2, m + 1));
                assert(tail(s1, m + 1) =~= tail(s1, m).remove(r));
                assert(tail(s2, m + 1) =~= tail(s2, m).remove(r));
            }
        }
    }
}
pub proof fn part_all(y: YM, d: Set<Col>, j: Col, pre: Seq<Row>, out: Seq<Seq<Row>>, it: Seq<Row>)
    requires d.contains(j), part_covers(y, d, pre, out, it, it.len() as int),
        forall|i: Row| #[trigger] it.contains(i) <==> member(y, d, j, i),
    ensures lists_covers(y, d, pre, out),
{
    let m = pre.len() as int;
    assert forall|t: Set<Row>| #[trigger] is_cover(y, d, t) implies exists|s: Seq<Row>| #[trigger] out.contains(s) && tail(s, m) == t by {
        let i = choose|i: Row| #[trigger] t.contains(i) && y[i].contains(j);
        assert(fits(y, d, i));
        assert(it.contains(i));
        let k = choose|k: int| 0 <= k < it.len() && it[k] == i;
        assert(t.contains(it[k]));
    }
}
/// it lists the rows that cover column j
pub open spec fn column(y: YM, d: Set<Col>, j: Col, it: Seq<Row>) -> bool {
    &&& d.contains(j)
    &&& it.no_duplicates()
    &&& forall|i: Row| #[trigger] it.contains(i) <==> member(y, d, j, i)
}
pub broadcast proof fn part_next(y: YM, d: Set<Col>, j: Col, pre: Seq<Row>, out: Seq<Seq<Row>>, it: Seq<Row>, n: int, e: Set<Col>, pre2: Seq<Row>, res: Seq<Seq<Row>>)
    requires wf_rows(y), column(y, d, j, it), 0 <= n < it.len(), e == without(d, y[it[n]]), pre2 == pre.push(it[n]),
        part_covers(y, d, pre, out, it, n), lists_covers(y, e, pre2, res),
    ensures #![trigger part_covers(y, d, pre, out, it, n), lists_covers(y, e, pre2, res), out.add(res), column(y, d, j, it)]
        part_covers(y, d, pre, out.add(res), it, n + 1),
{
    assert forall|k: int| 0 <= k < it.len() implies member(y, d, j, #[trigger] it[k]) by { assert(it.contains(it[k])); }
    part_step(y, d, j, pre, out, it, n, res);
}
pub broadcast proof fn part_last(y: YM, d: Set<Col>, j: Col, pre: Seq<Row>, out: Seq<Seq<Row>>, it: Seq<Row>, n: int)
    requires column(y, d, j, it), part_covers(y, d, pre, out, it, n), n == it.len(),
    ensures #![trigger column(y, d, j, it), part_covers(y, d, pre, out, it, n)] lists_covers(y, d, pre, out),
{ part_all(y, d, j, pre, out, it); }
pub broadcast proof fn without_len(d: Set<Col>, row: Seq<Col>, j: Col)
    requires d.contains(j), row.contains(j),
    ensures #![trigger without(d, row).len(), row.contains(j)] without(d, row).len() < d.len(),
{
    broadcast use {seen_all, minus_contains};
    let e = without(d, row);
    assert(e.subset_of(d.remove(j)));
    vstd::set_lib::lemma_len_subset(e, d.remove(j));
}
pub broadcast proof fn push_pop<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.push(x).drop_last() == s,
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast group cover_step_facts { part_next, part_last, without_len, push_pop }
pub broadcast group cover_facts { seen_step, seen_none, seen_all, minus_contains, mset_contains }
