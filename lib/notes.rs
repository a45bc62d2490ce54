// needs: text
// Coordinates as text.
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub open spec fn strictly(k: Seq<int>) -> bool { is_sorted(k) && k.no_duplicates() }
/// the keys of a with equal values together
pub open spec fn join_group(k: Seq<int>, v: Set<int>, a: Map<int, Set<int>>) -> bool {
    k.len() > 0 && strictly(k) && forall|x: int| #[trigger] k.contains(x) ==> a.dom().contains(x) && a[x] == v
}
pub open spec fn in_group(m: Map<Seq<int>, Set<int>>, x: int) -> bool { exists|k: Seq<int>| #[trigger] m.dom().contains(k) && k.contains(x) }
pub open spec fn joined(m: Map<Seq<int>, Set<int>>, a: Map<int, Set<int>>) -> bool {
    &&& forall|k: Seq<int>| #[trigger] m.dom().contains(k) ==> join_group(k, m[k], a)
    &&& forall|x: int| #[trigger] a.dom().contains(x) ==> in_group(m, x)
}
pub open spec fn seen_key(it: Seq<(int, Set<int>)>, n: int, x: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] it[i]).0 == x }
pub open spec fn joined_part(m: Map<Seq<int>, Set<int>>, a: Map<int, Set<int>>, it: Seq<(int, Set<int>)>, n: int) -> bool {
    &&& forall|k: Seq<int>| #[trigger] m.dom().contains(k) ==> join_group(k, m[k], a)
    &&& forall|k: Seq<int>, x: int| #[trigger] m.dom().contains(k) && #[trigger] k.contains(x) ==> seen_key(it, n, x)
    &&& forall|x: int| #[trigger] seen_key(it, n, x) ==> in_group(m, x)
}
/// b is a with x, in order
pub open spec fn grown(b: Seq<int>, a: Seq<int>, x: int) -> bool { perm(b, seq![x].add(a)) && is_sorted(b) }
pub proof fn grown_is(b: Seq<int>, a: Seq<int>, x: int)
    requires grown(b, a, x), a.no_duplicates(), !a.contains(x),
    ensures strictly(b), b.len() > 0, forall|y: int| #[trigger] b.contains(y) <==> y == x || a.contains(y),
{
    let c = seq![x].add(a);
    assert forall|y: int| #[trigger] c.contains(y) <==> y == x || a.contains(y) by {
        if y == x { assert(c[0] == x); }
        if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(c[i + 1] == y); }
        if c.contains(y) { let i = choose|i: int| 0 <= i < c.len() && c[i] == y; if i > 0 { assert(a[i - 1] == y); } }
    }
    assert(c.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
            if i == 0 { assert(c[j] == a[j - 1]); assert(a.contains(a[j - 1])); } else if j == 0 { assert(c[i] == a[i - 1]); assert(a.contains(a[i - 1])); }
            else { assert(c[i] == a[i - 1] && c[j] == a[j - 1]); }
        }
    }
    assert forall|y: int| #[trigger] b.contains(y) <==> y == x || a.contains(y) by { assert(b.contains(y) <==> c.contains(y)); }
}
pub proof fn join_start(a: Map<int, Set<int>>, it: Seq<(int, Set<int>)>)
    ensures joined_part(Map::empty(), a, it, 0),
{ }
/// the next key goes to an existing group
pub proof fn join_grow(m: Map<Seq<int>, Set<int>>, a: Map<int, Set<int>>, it: Seq<(int, Set<int>)>, n: int, old: Seq<int>, new: Seq<int>)
    requires lists_items(it, a), 0 <= n < it.len(), joined_part(m, a, it, n), m.dom().contains(old), m[old] == it[n].1, grown(new, old, it[n].0),
    ensures joined_part(m.remove(old).insert(new, it[n].1), a, it, n + 1), new.len() > 0,
{
    let m2 = m.remove(old).insert(new, it[n].1);
    let key = it[n].0;
    assert(!old.contains(key)) by { if old.contains(key) { assert(seen_key(it, n, key)); } }
    assert(join_group(old, m[old], a));
    grown_is(new, old, key);
    assert(seen_key(it, n + 1, key));
    assert forall|k: Seq<int>| #[trigger] m2.dom().contains(k) implies join_group(k, m2[k], a) by {
        if k != new { assert(m.dom().contains(k)); }
    }
    assert forall|k: Seq<int>, x: int| #[trigger] m2.dom().contains(k) && #[trigger] k.contains(x) implies seen_key(it, n + 1, x) by {
        if k != new { assert(m.dom().contains(k)); assert(seen_key(it, n, x)); }
        else if x != key { assert(old.contains(x)); assert(seen_key(it, n, x)); }
        if seen_key(it, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] it[i]).0 == x; assert(it[i].0 == x); }
    }
    assert forall|x: int| #[trigger] seen_key(it, n + 1, x) implies in_group(m2, x) by {
        let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] it[i]).0 == x;
        if i == n { assert(m2.dom().contains(new) && new.contains(x)); }
        else {
            assert(seen_key(it, n, x));
            let k = choose|k: Seq<int>| #[trigger] m.dom().contains(k) && k.contains(x);
            if k == old { assert(m2.dom().contains(new) && new.contains(x)); } else { assert(m2.dom().contains(k)); }
        }
    }
}
/// the next key gets a group of its own
pub proof fn join_single(m: Map<Seq<int>, Set<int>>, a: Map<int, Set<int>>, it: Seq<(int, Set<int>)>, n: int)
    requires lists_items(it, a), 0 <= n < it.len(), joined_part(m, a, it, n),
    ensures joined_part(m.insert(seq![it[n].0], it[n].1), a, it, n + 1),
{
    let key = it[n].0;
    let new = seq![key];
    let m2 = m.insert(new, it[n].1);
    assert forall|x: int| #[trigger] new.contains(x) <==> x == key by { assert(new[0] == key); }
    assert(seen_key(it, n + 1, key));
    assert forall|k: Seq<int>| #[trigger] m2.dom().contains(k) implies join_group(k, m2[k], a) by {
        if k != new { assert(m.dom().contains(k)); }
    }
    assert forall|k: Seq<int>, x: int| #[trigger] m2.dom().contains(k) && #[trigger] k.contains(x) implies seen_key(it, n + 1, x) by {
        if k != new {
            assert(m.dom().contains(k)); assert(seen_key(it, n, x));
            let i = choose|i: int| 0 <= i < n && (#[trigger] it[i]).0 == x; assert(it[i].0 == x);
        }
    }
    assert forall|x: int| #[trigger] seen_key(it, n + 1, x) implies in_group(m2, x) by {
        let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] it[i]).0 == x;
        if i == n { assert(m2.dom().contains(new) && new.contains(x)); }
        else {
            assert(seen_key(it, n, x));
            let k = choose|k: Seq<int>| #[trigger] m.dom().contains(k) && k.contains(x);
            assert(m2.dom().contains(k));
        }
    }
}
pub proof fn joined_all(m: Map<Seq<int>, Set<int>>, a: Map<int, Set<int>>, it: Seq<(int, Set<int>)>)
    requires lists_items(it, a), joined_part(m, a, it, it.len() as int),
    ensures joined(m, a),
{
    assert forall|x: int| #[trigger] a.dom().contains(x) implies in_group(m, x) by {
        let i = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0 == x;
        assert(seen_key(it, it.len() as int, x));
    }
}

// ---- groups: r1,2c3 ------------------------------------------------------
pub open spec fn is_qual(c: char) -> bool { c == 'r' || c == 'c' || c == 'b' || c == 'p' }
/// the items of a group: a qualifier and the text after it
pub open spec fn tokens(s: Seq<char>) -> Seq<(char, Seq<char>)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else {
        let t = tokens(s.drop_last());
        let c = s.last();
        if is_qual(c) { t.push((c, Seq::empty())) }
        else if t.len() == 0 { t }
        else { t.drop_last().push((t.last().0, t.last().1.push(c))) }
    }
}
pub open spec fn pieces(t: Seq<char>, nsep: Seq<char>) -> Seq<Seq<char>> { if nsep.len() == 0 { chars_of(t) } else { str_split(t, nsep) } }
/// the numbers of an item, counted from 0
pub open spec fn nums(t: Seq<char>, nsep: Seq<char>) -> Seq<int> { Seq::new(pieces(t, nsep).len(), |i: int| str_int(pieces(t, nsep)[i]) - 1) }
pub open spec fn item_ok(t: Seq<char>, nsep: Seq<char>) -> bool { pieces(t, nsep).len() > 0 && forall|p: Seq<char>| #[trigger] pieces(t, nsep).contains(p) ==> is_int_str(p) }
pub open spec fn legal_to(g: Seq<char>, n: int, nsep: Seq<char>) -> bool {
    (n > 0 ==> is_qual(g[0])) && forall|i: int| 0 <= i < n ==> legal_char(#[trigger] g[i], nsep)
}
pub open spec fn legal_char(c: char, nsep: Seq<char>) -> bool { is_qual(c) || is_digit(c) || nsep.contains(c) }
pub open spec fn distinct(t: Seq<(char, Seq<char>)>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0 }
pub open spec fn in_side(v: Seq<int>, n: int, w: int, h: int) -> bool { forall|i: int| 0 <= i < n ==> 0 <= #[trigger] v[i] < w * h }
#[verifier::opaque]
pub open spec fn group_ok(g: Seq<char>, w: int, h: int, nsep: Seq<char>) -> bool {
    let t = tokens(g);
    &&& g.len() > 0 && legal_to(g, g.len() as int, nsep) && distinct(t)
    &&& forall|i: int| 0 <= i < t.len() ==> item_ok((#[trigger] t[i]).1, nsep) && in_side(nums(t[i].1, nsep), nums(t[i].1, nsep).len() as int, w, h)
}
pub open spec fn of_unit(q: char, n: int, w: int, h: int, f: (int, int)) -> bool {
    ingrid(w, h, f) && if q == 'r' { f.0 == n } else if q == 'c' { f.1 == n } else if q == 'b' { box_no(w, h, f) == n } else { part_no(w, h, f) == n }
}
pub open spec fn some_unit(q: char, v: Seq<int>, n: int, w: int, h: int, f: (int, int)) -> bool { exists|i: int| 0 <= i < n && of_unit(q, #[trigger] v[i], w, h, f) }
pub open spec fn item_has(it: (char, Seq<char>), w: int, h: int, nsep: Seq<char>, f: (int, int)) -> bool {
    some_unit(it.0, nums(it.1, nsep), nums(it.1, nsep).len() as int, w, h, f)
}
/// f is one of the fields the group names
#[verifier::opaque]
pub open spec fn group_has(g: Seq<char>, w: int, h: int, nsep: Seq<char>, f: (int, int)) -> bool {
    forall|i: int| 0 <= i < tokens(g).len() ==> item_has(#[trigger] tokens(g)[i], w, h, nsep, f)
}
pub open spec fn is_key(k: Seq<char>) -> bool { k.len() == 1 && is_qual(k[0]) }
pub open spec fn has_qual(t: Seq<(char, Seq<char>)>, n: int, q: char) -> bool { exists|i: int| 0 <= i < n && (#[trigger] t[i]).0 == q }
/// the first n items of t are in the table
pub open spec fn tabled(all: Map<Seq<char>, Seq<int>>, t: Seq<(char, Seq<char>)>, n: int, nsep: Seq<char>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] all.dom().contains(k) <==> is_key(k)
    &&& forall|i: int| 0 <= i < n ==> item_ok((#[trigger] t[i]).1, nsep) && all[seq![t[i].0]] == nums(t[i].1, nsep)
    &&& forall|k: Seq<char>| is_key(k) && !has_qual(t, n, k[0]) ==> (#[trigger] all[k]).len() == 0
}
/// what is known of the first n characters of g
#[verifier::opaque]
pub open spec fn scanned(g: Seq<char>, n: int, nsep: Seq<char>, present: Seq<char>, current: Seq<char>, text: Seq<char>, all: Map<Seq<char>, Seq<int>>) -> bool {
    let t = tokens(g.take(n));
    &&& legal_to(g, n, nsep) && distinct(t)
    &&& t.len() == 0 <==> n == 0
    &&& present.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] present[i] == t[i].0 && is_qual(present[i])
    &&& if n == 0 { current.len() == 0 && text.len() == 0 } else { current == seq![t.last().0] && text == t.last().1 }
    &&& tabled(all, t, if n == 0 { 0 } else { t.len() - 1 }, nsep)
}
pub proof fn token_next(g: Seq<char>, n: int)
    requires 0 <= n < g.len(),
    ensures ({
        let t = tokens(g.take(n));
        let c = g[n];
        tokens(g.take(n + 1)) == (if is_qual(c) { t.push((c, Seq::empty())) } else if t.len() == 0 { t } else { t.drop_last().push((t.last().0, t.last().1.push(c))) })
    }),
{
    assert(g.take(n + 1).drop_last() =~= g.take(n));
    assert(g.take(n + 1).last() == g[n]);
}
/// what later characters leave as it is
pub proof fn tokens_prefix(g: Seq<char>, n: int)
    requires 0 <= n <= g.len(),
    ensures ({
        let t = tokens(g.take(n));
        let a = tokens(g);
        &&& t.len() <= a.len()
        &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 == a[i].0
        &&& forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] t[i] == a[i]
    }),
    decreases g.len(),
{
    if n < g.len() {
        let d = g.drop_last();
        tokens_prefix(d, n);
        assert(d.take(n) =~= g.take(n));
    } else {
        assert(g.take(n) =~= g);
    }
}
/// the item before a qualifier is complete
pub proof fn token_done(g: Seq<char>, n: int)
    requires 0 <= n < g.len(), is_qual(g[n]),
    ensures ({
        let t = tokens(g.take(n));
        &&& t.len() < tokens(g).len()
        &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == tokens(g)[i]
        &&& tokens(g)[t.len() as int].0 == g[n]
    }),
{
    token_next(g, n);
    tokens_prefix(g, n + 1);
    let t = tokens(g.take(n));
    let t1 = tokens(g.take(n + 1));
    assert(t1[t.len() as int] == (g[n], Seq::<char>::empty()));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == tokens(g)[i] by { assert(t1[i] == t[i]); }
}
pub proof fn scan_start(g: Seq<char>, nsep: Seq<char>, all: Map<Seq<char>, Seq<int>>)
    requires
        all == Map::<Seq<char>, Seq<int>>::empty().insert(seq!['r'], Seq::empty()).insert(seq!['c'], Seq::empty()).insert(seq!['b'], Seq::empty()).insert(seq!['p'], Seq::empty()),
    ensures scanned(g, 0, nsep, Seq::empty(), Seq::empty(), Seq::empty(), all),
{
    reveal(scanned);
    assert(g.take(0) =~= Seq::<char>::empty());
    assert forall|k: Seq<char>| #[trigger] all.dom().contains(k) <==> is_key(k) by {
        if is_key(k) { assert(k =~= seq![k[0]]); }
    }
    let t = tokens(g.take(0));
    assert(t.len() == 0);
    assert forall|k: Seq<char>| is_key(k) implies (#[trigger] all[k]).len() == 0 by { assert(k =~= seq![k[0]]); }
    assert(tabled(all, t, 0, nsep));
}
/// a character more
pub proof fn scan_step(g: Seq<char>, n: int, w: int, h: int, nsep: Seq<char>, present: Seq<char>, current: Seq<char>, text: Seq<char>, all: Map<Seq<char>, Seq<int>>, c: Seq<char>)
    requires 0 <= n < g.len(), scanned(g, n, nsep, present, current, text, all), c == chars_of(g)[n],
    ensures
        str_contains(present, c) ==> !group_ok(g, w, h, nsep),
        n == 0 <==> current.len() == 0,
        is_digit(g[n]) <==> str_contains(seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'], c),
        all.dom().contains(c) <==> is_qual(g[n]),
        is_qual(g[n]) && n > 0 && !item_ok(text, nsep) ==> !group_ok(g, w, h, nsep),
        !is_qual(g[n]) && n == 0 ==> !group_ok(g, w, h, nsep),
        (str_contains(nsep, c) <==> nsep.contains(g[n])),
        !legal_char(g[n], nsep) ==> !group_ok(g, w, h, nsep),
        is_qual(g[n]) && !str_contains(present, c) && (n > 0 ==> item_ok(text, nsep)) ==>
            scanned(g, n + 1, nsep, present.add(c), c, Seq::empty(), if n > 0 { all.insert(current, nums(text, nsep)) } else { all }),
        !is_qual(g[n]) && legal_char(g[n], nsep) && n > 0 ==> scanned(g, n + 1, nsep, present, current, text.add(c), all),
{
    reveal(group_ok);
    reveal(scanned);
    let t = tokens(g.take(n));
    let q = g[n];
    assert(c =~= seq![q]);
    contains_one(present, q);
    contains_one(nsep, q);
    let ds = seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];
    contains_one(ds, q);
    if is_digit(q) { assert(ds[digit_of(q)] == q); }
    token_next(g, n);
    let t1 = tokens(g.take(n + 1));
    if is_qual(q) { token_done(g, n); }
    if present.contains(q) {
        let i = choose|i: int| 0 <= i < present.len() && present[i] == q;
        assert(is_qual(present[i]));
        assert(tokens(g)[i] == t[i]);
        assert(tokens(g)[i].0 == q && tokens(g)[t.len() as int].0 == q);
    }
    if is_qual(q) && n > 0 && !item_ok(text, nsep) {
        assert(tokens(g)[t.len() - 1] == t[t.len() - 1]);
    }
    if is_qual(q) && !present.contains(q) && (n > 0 ==> item_ok(text, nsep)) {
        let all1 = if n > 0 { all.insert(current, nums(text, nsep)) } else { all };
        let p1 = present.add(c);
        assert(t1 == t.push((q, Seq::empty())));
        assert forall|i: int| 0 <= i < t1.len() implies #[trigger] p1[i] == t1[i].0 && is_qual(p1[i]) by {
            if i < t.len() { assert(p1[i] == present[i]); assert(t1[i] == t[i]); }
        }
        assert(distinct(t1)) by {
            assert forall|i: int, j: int| 0 <= i < j < t1.len() implies (#[trigger] t1[i]).0 != (#[trigger] t1[j]).0 by {
                assert(t1[i] == t[i]);
                if j == t.len() { assert(present[i] == t[i].0); assert(present.contains(present[i])); }
            }
        }
        if n > 0 { assert(present[t.len() - 1] == t[t.len() - 1].0); }
        table_more(all, t, t1, t.len() as int, nsep);
        assert(tabled(all1, t1, t1.len() - 1, nsep));
        assert(c == seq![t1.last().0]);
        assert(scanned(g, n + 1, nsep, p1, c, Seq::empty(), all1));
    }
    if !is_qual(q) && legal_char(q, nsep) && n > 0 {
        assert(t1 == t.drop_last().push((t.last().0, t.last().1.push(q))));
        assert(text.add(c) =~= text.push(q));
        assert forall|i: int| 0 <= i < t1.len() implies #[trigger] present[i] == t1[i].0 && is_qual(present[i]) by {
            if i < t.len() - 1 { assert(t1[i] == t[i]); }
        }
        assert(distinct(t1)) by {
            assert forall|i: int, j: int| 0 <= i < j < t1.len() implies (#[trigger] t1[i]).0 != (#[trigger] t1[j]).0 by { assert(t[i].0 != t[j].0); }
        }
        table_same(all, t, t1, t.len() - 1, nsep);
        assert(scanned(g, n + 1, nsep, present, current, text.add(c), all));
    }
}
proof fn table_same(all: Map<Seq<char>, Seq<int>>, t: Seq<(char, Seq<char>)>, t1: Seq<(char, Seq<char>)>, n: int, nsep: Seq<char>)
    requires tabled(all, t, n, nsep), 0 <= n <= t.len(), n <= t1.len(), forall|i: int| 0 <= i < n ==> #[trigger] t1[i] == t[i],
    ensures tabled(all, t1, n, nsep),
{
    assert forall|k: Seq<char>| is_key(k) && !has_qual(t1, n, k[0]) implies (#[trigger] all[k]).len() == 0 by {
        assert(!has_qual(t, n, k[0])) by { if has_qual(t, n, k[0]) { let i = choose|i: int| 0 <= i < n && (#[trigger] t[i]).0 == k[0]; assert(t1[i].0 == k[0]); } }
    }
    assert forall|i: int| 0 <= i < n implies item_ok((#[trigger] t1[i]).1, nsep) && all[seq![t1[i].0]] == nums(t1[i].1, nsep) by { assert(t1[i] == t[i]); assert(item_ok(t[i].1, nsep)); }
}
/// the last of n items goes into the table
proof fn table_more(all: Map<Seq<char>, Seq<int>>, t: Seq<(char, Seq<char>)>, t1: Seq<(char, Seq<char>)>, n: int, nsep: Seq<char>)
    requires 0 <= n <= t.len(), n <= t1.len(), forall|i: int| 0 <= i < n ==> #[trigger] t1[i] == t[i], distinct(t),
        n == 0 ==> tabled(all, t, 0, nsep),
        n > 0 ==> tabled(all, t, n - 1, nsep) && item_ok(t[n - 1].1, nsep) && is_qual(t[n - 1].0),
    ensures tabled(if n > 0 { all.insert(seq![t[n - 1].0], nums(t[n - 1].1, nsep)) } else { all }, t1, n, nsep),
{
    reveal(whole_table);
    if n == 0 { table_same(all, t, t1, 0, nsep); }
    else {
        let key = seq![t[n - 1].0];
        let all1 = all.insert(key, nums(t[n - 1].1, nsep));
        assert(is_key(key));
        assert forall|k: Seq<char>| #[trigger] all1.dom().contains(k) <==> is_key(k) by { assert(all.dom().contains(k) <==> is_key(k)); }
        assert forall|i: int| 0 <= i < n implies item_ok((#[trigger] t1[i]).1, nsep) && all1[seq![t1[i].0]] == nums(t1[i].1, nsep) by {
            assert(t1[i] == t[i]);
            if i < n - 1 {
                assert(t[i].0 != t[n - 1].0);
                assert(seq![t[i].0][0] != key[0]);
                assert(all1[seq![t[i].0]] == all[seq![t[i].0]]) by { assert(seq![t[i].0] != key); assert(all.dom().contains(seq![t[i].0]) || !all.dom().contains(seq![t[i].0])); }
                assert(item_ok(t[i].1, nsep));
            }
        }
        assert forall|k: Seq<char>| is_key(k) && !has_qual(t1, n, k[0]) implies (#[trigger] all1[k]).len() == 0 by {
            assert(t1[n - 1].0 == t[n - 1].0);
            assert(k[0] != t[n - 1].0);
            assert(k != key);
            assert(!has_qual(t, n - 1, k[0])) by { if has_qual(t, n - 1, k[0]) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] t[i]).0 == k[0]; assert(t1[i].0 == k[0]); } }
            assert(all[k].len() == 0);
        }
    }
}
/// the group is read; the table is complete
#[verifier::opaque]
pub open spec fn whole_table(all: Map<Seq<char>, Seq<int>>, g: Seq<char>, nsep: Seq<char>) -> bool {
    &&& g.len() > 0 && legal_to(g, g.len() as int, nsep) && distinct(tokens(g)) && tokens(g).len() > 0
    &&& forall|i: int| 0 <= i < tokens(g).len() ==> is_qual((#[trigger] tokens(g)[i]).0)
    &&& tabled(all, tokens(g), tokens(g).len() as int, nsep)
}
pub proof fn scan_end(g: Seq<char>, w: int, h: int, nsep: Seq<char>, present: Seq<char>, current: Seq<char>, text: Seq<char>, all: Map<Seq<char>, Seq<int>>)
    requires scanned(g, g.len() as int, nsep, present, current, text, all),
    ensures g.len() == 0 <==> current.len() == 0, current.len() == 0 ==> present.len() == 0,
        g.len() == 0 ==> !group_ok(g, w, h, nsep),
        g.len() > 0 && !item_ok(text, nsep) ==> !group_ok(g, w, h, nsep),
        g.len() > 0 && item_ok(text, nsep) ==> whole_table(all.insert(current, nums(text, nsep)), g, nsep),
{
    reveal(group_ok);
    reveal(scanned);
    reveal(whole_table);
    reveal(sets_part);
    reveal(sets_inner);
    let t = tokens(g);
    assert(g.take(g.len() as int) =~= g);
    if g.len() > 0 && item_ok(text, nsep) {
        assert forall|i: int| 0 <= i < t.len() implies is_qual((#[trigger] t[i]).0) by { assert(present[i] == t[i].0); }
        table_more(all, t, t, t.len() as int, nsep);
    }
    if g.len() > 0 && !item_ok(text, nsep) { assert(!item_ok(t[t.len() - 1].1, nsep)); }
}
/// the fields of the units of the first n lists
pub open spec fn unit_set(s: Set<(int, int)>, q: char, v: Seq<int>, n: int, w: int, h: int) -> bool {
    in_side(v, n, w, h) && forall|f: (int, int)| #[trigger] s.contains(f) <==> some_unit(q, v, n, w, h, f)
}
#[verifier::opaque]
pub open spec fn sets_part(m: Map<Seq<char>, Set<(int, int)>>, it: Seq<(Seq<char>, Seq<int>)>, n: int, w: int, h: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < n && (#[trigger] it[j]).0 == k && it[j].1.len() > 0
    &&& forall|j: int| 0 <= j < n && (#[trigger] it[j]).1.len() > 0 ==> m.dom().contains(it[j].0) && unit_set(m[it[j].0], it[j].0[0], it[j].1, it[j].1.len() as int, w, h)
}
/// n numbers of item j are done
#[verifier::opaque]
pub open spec fn sets_inner(m: Map<Seq<char>, Set<(int, int)>>, it: Seq<(Seq<char>, Seq<int>)>, j: int, n: int, w: int, h: int) -> bool {
    &&& sets_part(m.remove(it[j].0), it, j, w, h)
    &&& m.dom().contains(it[j].0) <==> n > 0
    &&& n > 0 ==> unit_set(m[it[j].0], it[j].0[0], it[j].1, n, w, h)
}
pub proof fn sets_start(it: Seq<(Seq<char>, Seq<int>)>, w: int, h: int)
    ensures sets_part(Map::empty(), it, 0, w, h),
{ reveal(sets_part); }
pub proof fn inner_start(m: Map<Seq<char>, Set<(int, int)>>, it: Seq<(Seq<char>, Seq<int>)>, all: Map<Seq<char>, Seq<int>>, j: int, w: int, h: int)
    requires lists_items(it, all), 0 <= j < it.len(), sets_part(m, it, j, w, h),
    ensures sets_inner(m, it, j, 0, w, h),
{
    reveal(sets_part);
    reveal(sets_inner);
    assert(!m.dom().contains(it[j].0)) by {
        if m.dom().contains(it[j].0) { let i = choose|i: int| 0 <= i < j && (#[trigger] it[i]).0 == it[j].0 && it[i].1.len() > 0; assert(it[i].0 != it[j].0); }
    }
    assert(m.remove(it[j].0) =~= m);
}
pub proof fn inner_end(m: Map<Seq<char>, Set<(int, int)>>, it: Seq<(Seq<char>, Seq<int>)>, all: Map<Seq<char>, Seq<int>>, j: int, w: int, h: int)
    requires lists_items(it, all), 0 <= j < it.len(), sets_inner(m, it, j, it[j].1.len() as int, w, h),
    ensures sets_part(m, it, j + 1, w, h),
{
    reveal(sets_part);
    reveal(sets_inner);
    let key = it[j].0;
    let m0 = m.remove(key);
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < j + 1 && (#[trigger] it[i]).0 == k && it[i].1.len() > 0 by {
        if k != key { assert(m0.dom().contains(k)); let i = choose|i: int| 0 <= i < j && (#[trigger] it[i]).0 == k && it[i].1.len() > 0; assert(it[i].0 == k); } else { assert(it[j].0 == k); }
    }
    assert forall|i: int| 0 <= i < j + 1 && (#[trigger] it[i]).1.len() > 0 implies m.dom().contains(it[i].0) && unit_set(m[it[i].0], it[i].0[0], it[i].1, it[i].1.len() as int, w, h) by {
        if i < j { assert(it[i].0 != it[j].0); assert(m0.dom().contains(it[i].0)); assert(m0[it[i].0] == m[it[i].0]); }
    }
}
/// the next number names a unit
pub proof fn inner_next(it: Seq<(Seq<char>, Seq<int>)>, all: Map<Seq<char>, Seq<int>>, g: Seq<char>, nsep: Seq<char>, j: int, n: int, w: int, h: int)
    requires lists_items(it, all), whole_table(all, g, nsep), 0 <= j < it.len(), 0 <= n < it[j].1.len(),
    ensures it[j].0 == seq!['r'] || it[j].0 == seq!['c'] || it[j].0 == seq!['b'] || it[j].0 == seq!['p'], !(0 <= it[j].1[n] < w * h) ==> !group_ok(g, w, h, nsep),
{
    reveal(group_ok);
    reveal(whole_table);
    let key = it[j].0;
    let v = it[j].1;
    let t = tokens(g);
    assert(all.dom().contains(key) && all[key] == v);
    assert(is_key(key));
    assert(key =~= seq![key[0]]);
    if !has_qual(t, t.len() as int, key[0]) { assert(all[key].len() == 0); }
    let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == key[0];
    assert(item_ok(t[i].1, nsep) && all[seq![t[i].0]] == nums(t[i].1, nsep));
    assert(v == nums(t[i].1, nsep));
    if !(0 <= v[n] < w * h) {
        assert(nums(t[i].1, nsep)[n] == v[n]);
        assert(!in_side(nums(t[i].1, nsep), nums(t[i].1, nsep).len() as int, w, h));
    }
}
pub proof fn inner_more(m: Map<Seq<char>, Set<(int, int)>>, m1: Map<Seq<char>, Set<(int, int)>>, it: Seq<(Seq<char>, Seq<int>)>, j: int, n: int, w: int, h: int)
    requires 0 <= j < it.len(), 0 <= n < it[j].1.len(), sets_inner(m, it, j, n, w, h), 0 <= it[j].1[n] < w * h,
        m1.remove(it[j].0) =~= m.remove(it[j].0), m1.dom().contains(it[j].0),
        forall|f: (int, int)| #[trigger] m1[it[j].0].contains(f) <==> (m.dom().contains(it[j].0) && m[it[j].0].contains(f)) || of_unit(it[j].0[0], it[j].1[n], w, h, f),
    ensures sets_inner(m1, it, j, n + 1, w, h),
{
    reveal(sets_inner);
    let key = it[j].0;
    let v = it[j].1;
    let s = m1[key];
    assert forall|f: (int, int)| #[trigger] s.contains(f) <==> some_unit(key[0], v, n + 1, w, h, f) by {
        if n > 0 && m[key].contains(f) { let i = choose|i: int| 0 <= i < n && of_unit(key[0], #[trigger] v[i], w, h, f); assert(of_unit(key[0], v[i], w, h, f)); }
        if some_unit(key[0], v, n + 1, w, h, f) {
            let i = choose|i: int| 0 <= i < n + 1 && of_unit(key[0], #[trigger] v[i], w, h, f);
            if i < n { assert(some_unit(key[0], v, n, w, h, f)); assert(m[key].contains(f)); }
        }
        if of_unit(key[0], v[n], w, h, f) { assert(some_unit(key[0], v, n + 1, w, h, f)); }
    }
}
pub proof fn sets_done(m: Map<Seq<char>, Set<(int, int)>>, it: Seq<(Seq<char>, Seq<int>)>, all: Map<Seq<char>, Seq<int>>, g: Seq<char>, nsep: Seq<char>, w: int, h: int)
    requires lists_items(it, all), whole_table(all, g, nsep), sets_part(m, it, it.len() as int, w, h),
    ensures group_ok(g, w, h, nsep), exists|k: Seq<char>| #[trigger] m.dom().contains(k),
        forall|f: (int, int)| (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].contains(f)) <==> #[trigger] group_has(g, w, h, nsep, f),
{
    reveal(group_ok);
    reveal(whole_table);
    reveal(sets_part);
    reveal(group_has);
    let t = tokens(g);
    assert forall|i: int| 0 <= i < t.len() implies m.dom().contains(seq![(#[trigger] t[i]).0]) && item_ok(t[i].1, nsep)
        && unit_set(m[seq![t[i].0]], t[i].0, nums(t[i].1, nsep), nums(t[i].1, nsep).len() as int, w, h) by {
        let k = seq![t[i].0];
        assert(is_key(k));
        assert(all.dom().contains(k));
        assert(all[k] == nums(t[i].1, nsep));
        let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0 == k;
        assert(it[j].1 == all[it[j].0]);
        assert(it[j].1.len() > 0);
    }
    assert(m.dom().contains(seq![t[0].0]));
    assert forall|f: (int, int)| (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].contains(f)) <==> #[trigger] group_has(g, w, h, nsep, f) by {
        if forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].contains(f) {
            assert forall|i: int| 0 <= i < t.len() implies item_has(#[trigger] t[i], w, h, nsep, f) by { assert(m.dom().contains(seq![t[i].0])); }
        }
        if group_has(g, w, h, nsep, f) {
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies m[k].contains(f) by {
                let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0 == k && it[j].1.len() > 0;
                assert(all.dom().contains(k) && all[k] == it[j].1);
                assert(is_key(k));
                assert(k =~= seq![k[0]]);
                if !has_qual(t, t.len() as int, k[0]) { assert(all[k].len() == 0); }
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k[0];
                assert(item_has(t[i], w, h, nsep, f));
                assert(m.dom().contains(seq![t[i].0]));
            }
        }
    }
}

// ---- writing -------------------------------------------------------------
pub open spec fn key_of(q: char, w: int, h: int, f: (int, int)) -> int { if q == 'r' { f.0 } else if q == 'c' { f.1 } else if q == 'b' { box_no(w, h, f) } else { part_no(w, h, f) } }
/// a format with two places
pub open spec fn two_fmt(a: char, b: char) -> Seq<char> { seq![a, '%', 's', b, '%', 's'] }
pub open spec fn one_up(k: Seq<int>) -> Seq<Seq<char>> { Seq::new(k.len(), |i: int| int_str(k[i] + 1)) }
pub open spec fn number_text(k: Seq<int>, nsep: Seq<char>) -> Seq<char> { str_join(nsep, one_up(k)) }
pub open spec fn group_text(a: char, k: Seq<int>, b: char, v: Seq<int>, nsep: Seq<char>) -> Seq<char> {
    seq![a].add(number_text(k, nsep)).add(seq![b]).add(number_text(v, nsep))
}
pub open spec fn group_of(t: Seq<char>, a: char, b: char, ks: Seq<int>, vs: Set<int>, nsep: Seq<char>) -> bool {
    exists|k: Seq<int>, v: Seq<int>| #[trigger] lists_set(k, ks.to_set()) && #[trigger] lists_set(v, vs) && t == group_text(a, k, b, v, nsep)
}
pub open spec fn group_texts(ks: Seq<Seq<int>>, ts: Seq<Seq<char>>, m: Map<Seq<int>, Set<int>>, a: char, b: char, nsep: Seq<char>) -> bool {
    &&& forall|k: Seq<int>| #[trigger] ks.contains(k) <==> m.dom().contains(k)
    &&& ts.len() == ks.len()
    &&& forall|i: int| 0 <= i < ts.len() ==> group_of(#[trigger] ts[i], a, b, ks[i], m[ks[i]], nsep)
}
pub open spec fn keyed_text(m: Map<Seq<int>, Set<int>>, a: char, b: char, sep: Seq<char>, nsep: Seq<char>, t: Seq<char>) -> bool {
    exists|ks: Seq<Seq<int>>, ts: Seq<Seq<char>>| #[trigger] group_texts(ks, ts, m, a, b, nsep) && t == str_join(sep, ts)
}
pub proof fn fmt_two(f: Seq<char>)
    requires f == two_fmt(f[0], f[3]), is_qual(f[0]), is_qual(f[3]),
    ensures fmt_ok(str_split(f, percent_s()), 2),
        forall|a: Seq<Seq<char>>| a.len() == 2 ==> #[trigger] fmt_args(str_split(f, percent_s()), a) == seq![f[0]].add(a[0]).add(seq![f[3]]).add(a[1]),
{
    let p = percent_s();
    let parts = seq![seq![f[0]], seq![f[3]], Seq::<char>::empty()];
    assert forall|k: int| 0 <= k < parts.len() implies apart(#[trigger] parts[k], p) by {
        assert forall|i: int| 0 <= i < parts[k].len() implies !p.contains(#[trigger] parts[k][i]) by { assert(i == 0 && k < 2); }
    }
    split_join(p, parts);
    assert(parts.drop_last() =~= seq![seq![f[0]], seq![f[3]]]);
    assert(parts.drop_last().drop_last() =~= seq![seq![f[0]]]);
    assert(parts.drop_last().drop_last().last() == seq![f[0]]);
    assert(str_join(p, parts.drop_last().drop_last()) == seq![f[0]]);
    assert(str_join(p, parts.drop_last()) == seq![f[0]].add(p).add(seq![f[3]]));
    assert(str_join(p, parts) =~= f);
    assert forall|a: Seq<Seq<char>>| a.len() == 2 implies #[trigger] fmt_args(str_split(f, p), a) == seq![f[0]].add(a[0]).add(seq![f[3]]).add(a[1]) by {
        let x = a[0];
        let y = a[1];
        assert(a.drop_last() =~= seq![x]);
        assert(a.drop_last().drop_last() =~= Seq::<Seq<char>>::empty());
        assert(fmt_args(parts.drop_last().drop_last(), a.drop_last().drop_last()) == seq![f[0]]);
        assert(fmt_args(parts.drop_last(), a.drop_last()) == seq![f[0]].add(x).add(seq![f[3]]));
        assert(fmt_args(parts, a) =~= seq![f[0]].add(x).add(seq![f[3]]).add(y));
    }
}
pub proof fn sorted_keys(q: Seq<int>, c: Seq<int>)
    requires perm(q, c), is_sorted(q), c.no_duplicates(),
    ensures lists_set(q, c.to_set()),
{
    assert forall|v: int| #[trigger] q.contains(v) <==> c.to_set().contains(v) by { assert(q.contains(v) <==> c.contains(v)); }
}
/// str(x + 1) for x in s, joined
pub broadcast proof fn number_text_comp(nsep: Seq<char>, s: Seq<int>, p: spec_fn(int) -> bool, f: spec_fn(int) -> Seq<char>)
    requires forall|x: int| #[trigger] p(x), forall|x: int| #[trigger] f(x) == int_str(x + 1),
    ensures #[trigger] str_join(nsep, comp(s, p, f)) == number_text(s, nsep),
{
    broadcast use prelude_facts;
    let c = comp(s, p, f);
    assert(c =~= one_up(s));
}
pub broadcast proof fn sorted_lists(c: Seq<int>)
    requires c.no_duplicates(),
    ensures lists_set(#[trigger] sort_ints(c), c.to_set()),
{
    sort_ints_is(c);
    sorted_keys(sort_ints(c), c);
}
pub broadcast group notes_facts { number_text_comp, sorted_lists }
pub open spec fn keyed(a: char, b: char) -> bool { a == 'r' && b == 'c' || a == 'b' && b == 'p' }
pub proof fn key_facts(w: int, h: int)
    requires dims(w, h),
    ensures
        forall|q: char, f: (int, int)| ingrid(w, h, f) ==> 0 <= #[trigger] key_of(q, w, h, f) < w * h,
        forall|a: char, b: char, f: (int, int), g: (int, int)| #[trigger] keyed(a, b) && #[trigger] ingrid(w, h, f) && #[trigger] ingrid(w, h, g)
            && key_of(a, w, h, f) == key_of(a, w, h, g) && key_of(b, w, h, f) == key_of(b, w, h, g) ==> f == g,
{
    dims_pos(w, h);
    box_no_facts(w, h);
    assert forall|f: (int, int)| #[trigger] ingrid(w, h, f) implies 0 <= part_no(w, h, f) < w * h && part_no(w, h, f) / w == f.0 % h && part_no(w, h, f) % w == f.1 % w by {
        block(f.0, h);
        block(f.1, w);
        div_of(part_no(w, h, f), w, f.0 % h, f.1 % w);
        lemma_mul_inequality(f.0 % h + 1, h, w);
        lemma_mul_is_distributive_add_other_way(w, f.0 % h, 1);
        lemma_mul_nonnegative(f.0 % h, w);
        lemma_mul_is_commutative(w, h);
    }
    assert forall|q: char, f: (int, int)| ingrid(w, h, f) implies 0 <= #[trigger] key_of(q, w, h, f) < w * h by { }
    assert forall|a: char, b: char, f: (int, int), g: (int, int)| #[trigger] keyed(a, b) && #[trigger] ingrid(w, h, f) && #[trigger] ingrid(w, h, g)
            && key_of(a, w, h, f) == key_of(a, w, h, g) && key_of(b, w, h, f) == key_of(b, w, h, g) implies f == g by {
        if a == 'b' {
            block(f.0, h);
            block(f.1, w);
            block(g.0, h);
            block(g.1, w);
            assert(box_no(w, h, f) / h == box_no(w, h, g) / h);
        }
    }
}
/// the first n fields by their keys
pub open spec fn keyed_by(m: Map<int, Set<int>>, cs: Seq<(int, int)>, n: int, a: char, b: char, w: int, h: int) -> bool {
    &&& forall|k: int| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < n && key_of(a, w, h, #[trigger] cs[i]) == k
    &&& forall|k: int, v: int| m.dom().contains(k) ==> (#[trigger] m[k].contains(v) <==> exists|i: int| 0 <= i < n && key_of(a, w, h, #[trigger] cs[i]) == k && key_of(b, w, h, cs[i]) == v)
}
pub proof fn keyed_more(m: Map<int, Set<int>>, m1: Map<int, Set<int>>, cs: Seq<(int, int)>, n: int, a: char, b: char, w: int, h: int)
    requires keyed_by(m, cs, n, a, b, w, h), 0 <= n < cs.len(), ({
        let k = key_of(a, w, h, cs[n]);
        &&& m1.remove(k) =~= m.remove(k) && m1.dom().contains(k)
        &&& forall|v: int| #[trigger] m1[k].contains(v) <==> (m.dom().contains(k) && m[k].contains(v)) || v == key_of(b, w, h, cs[n])
    }),
    ensures keyed_by(m1, cs, n + 1, a, b, w, h),
{
    let key = key_of(a, w, h, cs[n]);
    assert forall|k: int| #[trigger] m1.dom().contains(k) <==> exists|i: int| 0 <= i < n + 1 && key_of(a, w, h, #[trigger] cs[i]) == k by {
        assert(m1.remove(key).dom().contains(k) <==> m.remove(key).dom().contains(k));
        if m1.dom().contains(k) {
            if k == key { assert(key_of(a, w, h, cs[n]) == k); }
            else { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < n && key_of(a, w, h, #[trigger] cs[i]) == k; assert(key_of(a, w, h, cs[i]) == k); }
        }
    }
    assert forall|k: int, v: int| m1.dom().contains(k) implies (#[trigger] m1[k].contains(v) <==> exists|i: int| 0 <= i < n + 1 && key_of(a, w, h, #[trigger] cs[i]) == k && key_of(b, w, h, cs[i]) == v) by {
        if k != key {
            assert(m1.remove(key).dom().contains(k));
            assert(m.remove(key).dom().contains(k));
            assert(m1.remove(key)[k] == m.remove(key)[k]);
            assert(m1[k] == m[k]);
            assert(m[k].contains(v) <==> m1[k].contains(v));
        }
        if m1[k].contains(v) {
            if k == key && v == key_of(b, w, h, cs[n]) { assert(cs[n] == cs[n]); }
            else { assert(m.dom().contains(k) && m[k].contains(v)); let i = choose|i: int| 0 <= i < n && key_of(a, w, h, #[trigger] cs[i]) == k && key_of(b, w, h, cs[i]) == v; assert(cs[i] == cs[i]); }
        }
        if exists|i: int| 0 <= i < n + 1 && key_of(a, w, h, #[trigger] cs[i]) == k && key_of(b, w, h, cs[i]) == v {
            let i = choose|i: int| 0 <= i < n + 1 && key_of(a, w, h, #[trigger] cs[i]) == k && key_of(b, w, h, cs[i]) == v;
            if i < n { assert(m.dom().contains(k)); assert(m[k].contains(v)); }
        }
    }
}

// ---- what a text means ---------------------------------------------------
pub open spec fn qual_free(x: Seq<char>) -> bool { forall|c: char| is_qual(c) ==> !#[trigger] x.contains(c) }
/// a separator of numbers
pub open spec fn neat(nsep: Seq<char>) -> bool { nsep.len() <= 1 && digit_free(nsep) && qual_free(nsep) }
pub open spec fn group_list(gs: Seq<Seq<char>>, t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>) -> bool {
    gs.len() > 0 && str_join(sep, gs) == t && forall|i: int| 0 <= i < gs.len() ==> group_ok(#[trigger] gs[i], w, h, nsep)
}
pub open spec fn some_group(gs: Seq<Seq<char>>, w: int, h: int, nsep: Seq<char>, f: (int, int)) -> bool { exists|i: int| 0 <= i < gs.len() && group_has(#[trigger] gs[i], w, h, nsep, f) }
/// the text t reads as the fields cs
pub open spec fn denotes(t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>, cs: Seq<(int, int)>) -> bool {
    exists|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep) && forall|f: (int, int)| #[trigger] cs.contains(f) <==> some_group(gs, w, h, nsep, f)
}
pub open spec fn reads(t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>) -> bool { exists|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep) }
/// the separator of numbers that counts
pub open spec fn number_sep(w: int, h: int, nsep: Seq<char>) -> Seq<char> { if nsep.len() == 0 && w * h > 9 { seq![','] } else { nsep } }

proof fn tokens_more(s: Seq<char>, x: Seq<char>)
    requires tokens(s).len() > 0, forall|i: int| 0 <= i < x.len() ==> !is_qual(#[trigger] x[i]),
    ensures tokens(s.add(x)) == tokens(s).drop_last().push((tokens(s).last().0, tokens(s).last().1.add(x))),
    decreases x.len(),
{
    let t = tokens(s);
    if x.len() == 0 {
        assert(s.add(x) =~= s);
        assert(t.last().1.add(x) =~= t.last().1);
        assert(t =~= t.drop_last().push(t.last()));
    } else {
        let y = x.drop_last();
        tokens_more(s, y);
        assert(s.add(x).drop_last() =~= s.add(y));
        assert(s.add(x).last() == x.last());
        let u = t.drop_last().push((t.last().0, t.last().1.add(y)));
        assert(u.drop_last() =~= t.drop_last());
        assert(u.last().1.push(x.last()) =~= t.last().1.add(x));
    }
}
pub proof fn tokens_two(a: char, x: Seq<char>, b: char, y: Seq<char>)
    requires is_qual(a), is_qual(b), forall|i: int| 0 <= i < x.len() ==> !is_qual(#[trigger] x[i]), forall|i: int| 0 <= i < y.len() ==> !is_qual(#[trigger] y[i]),
    ensures tokens(seq![a].add(x).add(seq![b]).add(y)) == seq![(a, x), (b, y)],
{
    let e = Seq::<char>::empty();
    let s = seq![a];
    assert(s.drop_last() =~= e);
    assert(tokens(e) =~= Seq::<(char, Seq<char>)>::empty());
    assert(tokens(s) =~= seq![(a, e)]);
    tokens_more(s, x);
    assert(e.add(x) =~= x);
    assert(tokens(s).drop_last() =~= Seq::<(char, Seq<char>)>::empty());
    assert(tokens(s.add(x)) =~= seq![(a, x)]);
    let u = s.add(x).add(seq![b]);
    assert(u.drop_last() =~= s.add(x));
    assert(u.last() == b);
    assert(tokens(u) =~= seq![(a, x), (b, e)]);
    tokens_more(u, y);
    assert(tokens(u).drop_last() =~= seq![(a, x)]);
    assert(e.add(y) =~= y);
    assert(tokens(u.add(y)) =~= seq![(a, x), (b, y)]);
}
pub proof fn number_text_is(k: Seq<int>, w: int, h: int, nsep: Seq<char>)
    requires neat(nsep), nsep.len() == 0 ==> w * h <= 9, k.len() > 0, in_side(k, k.len() as int, w, h),
    ensures item_ok(number_text(k, nsep), nsep), nums(number_text(k, nsep), nsep) == k,
        forall|i: int| 0 <= i < number_text(k, nsep).len() ==> legal_char(#[trigger] number_text(k, nsep)[i], nsep) && !is_qual(number_text(k, nsep)[i]),
{
    let p = one_up(k);
    let t = number_text(k, nsep);
    assert forall|i: int| 0 <= i < p.len() implies digits(#[trigger] p[i]) && is_int_str(p[i]) && str_int(p[i]) == k[i] + 1 && apart(p[i], nsep) && (nsep.len() == 0 ==> p[i].len() == 1) by {
        assert(p[i] == int_str(k[i] + 1));
        int_of_str(k[i] + 1);
        digits_apart(p[i], nsep);
    }
    if nsep.len() > 0 { split_join(nsep, p); } else { assert(nsep =~= Seq::<char>::empty()); join_chars(p); }
    assert(pieces(t, nsep) == p);
    assert forall|x: Seq<char>| #[trigger] pieces(t, nsep).contains(x) implies is_int_str(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; }
    assert(nums(t, nsep) =~= k);
    let ok = |c: char| legal_char(c, nsep) && !is_qual(c);
    assert forall|i: int| 0 <= i < nsep.len() implies #[trigger] ok(nsep[i]) by { assert(nsep.contains(nsep[i])); }
    assert forall|j: int, i: int| 0 <= j < p.len() && 0 <= i < p[j].len() implies #[trigger] ok(p[j][i]) by { assert(digits(p[j])); assert(is_digit(p[j][i])); }
    join_all(nsep, p, ok);
    assert forall|i: int| 0 <= i < t.len() implies legal_char(#[trigger] t[i], nsep) && !is_qual(t[i]) by { assert(ok(t[i])); }
}
pub proof fn group_text_is(t: Seq<char>, a: char, k: Seq<int>, b: char, v: Seq<int>, w: int, h: int, nsep: Seq<char>)
    requires neat(nsep), nsep.len() == 0 ==> w * h <= 9, keyed(a, b), k.len() > 0, v.len() > 0, t == group_text(a, k, b, v, nsep),
        in_side(k, k.len() as int, w, h), in_side(v, v.len() as int, w, h),
    ensures group_ok(t, w, h, nsep),
        forall|f: (int, int)| #[trigger] group_has(t, w, h, nsep, f) <==> ingrid(w, h, f) && k.contains(key_of(a, w, h, f)) && v.contains(key_of(b, w, h, f)),
{
    reveal(group_ok);
    reveal(group_has);
    number_text_is(k, w, h, nsep);
    number_text_is(v, w, h, nsep);
    let x = number_text(k, nsep);
    let y = number_text(v, nsep);
    tokens_two(a, x, b, y);
    let tk = tokens(t);
    assert(tk[0] == (a, x) && tk[1] == (b, y) && tk.len() == 2);
    assert forall|i: int| 0 <= i < t.len() implies legal_char(#[trigger] t[i], nsep) by {
        if i == 0 { assert(t[i] == a); }
        else if i <= x.len() { assert(t[i] == x[i - 1]); }
        else if i == x.len() + 1 { assert(t[i] == b); }
        else { assert(t[i] == y[i - x.len() - 2]); }
    }
    assert forall|i: int| 0 <= i < tk.len() implies item_ok((#[trigger] tk[i]).1, nsep) && in_side(nums(tk[i].1, nsep), nums(tk[i].1, nsep).len() as int, w, h) by { if i != 0 { assert(i == 1); } }
    assert(t[0] == a);
    assert forall|f: (int, int)| #[trigger] group_has(t, w, h, nsep, f) <==> ingrid(w, h, f) && k.contains(key_of(a, w, h, f)) && v.contains(key_of(b, w, h, f)) by {
        item_of(a, k, w, h, f);
        item_of(b, v, w, h, f);
        assert(item_has(tk[0], w, h, nsep, f) <==> some_unit(a, k, k.len() as int, w, h, f));
        assert(item_has(tk[1], w, h, nsep, f) <==> some_unit(b, v, v.len() as int, w, h, f));
    }
}
proof fn item_of(q: char, k: Seq<int>, w: int, h: int, f: (int, int))
    requires is_qual(q),
    ensures some_unit(q, k, k.len() as int, w, h, f) <==> ingrid(w, h, f) && k.contains(key_of(q, w, h, f)),
{
    if some_unit(q, k, k.len() as int, w, h, f) { let i = choose|i: int| 0 <= i < k.len() && of_unit(q, #[trigger] k[i], w, h, f); assert(k[i] == key_of(q, w, h, f)); }
    if ingrid(w, h, f) && k.contains(key_of(q, w, h, f)) { let i = choose|i: int| 0 <= i < k.len() && k[i] == key_of(q, w, h, f); assert(of_unit(q, k[i], w, h, f)); }
}
/// the text of joined tables reads as the fields
pub proof fn keyed_text_denotes(t: Seq<char>, m: Map<Seq<int>, Set<int>>, d: Map<int, Set<int>>, cs: Seq<(int, int)>, a: char, b: char, w: int, h: int, sep: Seq<char>, nsep: Seq<char>)
    requires dims(w, h), neat(nsep), nsep.len() == 0 ==> w * h <= 9, keyed(a, b), joined(m, d), keyed_by(d, cs, cs.len() as int, a, b, w, h),
        keyed_text(m, a, b, sep, nsep, t), forall|f: (int, int)| #[trigger] cs.contains(f) ==> ingrid(w, h, f),
    ensures cs.len() > 0 ==> denotes(t, w, h, sep, nsep, cs), cs.len() == 0 ==> t.len() == 0,
{
    let (ks, ts) = choose|ks: Seq<Seq<int>>, ts: Seq<Seq<char>>| #[trigger] group_texts(ks, ts, m, a, b, nsep) && t == str_join(sep, ts);
    key_facts(w, h);
    assert forall|i: int| 0 <= i < ts.len() implies group_ok(#[trigger] ts[i], w, h, nsep) && ks[i].len() > 0 && join_group(ks[i], m[ks[i]], d) && m.dom().contains(ks[i])
        && forall|f: (int, int)| #[trigger] group_has(ts[i], w, h, nsep, f) <==> ingrid(w, h, f) && ks[i].contains(key_of(a, w, h, f)) && m[ks[i]].contains(key_of(b, w, h, f)) by {
        let g = ks[i];
        assert(ks.contains(g));
        assert(group_of(ts[i], a, b, g, m[g], nsep));
        let (k, v) = choose|k: Seq<int>, v: Seq<int>| #[trigger] lists_set(k, g.to_set()) && #[trigger] lists_set(v, m[g]) && ts[i] == group_text(a, k, b, v, nsep);
        assert(join_group(g, m[g], d));
        assert forall|x: int| #[trigger] k.contains(x) <==> g.contains(x) by { assert(g.to_set().contains(x) <==> g.contains(x)); }
        assert(g.contains(g[0]));
        assert(k.contains(g[0]));
        assert(d.dom().contains(g[0]) && d[g[0]] == m[g]);
        let j = choose|j: int| 0 <= j < cs.len() && key_of(a, w, h, #[trigger] cs[j]) == g[0];
        assert(d[g[0]].contains(key_of(b, w, h, cs[j])));
        assert(v.contains(key_of(b, w, h, cs[j])));
        assert(in_side(k, k.len() as int, w, h)) by {
            assert forall|n: int| 0 <= n < k.len() implies 0 <= #[trigger] k[n] < w * h by {
                assert(k.contains(k[n]));
                assert(g.contains(k[n]));
                assert(d.dom().contains(k[n]));
                let e = choose|e: int| 0 <= e < cs.len() && key_of(a, w, h, #[trigger] cs[e]) == k[n];
                assert(cs.contains(cs[e]));
            }
        }
        assert(in_side(v, v.len() as int, w, h)) by {
            assert forall|n: int| 0 <= n < v.len() implies 0 <= #[trigger] v[n] < w * h by {
                assert(v.contains(v[n]));
                assert(d[g[0]].contains(v[n]));
                let e = choose|e: int| 0 <= e < cs.len() && key_of(a, w, h, #[trigger] cs[e]) == g[0] && key_of(b, w, h, cs[e]) == v[n];
                assert(cs.contains(cs[e]));
            }
        }
        group_text_is(ts[i], a, k, b, v, w, h, nsep);
        assert forall|f: (int, int)| #[trigger] group_has(ts[i], w, h, nsep, f) <==> ingrid(w, h, f) && g.contains(key_of(a, w, h, f)) && m[g].contains(key_of(b, w, h, f)) by {
            assert(k.contains(key_of(a, w, h, f)) <==> g.contains(key_of(a, w, h, f)));
            assert(v.contains(key_of(b, w, h, f)) <==> m[g].contains(key_of(b, w, h, f)));
        }
    }
    if cs.len() > 0 {
        assert forall|f: (int, int)| #[trigger] cs.contains(f) <==> some_group(ts, w, h, nsep, f) by {
            if cs.contains(f) {
                let j = choose|j: int| 0 <= j < cs.len() && cs[j] == f;
                let x = key_of(a, w, h, f);
                assert(key_of(a, w, h, cs[j]) == x);
                assert(d.dom().contains(x));
                assert(d[x].contains(key_of(b, w, h, f)));
                assert(in_group(m, x));
                let g = choose|g: Seq<int>| #[trigger] m.dom().contains(g) && g.contains(x);
                assert(ks.contains(g));
                let i = choose|i: int| 0 <= i < ks.len() && ks[i] == g;
                assert(group_ok(ts[i], w, h, nsep));
                assert(m[g] == d[x]);
                assert(group_has(ts[i], w, h, nsep, f));
            }
            if some_group(ts, w, h, nsep, f) {
                let i = choose|i: int| 0 <= i < ts.len() && group_has(#[trigger] ts[i], w, h, nsep, f);
                assert(group_ok(ts[i], w, h, nsep));
                let x = key_of(a, w, h, f);
                assert(d[x] == m[ks[i]]);
                let e = choose|e: int| 0 <= e < cs.len() && key_of(a, w, h, #[trigger] cs[e]) == x && key_of(b, w, h, cs[e]) == key_of(b, w, h, f);
                assert(cs.contains(cs[e]));
                assert(keyed(a, b) && ingrid(w, h, cs[e]) && ingrid(w, h, f));
                assert(cs[e] == f);
            }
        }
        assert(cs.contains(cs[0]));
        assert(some_group(ts, w, h, nsep, cs[0]));
        assert(group_list(ts, t, w, h, sep, nsep));
    } else {
        if ts.len() > 0 {
            assert(group_ok(ts[0], w, h, nsep));
            assert(ks[0].contains(ks[0][0]));
            assert(d.dom().contains(ks[0][0]));
        }
        assert(ts =~= Seq::<Seq<char>>::empty());
    }
}
pub proof fn comma_neat()
    ensures neat(seq![',']),
{
    let x = seq![','];
    assert forall|c: char| is_digit(c) || is_qual(c) implies !#[trigger] x.contains(c) by { assert(x[0] == ','); }
}
pub proof fn fmt_lits()
    ensures two_fmt('b', 'p') == seq!['b', '%', 's', 'p', '%', 's'], two_fmt('r', 'c') == seq!['r', '%', 's', 'c', '%', 's'],
{ }
pub proof fn fields_in(cs: Seq<(int, int)>, w: int, h: int)
    requires forall|i: int| 0 <= i < cs.len() ==> ingrid(w, h, #[trigger] cs[i]),
    ensures forall|f: (int, int)| #[trigger] cs.contains(f) ==> ingrid(w, h, f),
{ }
pub proof fn encode_means(t: Seq<char>, rows: Map<int, Set<int>>, boxes: Map<int, Set<int>>, cs: Seq<(int, int)>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>)
    requires dims(w, h), neat(nsep), nsep.len() == 0 ==> w * h <= 9, keyed_by(rows, cs, cs.len() as int, 'r', 'c', w, h), keyed_by(boxes, cs, cs.len() as int, 'b', 'p', w, h),
        forall|i: int| 0 <= i < cs.len() ==> ingrid(w, h, #[trigger] cs[i]),
    ensures
        forall|m: Map<Seq<int>, Set<int>>| #[trigger] joined(m, rows) && keyed_text(m, 'r', 'c', sep, nsep, t) ==> (cs.len() > 0 ==> denotes(t, w, h, sep, nsep, cs)) && (cs.len() == 0 ==> t.len() == 0),
        forall|m: Map<Seq<int>, Set<int>>| #[trigger] joined(m, boxes) && keyed_text(m, 'b', 'p', sep, nsep, t) ==> (cs.len() > 0 ==> denotes(t, w, h, sep, nsep, cs)) && (cs.len() == 0 ==> t.len() == 0),
{
    fields_in(cs, w, h);
    assert forall|m: Map<Seq<int>, Set<int>>| #[trigger] joined(m, rows) && keyed_text(m, 'r', 'c', sep, nsep, t) implies (cs.len() > 0 ==> denotes(t, w, h, sep, nsep, cs)) && (cs.len() == 0 ==> t.len() == 0) by {
        keyed_text_denotes(t, m, rows, cs, 'r', 'c', w, h, sep, nsep);
    }
    assert forall|m: Map<Seq<int>, Set<int>>| #[trigger] joined(m, boxes) && keyed_text(m, 'b', 'p', sep, nsep, t) implies (cs.len() > 0 ==> denotes(t, w, h, sep, nsep, cs)) && (cs.len() == 0 ==> t.len() == 0) by {
        keyed_text_denotes(t, m, boxes, cs, 'b', 'p', w, h, sep, nsep);
    }
}
