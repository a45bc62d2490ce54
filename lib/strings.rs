// Python's text operations used by the code, as definitions over sequences of characters.
pub open spec fn chars_of(s: Seq<char>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| seq![s[i]]) }
pub open spec fn char_at(s: Seq<char>, i: int) -> Seq<char> { seq![s[if i < 0 { i + s.len() } else { i }]] }
pub open spec fn occurs(s: Seq<char>, x: Seq<char>, i: int) -> bool { 0 <= i && i + x.len() <= s.len() && s.subrange(i, i + x.len()) == x }
pub open spec fn str_contains(s: Seq<char>, x: Seq<char>) -> bool { exists|i: int| #[trigger] occurs(s, x, i) }
pub open spec fn digit(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn nat_str(n: int) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { nat_str(n / 10).push(digit(n % 10)) }
}
pub open spec fn int_str(n: int) -> Seq<char> { if n < 0 { seq!['-'].add(nat_str(-n)) } else { nat_str(n) } }
/// str() of values whose text no property depends on
pub uninterp spec fn any_str<T>(x: T) -> Seq<char>;
/// str of a text is that text
pub broadcast axiom fn str_of_text(s: Seq<char>)
    ensures #[trigger] any_str(s) == s;
pub open spec fn str_repeat(s: Seq<char>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { str_repeat(s, n - 1).add(s) }
}
pub open spec fn str_join(sep: Seq<char>, parts: Seq<Seq<char>>) -> Seq<char>
    decreases parts.len(),
{
    if parts.len() == 0 { Seq::empty() } else if parts.len() == 1 { parts[0] }
    else { str_join(sep, parts.drop_last()).add(sep).add(parts.last()) }
}

pub open spec fn find_from(s: Seq<char>, x: Seq<char>, i: int) -> int
    decreases s.len() + 1 - i,
{
    if i + x.len() > s.len() { -1 } else if occurs(s, x, i) { i } else { find_from(s, x, i + 1) }
}
pub open spec fn str_find(s: Seq<char>, x: Seq<char>) -> int { find_from(s, x, 0) }
pub proof fn find_bound(s: Seq<char>, x: Seq<char>, i: int)
    requires 0 <= i,
    ensures ({ let k = find_from(s, x, i); k == -1 || (i <= k && occurs(s, x, k)) }),
        forall|j: int| i <= j && (find_from(s, x, i) < 0 || j < find_from(s, x, i)) ==> !#[trigger] occurs(s, x, j),
    decreases s.len() + 1 - i,
{
    if i + x.len() <= s.len() && !occurs(s, x, i) {
        find_bound(s, x, i + 1);
        assert forall|j: int| i <= j && (find_from(s, x, i) < 0 || j < find_from(s, x, i)) implies !#[trigger] occurs(s, x, j) by { if j > i { assert(i + 1 <= j); } }
    }
}
/// split at a separator that is not empty
pub open spec fn str_split(s: Seq<char>, x: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    let i = str_find(s, x);
    if x.len() == 0 || i < 0 || i + x.len() > s.len() { seq![s] }
    else { seq![s.take(i)].add(str_split(s.skip(i + x.len()), x)) }
}
pub open spec fn str_split1(s: Seq<char>, x: Seq<char>) -> Seq<Seq<char>> {
    let i = str_find(s, x);
    if i < 0 { seq![s] } else { seq![s.take(i), s.skip(i + x.len())] }
}
pub open spec fn str_partition(s: Seq<char>, x: Seq<char>) -> (Seq<char>, Seq<char>, Seq<char>) {
    let i = str_find(s, x);
    if i < 0 { (s, Seq::empty(), Seq::empty()) } else { (s.take(i), x, s.skip(i + x.len())) }
}
/// what replacing the empty string gives is left open
pub uninterp spec fn replace_empty(s: Seq<char>, y: Seq<char>) -> Seq<char>;
pub open spec fn str_replace(s: Seq<char>, x: Seq<char>, y: Seq<char>) -> Seq<char> {
    if x.len() == 0 { replace_empty(s, y) } else { str_join(y, str_split(s, x)) }
}
pub open spec fn is_space(c: char) -> bool {
    let n = c as int;
    9 <= n <= 13 || 28 <= n <= 32 || n == 0x85 || n == 0xa0 || n == 0x1680 || 0x2000 <= n <= 0x200a || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn str_lstrip(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && is_space(s[0]) { str_lstrip(s.skip(1)) } else { s }
}
pub open spec fn str_rstrip(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && is_space(s.last()) { str_rstrip(s.drop_last()) } else { s }
}
pub open spec fn str_strip(s: Seq<char>) -> Seq<char> { str_rstrip(str_lstrip(s)) }
pub open spec fn str_startswith(s: Seq<char>, x: Seq<char>) -> bool { occurs(s, x, 0) }
pub open spec fn str_endswith(s: Seq<char>, x: Seq<char>) -> bool { occurs(s, x, s.len() - x.len()) }
pub open spec fn str_rjust(s: Seq<char>, n: int) -> Seq<char> { str_repeat(seq![' '], n - s.len()).add(s) }
pub open spec fn str_ljust(s: Seq<char>, n: int) -> Seq<char> { s.add(str_repeat(seq![' '], n - s.len())) }
pub uninterp spec fn str_words(s: Seq<char>) -> Seq<Seq<char>>;

// int() of a text: plain decimal digits; whether it accepts other texts is left open
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub uninterp spec fn odd_int(s: Seq<char>) -> bool;
pub uninterp spec fn odd_value(s: Seq<char>) -> int;
pub open spec fn digit_of(c: char) -> int { c as int - '0' as int }
pub open spec fn dec(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + digit_of(s.last()) }
}
pub open spec fn is_int_str(s: Seq<char>) -> bool { digits(s) || (s.len() > 0 && !digits(s) && odd_int(s)) }
pub open spec fn str_int(s: Seq<char>) -> int { if digits(s) { dec(s) } else { odd_value(s) } }

pub open spec fn percent_s() -> Seq<char> { seq!['%', 's'] }
/// %-formatting with %s only: the text between the places
pub open spec fn fmt_ok(parts: Seq<Seq<char>>, n: int) -> bool { parts.len() == n + 1 && forall|k: int| 0 <= k < parts.len() ==> !(#[trigger] parts[k]).contains('%') }
pub open spec fn fmt_args(parts: Seq<Seq<char>>, args: Seq<Seq<char>>) -> Seq<char>
    decreases args.len(),
{
    if args.len() == 0 { parts[0] } else { fmt_args(parts.drop_last(), args.drop_last()).add(args.last()).add(parts.last()) }
}

pub proof fn digit_char(d: int)
    requires 0 <= d <= 9,
    ensures is_digit(digit(d)), digit_of(digit(d)) == d,
{ }
pub proof fn nat_str_is(n: int)
    requires n >= 0,
    ensures digits(nat_str(n)), dec(nat_str(n)) == n, nat_str(n).len() >= 1, n < 10 <==> nat_str(n).len() == 1,
    decreases n,
{
    if n < 10 {
        digit_char(n);
        let s = nat_str(n);
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(dec(s.drop_last()) == 0);
        assert(s.last() == digit(n));
    } else {
        nat_str_is(n / 10);
        digit_char(n % 10);
        let s = nat_str(n);
        assert(s.drop_last() =~= nat_str(n / 10));
        assert(s.last() == digit(n % 10));
        assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == nat_str(n / 10)[i]); } }
    }
}
/// int(str(n)) == n
pub proof fn int_of_str(n: int)
    requires n >= 0,
    ensures digits(int_str(n)), is_int_str(int_str(n)), str_int(int_str(n)) == n, n < 10 ==> int_str(n) == seq![digit(n)],
{ nat_str_is(n); }

pub proof fn join_one(x: Seq<char>, p: Seq<char>)
    ensures str_join(x, seq![p]) == p,
{ }
pub proof fn join_first(x: Seq<char>, parts: Seq<Seq<char>>)
    requires parts.len() >= 2,
    ensures str_join(x, parts) == parts[0].add(x).add(str_join(x, parts.skip(1))),
    decreases parts.len(),
{
    let d = parts.drop_last();
    if parts.len() == 2 {
        assert(d =~= seq![parts[0]]);
        assert(parts.skip(1) =~= seq![parts[1]]);
        join_one(x, parts[0]);
        join_one(x, parts[1]);
    } else {
        join_first(x, d);
        let t = parts.skip(1);
        assert(d.skip(1) =~= t.drop_last());
        assert(t.last() == parts.last());
        assert(str_join(x, t) == str_join(x, t.drop_last()).add(x).add(parts.last()));
        assert(str_join(x, parts) =~= parts[0].add(x).add(str_join(x, t)));
    }
}
pub proof fn join_add(x: Seq<char>, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.len() >= 1, b.len() >= 1,
    ensures str_join(x, a.add(b)) == str_join(x, a).add(x).add(str_join(x, b)),
    decreases b.len(),
{
    let c = a.add(b);
    assert(c.last() == b.last());
    if b.len() == 1 {
        assert(c.drop_last() =~= a);
        assert(b =~= seq![b[0]]);
        join_one(x, b[0]);
    } else {
        assert(c.drop_last() =~= a.add(b.drop_last()));
        join_add(x, a, b.drop_last());
        assert(str_join(x, c) =~= str_join(x, a).add(x).add(str_join(x, b)));
    }
}
/// every character of a joined text is one of the separator or of a part
pub proof fn join_all(x: Seq<char>, parts: Seq<Seq<char>>, p: spec_fn(char) -> bool)
    requires
        forall|i: int| 0 <= i < x.len() ==> #[trigger] p(x[i]),
        forall|k: int, i: int| 0 <= k < parts.len() && 0 <= i < parts[k].len() ==> #[trigger] p(parts[k][i]),
    ensures forall|i: int| 0 <= i < str_join(x, parts).len() ==> p(#[trigger] str_join(x, parts)[i]),
    decreases parts.len(),
{
    if parts.len() == 1 {
        assert forall|i: int| 0 <= i < str_join(x, parts).len() implies p(#[trigger] str_join(x, parts)[i]) by { assert(p(parts[0][i])); }
    } else if parts.len() > 1 {
        let d = parts.drop_last();
        assert forall|k: int, i: int| 0 <= k < d.len() && 0 <= i < d[k].len() implies #[trigger] p(d[k][i]) by { assert(p(parts[k][i])); }
        join_all(x, d, p);
        let a = str_join(x, d);
        let s = str_join(x, parts);
        assert forall|i: int| 0 <= i < s.len() implies p(#[trigger] s[i]) by {
            if i < a.len() { assert(s[i] == a[i]); }
            else if i < a.len() + x.len() { assert(s[i] == x[i - a.len()]); }
            else { assert(s[i] == parts[parts.len() - 1][i - a.len() - x.len()]); }
        }
    }
}
/// joining single characters without separator
pub proof fn join_chars(parts: Seq<Seq<char>>)
    requires forall|k: int| 0 <= k < parts.len() ==> (#[trigger] parts[k]).len() == 1,
    ensures chars_of(str_join(Seq::empty(), parts)) == parts,
    decreases parts.len(),
{
    let e = Seq::<char>::empty();
    let s = str_join(e, parts);
    if parts.len() == 0 {
        assert(chars_of(s) =~= parts);
    } else if parts.len() == 1 {
        assert(chars_of(s)[0] =~= parts[0]);
        assert(chars_of(s) =~= parts);
    } else {
        let d = parts.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).len() == 1 by { assert(d[k] == parts[k]); }
        join_chars(d);
        let a = str_join(e, d);
        assert(a.len() == d.len()) by { assert(chars_of(a).len() == d.len()); }
        assert(parts[parts.len() - 1].len() == 1);
        assert(s.len() == parts.len());
        assert forall|k: int| 0 <= k < parts.len() implies #[trigger] chars_of(s)[k] == parts[k] by {
            if k < d.len() { assert(chars_of(a)[k] == d[k]); assert(s[k] == a[k]); assert(chars_of(s)[k] =~= chars_of(a)[k]); }
            else { assert(s[k] == parts[k][0]); assert(chars_of(s)[k] =~= parts[k]); }
        }
        assert(chars_of(s) =~= parts);
    }
}
/// no character of s occurs in x
pub open spec fn apart(s: Seq<char>, x: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !x.contains(#[trigger] s[i]) }
proof fn find_after(a: Seq<char>, x: Seq<char>, rest: Seq<char>, i: int)
    requires apart(a, x), x.len() > 0, 0 <= i <= a.len(),
    ensures find_from(a.add(x).add(rest), x, i) == a.len(),
    decreases a.len() - i,
{
    let s = a.add(x).add(rest);
    if i == a.len() {
        assert(s.subrange(i, i + x.len()) =~= x);
    } else {
        if occurs(s, x, i) { assert(s.subrange(i, i + x.len())[0] == a[i]); assert(x.contains(a[i])); }
        find_after(a, x, rest, i + 1);
    }
}
pub proof fn find_first(a: Seq<char>, x: Seq<char>, rest: Seq<char>)
    requires apart(a, x), x.len() > 0,
    ensures str_find(a.add(x).add(rest), x) == a.len(), str_contains(a.add(x).add(rest), x),
        str_split1(a.add(x).add(rest), x) == seq![a, rest],
{
    let s = a.add(x).add(rest);
    find_after(a, x, rest, 0);
    assert(s.subrange(a.len() as int, (a.len() + x.len()) as int) =~= x);
    assert(occurs(s, x, a.len() as int));
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip((a.len() + x.len()) as int) =~= rest);
}
pub proof fn find_none(s: Seq<char>, x: Seq<char>)
    requires apart(s, x), x.len() > 0,
    ensures str_find(s, x) == -1, !str_contains(s, x), str_split(s, x) == seq![s],
{
    assert forall|i: int| !#[trigger] occurs(s, x, i) by {
        if occurs(s, x, i) { assert(s.subrange(i, i + x.len())[0] == s[i]); assert(x.contains(s[i])); }
    }
    find_bound(s, x, 0);
}
/// splitting undoes joining if no part shares a character with the separator
pub proof fn split_join(x: Seq<char>, parts: Seq<Seq<char>>)
    requires x.len() > 0, parts.len() > 0, forall|k: int| 0 <= k < parts.len() ==> apart(#[trigger] parts[k], x),
    ensures str_split(str_join(x, parts), x) == parts,
    decreases parts.len(),
{
    assert(apart(parts[0], x));
    if parts.len() == 1 {
        find_none(parts[0], x);
        assert(seq![parts[0]] =~= parts);
    } else {
        join_first(x, parts);
        let t = parts.skip(1);
        assert forall|k: int| 0 <= k < t.len() implies apart(#[trigger] t[k], x) by { assert(apart(parts[k + 1], x)); }
        split_join(x, t);
        let s = str_join(x, parts);
        find_first(parts[0], x, str_join(x, t));
        assert(s.take(parts[0].len() as int) =~= parts[0]);
        assert(s.skip((parts[0].len() + x.len()) as int) =~= str_join(x, t));
        assert(str_split(s, x) == seq![parts[0]].add(t));
        assert(seq![parts[0]].add(t) =~= parts);
    }
}

/// s with every character of cs replaced by x
pub open spec fn spread(s: Seq<char>, cs: Seq<char>, x: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else if cs.contains(s[0]) { x.add(spread(s.skip(1), cs, x)) } else { seq![s[0]].add(spread(s.skip(1), cs, x)) }
}
/// s without the characters of cs
pub open spec fn sans(s: Seq<char>, cs: Seq<char>) -> Seq<char> { spread(s, cs, Seq::empty()) }
pub proof fn spread_add(a: Seq<char>, b: Seq<char>, cs: Seq<char>, x: Seq<char>)
    ensures spread(a.add(b), cs, x) == spread(a, cs, x).add(spread(b, cs, x)),
    decreases a.len(),
{
    let s = a.add(b);
    if a.len() == 0 {
        assert(s =~= b);
        assert(spread(s, cs, x) =~= spread(a, cs, x).add(spread(b, cs, x)));
    } else {
        assert(s.skip(1) =~= a.skip(1).add(b));
        spread_add(a.skip(1), b, cs, x);
        assert(spread(s, cs, x) =~= spread(a, cs, x).add(spread(b, cs, x)));
    }
}
pub proof fn spread_one(c: char, cs: Seq<char>, x: Seq<char>)
    ensures spread(seq![c], cs, x) == (if cs.contains(c) { x } else { seq![c] }),
{
    let s = seq![c];
    assert(s.skip(1) =~= Seq::<char>::empty());
    assert(spread(s.skip(1), cs, x) =~= Seq::<char>::empty());
    assert(x.add(Seq::<char>::empty()) =~= x);
    assert(s.add(Seq::<char>::empty()) =~= s);
}
pub proof fn spread_none(s: Seq<char>, cs: Seq<char>, x: Seq<char>)
    requires apart(s, cs),
    ensures spread(s, cs, x) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies !cs.contains(#[trigger] s.skip(1)[i]) by { assert(!cs.contains(s[i + 1])); }
        spread_none(s.skip(1), cs, x);
        assert(!cs.contains(s[0]));
        assert(seq![s[0]].add(s.skip(1)) =~= s);
    }
}
/// one more character is replaced
pub proof fn spread_more(s: Seq<char>, a: Seq<char>, c: char, x: Seq<char>)
    requires !x.contains(c),
    ensures spread(spread(s, a, x), seq![c], x) == spread(s, a.push(c), x),
    decreases s.len(),
{
    if s.len() > 0 {
        spread_more(s.skip(1), a, c, x);
        let t = spread(s.skip(1), a, x);
        assert(a.push(c).contains(s[0]) <==> a.contains(s[0]) || s[0] == c) by {
            if a.contains(s[0]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == s[0]; assert(a.push(c)[i] == s[0]); }
            assert(a.push(c)[a.len() as int] == c);
        }
        if a.contains(s[0]) {
            assert(apart(x, seq![c])) by {
                assert forall|i: int| 0 <= i < x.len() implies !seq![c].contains(#[trigger] x[i]) by { assert(x.contains(x[i])); }
            }
            spread_none(x, seq![c], x);
            spread_add(x, t, seq![c], x);
        } else {
            spread_one(s[0], seq![c], x);
            assert(seq![c].contains(s[0]) <==> s[0] == c) by { assert(seq![c][0] == c); }
            spread_add(seq![s[0]], t, seq![c], x);
        }
    }
}
/// replace of a single character
pub proof fn replace_one(s: Seq<char>, c: char, y: Seq<char>)
    ensures str_replace(s, seq![c], y) == spread(s, seq![c], y),
    decreases s.len(),
{
    let x = seq![c];
    let i = str_find(s, x);
    find_bound(s, x, 0);
    assert(x.contains(c)) by { assert(x[0] == c); }
    if i < 0 {
        assert forall|j: int| 0 <= j < s.len() implies !x.contains(#[trigger] s[j]) by {
            if s[j] == c { assert(s.subrange(j, j + 1) =~= x); assert(occurs(s, x, j)); }
        }
        spread_none(s, x, y);
        join_one(y, s);
    } else {
        let a = s.take(i);
        let r = s.skip(i + 1);
        assert forall|j: int| 0 <= j < a.len() implies !x.contains(#[trigger] a[j]) by {
            if a[j] == c { assert(s.subrange(j, j + 1) =~= x); assert(occurs(s, x, j)); }
        }
        spread_none(a, x, y);
        replace_one(r, c, y);
        let ps = str_split(r, x);
        assert(ps.len() >= 1) by { }
        let all = seq![a].add(ps);
        join_first(y, all);
        assert(all.skip(1) =~= ps);
        assert(s[i] == c) by { assert(s.subrange(i, i + 1)[0] == c); }
        let b = seq![c].add(r);
        assert(s =~= a.add(b));
        spread_add(a, b, x, y);
        assert(b.skip(1) =~= r && b[0] == c);
        assert(str_join(y, all) =~= a.add(y.add(str_join(y, ps))));
    }
}
/// replacing in a joined text
pub proof fn spread_join(x: Seq<char>, parts: Seq<Seq<char>>, cs: Seq<char>, y: Seq<char>)
    ensures spread(str_join(x, parts), cs, y) == str_join(spread(x, cs, y), Seq::new(parts.len(), |i: int| spread(parts[i], cs, y))),
    decreases parts.len(),
{
    let q = Seq::new(parts.len(), |i: int| spread(parts[i], cs, y));
    if parts.len() == 1 {
        assert(q[0] == spread(parts[0], cs, y));
    } else if parts.len() > 1 {
        let d = parts.drop_last();
        spread_join(x, d, cs, y);
        assert(q.drop_last() =~= Seq::new(d.len(), |i: int| spread(d[i], cs, y)));
        spread_add(str_join(x, d), x, cs, y);
        spread_add(str_join(x, d).add(x), parts.last(), cs, y);
        assert(q.last() == spread(parts.last(), cs, y));
    }
}
/// stripping removes nothing that counts if what is left without cs holds no white space
pub proof fn strip_without(s: Seq<char>, cs: Seq<char>)
    requires forall|i: int| 0 <= i < sans(s, cs).len() ==> !is_space(#[trigger] sans(s, cs)[i]),
    ensures sans(str_strip(s), cs) == sans(s, cs),
{
    lstrip_without(s, cs);
    rstrip_without(str_lstrip(s), cs);
}
proof fn lstrip_without(s: Seq<char>, cs: Seq<char>)
    requires forall|i: int| 0 <= i < sans(s, cs).len() ==> !is_space(#[trigger] sans(s, cs)[i]),
    ensures sans(str_lstrip(s), cs) == sans(s, cs),
    decreases s.len(),
{
    if s.len() > 0 && is_space(s[0]) {
        if !cs.contains(s[0]) { assert(sans(s, cs)[0] == s[0]); }
        assert(sans(s, cs) =~= sans(s.skip(1), cs));
        lstrip_without(s.skip(1), cs);
    }
}
proof fn rstrip_without(s: Seq<char>, cs: Seq<char>)
    requires forall|i: int| 0 <= i < sans(s, cs).len() ==> !is_space(#[trigger] sans(s, cs)[i]),
    ensures sans(str_rstrip(s), cs) == sans(s, cs),
    decreases s.len(),
{
    if s.len() > 0 && is_space(s.last()) {
        let l = seq![s.last()];
        assert(s =~= s.drop_last().add(l));
        spread_add(s.drop_last(), l, cs, Seq::empty());
        spread_one(s.last(), cs, Seq::empty());
        if !cs.contains(s.last()) {
            let n = sans(s, cs).len() - 1;
            assert(sans(s, cs)[n] == s.last());
        }
        assert(sans(s, cs) =~= sans(s.drop_last(), cs));
        rstrip_without(s.drop_last(), cs);
    }
}
pub proof fn strip_none(s: Seq<char>)
    requires s.len() > 0 ==> !is_space(s[0]) && !is_space(s.last()),
    ensures str_strip(s) == s,
{ }
