// needs: cuts acts
// Actions as text.
pub open spec fn comma() -> Seq<char> { seq![','] }
pub open spec fn field_char(c: char) -> bool { is_qual(c) || is_digit(c) || c == ',' }
/// the text of some fields
pub open spec fn fields_text(t: Seq<char>, w: int, h: int, cs: Seq<(int, int)>) -> bool { denotes(t, w, h, comma(), number_sep(w, h, Seq::empty()), cs) }
pub open spec fn digit_texts(q: Seq<int>) -> Seq<Seq<char>> { Seq::new(q.len(), |i: int| int_str(q[i])) }
pub open spec fn one_digit(q: Seq<int>) -> bool { forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] <= 9 }
pub open spec fn set_parts(s: Seq<char>, w: int, h: int, a: SetNumber, t: Seq<char>) -> bool {
    fields_text(t, w, h, a.coordinates) && a.number >= 0 && s == t.add(seq!['=']).add(int_str(a.number))
}
pub open spec fn remove_parts(s: Seq<char>, w: int, h: int, a: RemoveCandidates, t: Seq<char>, q: Seq<int>) -> bool {
    &&& fields_text(t, w, h, a.coordinates) && s == t.add(seq!['<', '>']).add(str_join(Seq::empty(), digit_texts(q)))
    &&& one_digit(q) && forall|c: int| #[trigger] q.contains(c) <==> a.candidates.contains(c)
}
/// s is a text for a
pub open spec fn action_text(s: Seq<char>, w: int, h: int, a: AnyAction) -> bool {
    match a {
        AnyAction::SetNumber(x) => exists|t: Seq<char>| #[trigger] set_parts(s, w, h, x, t),
        AnyAction::RemoveCandidates(x) => exists|t: Seq<char>, q: Seq<int>| #[trigger] remove_parts(s, w, h, x, t, q),
    }
}
pub open spec fn action_fields(a: AnyAction) -> Seq<(int, int)> { match a { AnyAction::SetNumber(x) => x.coordinates, AnyAction::RemoveCandidates(x) => x.coordinates } }
/// fields in the grid and values of one digit (any number from 0 for setting)
pub open spec fn sayable(a: AnyAction, w: int, h: int) -> bool {
    &&& dims(w, h) && action_fields(a).len() > 0
    &&& forall|i: int| 0 <= i < action_fields(a).len() ==> ingrid(w, h, #[trigger] action_fields(a)[i])
    &&& match a { AnyAction::SetNumber(x) => x.number >= 0, AnyAction::RemoveCandidates(x) => one_digit(x.candidates) }
}
pub open spec fn same_fields(a: Seq<(int, int)>, b: Seq<(int, int)>) -> bool { forall|f: (int, int)| #[trigger] a.contains(f) <==> b.contains(f) }
/// the same kind, fields and values
pub open spec fn same_action(a: AnyAction, b: AnyAction) -> bool {
    match a {
        AnyAction::SetNumber(x) => b is SetNumber && x.number == b->SetNumber_0.number && same_fields(x.coordinates, b->SetNumber_0.coordinates),
        AnyAction::RemoveCandidates(x) => b is RemoveCandidates && same_fields(x.coordinates, b->RemoveCandidates_0.coordinates)
            && forall|c: int| #[trigger] x.candidates.contains(c) <==> b->RemoveCandidates_0.candidates.contains(c),
    }
}
// ---- what the text of fields looks like -----------------------------------
pub proof fn fields_chars(t: Seq<char>, w: int, h: int, cs: Seq<(int, int)>)
    requires fields_text(t, w, h, cs),
    ensures t.len() > 0, is_qual(t[0]), forall|i: int| 0 <= i < t.len() ==> field_char(#[trigger] t[i]),
{
    let n = number_sep(w, h, Seq::empty());
    comma_neat();
    let gs = choose|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, comma(), n) && forall|f: (int, int)| #[trigger] cs.contains(f) <==> some_group(gs, w, h, n, f);
    let p = |c: char| field_char(c);
    assert forall|k: int, i: int| 0 <= k < gs.len() && 0 <= i < gs[k].len() implies #[trigger] p(gs[k][i]) by {
        ok_tidy(gs[k], w, h, n);
        assert(legal_char(gs[k][i], n));
    }
    assert forall|i: int| 0 <= i < comma().len() implies #[trigger] p(comma()[i]) by { }
    join_all(comma(), gs, p);
    assert forall|i: int| 0 <= i < t.len() implies field_char(#[trigger] t[i]) by { assert(p(str_join(comma(), gs)[i])); }
    ok_tidy(gs[0], w, h, n);
    lead(comma(), gs);
}
proof fn free_of(t: Seq<char>, x: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> field_char(#[trigger] t[i]), forall|i: int| 0 <= i < x.len() ==> !field_char(#[trigger] x[i]),
    ensures apart(t, x),
{ }
/// a text is split at its mark
proof fn mark_first(t: Seq<char>, x: Seq<char>, rest: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> field_char(#[trigger] t[i]), x.len() > 0, forall|i: int| 0 <= i < x.len() ==> !field_char(#[trigger] x[i]),
    ensures str_contains(t.add(x).add(rest), x), str_partition(t.add(x).add(rest), x) == (t, x, rest),
{
    free_of(t, x);
    find_first(t, x, rest);
    let s = t.add(x).add(rest);
    assert(s.take(t.len() as int) =~= t);
    assert(s.skip((t.len() + x.len()) as int) =~= rest);
}
proof fn ends_plain(s: Seq<char>)
    requires s.len() > 0, is_qual(s[0]), is_digit(s.last()) || s.last() == '>',
    ensures str_strip(s) == s, !str_startswith(s, seq!['-']),
{
    strip_none(s);
    assert(s.subrange(0, 1)[0] == s[0]);
    assert(seq!['-'][0] == '-');
}
pub proof fn set_read(s: Seq<char>, w: int, h: int, a: SetNumber)
    requires action_text(s, w, h, AnyAction::SetNumber(a)),
    ensures ({
        let p = str_partition(s, seq!['=']);
        &&& str_strip(s) == s && !str_startswith(s, seq!['-']) && !str_contains(s, seq!['<', '>']) && str_contains(s, seq!['='])
        &&& fields_text(p.0, w, h, a.coordinates) && is_int_str(p.2) && str_int(p.2) == a.number
    }),
{
    let t = choose|t: Seq<char>| #[trigger] set_parts(s, w, h, a, t);
    fields_chars(t, w, h, a.coordinates);
    nat_str_is(a.number);
    int_of_str(a.number);
    let d = int_str(a.number);
    assert(is_digit(d[d.len() - 1]));
    assert(s.last() == d.last());
    assert(s[0] == t[0]);
    ends_plain(s);
    mark_first(t, seq!['='], d);
    assert(apart(s, seq!['<', '>'])) by {
        assert forall|i: int| 0 <= i < s.len() implies !seq!['<', '>'].contains(#[trigger] s[i]) by {
            if i < t.len() { assert(s[i] == t[i]); assert(field_char(t[i])); } else if i > t.len() { assert(s[i] == d[i - t.len() - 1]); assert(is_digit(d[i - t.len() - 1])); }
        }
    }
    find_none(s, seq!['<', '>']);
}
proof fn digits_joined(q: Seq<int>)
    requires one_digit(q),
    ensures ({
        let d = str_join(Seq::empty(), digit_texts(q));
        &&& d.len() == q.len() && chars_of(d) == digit_texts(q)
        &&& forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])
        &&& forall|i: int| 0 <= i < q.len() ==> is_int_str(#[trigger] chars_of(d)[i]) && str_int(chars_of(d)[i]) == q[i]
    }),
{
    let d = str_join(Seq::empty(), digit_texts(q));
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] digit_texts(q)[i]).len() == 1 && is_int_str(digit_texts(q)[i]) && str_int(digit_texts(q)[i]) == q[i] && is_digit(digit_texts(q)[i][0]) by {
        int_of_str(q[i]); digit_char(q[i]);
    }
    join_chars(digit_texts(q));
    assert(chars_of(d).len() == d.len());
    assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { assert(chars_of(d)[i] == digit_texts(q)[i]); assert(chars_of(d)[i][0] == d[i]); }
}
pub proof fn remove_read(s: Seq<char>, w: int, h: int, a: RemoveCandidates)
    requires action_text(s, w, h, AnyAction::RemoveCandidates(a)),
    ensures ({
        let p = str_partition(s, seq!['<', '>']);
        &&& str_strip(s) == s && !str_startswith(s, seq!['-']) && str_contains(s, seq!['<', '>'])
        &&& fields_text(p.0, w, h, a.coordinates)
        &&& forall|i: int| 0 <= i < chars_of(p.2).len() ==> is_int_str(#[trigger] chars_of(p.2)[i])
        &&& forall|c: int| #[trigger] a.candidates.contains(c) <==> exists|i: int| 0 <= i < chars_of(p.2).len() && str_int(#[trigger] chars_of(p.2)[i]) == c
    }),
{
    let (t, q) = choose|t: Seq<char>, q: Seq<int>| #[trigger] remove_parts(s, w, h, a, t, q);
    fields_chars(t, w, h, a.coordinates);
    let d = str_join(Seq::empty(), digit_texts(q));
    digits_joined(q);
    let m = seq!['<', '>'];
    if d.len() > 0 { assert(s.last() == d.last()); assert(is_digit(d[d.len() - 1])); } else { assert(s.last() == m[1]); }
    assert(s[0] == t[0]);
    ends_plain(s);
    mark_first(t, m, d);
    assert forall|c: int| #[trigger] a.candidates.contains(c) <==> exists|i: int| 0 <= i < chars_of(d).len() && str_int(#[trigger] chars_of(d)[i]) == c by {
        if a.candidates.contains(c) {
            assert(q.contains(c));
            let i = choose|i: int| 0 <= i < q.len() && q[i] == c;
            assert(str_int(chars_of(d)[i]) == c);
        }
        if exists|i: int| 0 <= i < chars_of(d).len() && str_int(#[trigger] chars_of(d)[i]) == c {
            let i = choose|i: int| 0 <= i < chars_of(d).len() && str_int(#[trigger] chars_of(d)[i]) == c;
            assert(q[i] == c);
            assert(q.contains(c));
        }
    }
}
/// fields read back from their text
pub proof fn fields_back(t: Seq<char>, w: int, h: int, cs: Seq<(int, int)>)
    requires fields_text(t, w, h, cs),
    ensures ({
        let n = number_sep(w, h, Seq::empty());
        let u = unblanked(t, comma(), n);
        &&& reads(u, w, h, comma(), n)
        &&& forall|ds: Seq<(int, int)>| #[trigger] denotes(u, w, h, comma(), n, ds) ==> same_fields(ds, cs)
    }),
{
    let n = number_sep(w, h, Seq::empty());
    comma_neat();
    assert forall|ds: Seq<(int, int)>| #[trigger] denotes(unblanked(t, comma(), n), w, h, comma(), n, ds) implies same_fields(ds, cs) by { notation_round_trip(t, w, h, comma(), n, cs, ds); }
    notation_round_trip(t, w, h, comma(), n, cs, cs);
}
pub broadcast proof fn digits_comp(nsep: Seq<char>, s: Seq<int>, p: spec_fn(int) -> bool, f: spec_fn(int) -> Seq<char>)
    requires forall|x: int| #[trigger] p(x), forall|x: int| #[trigger] f(x) == int_str(x),
    ensures #[trigger] str_join(nsep, comp(s, p, f)) == str_join(nsep, digit_texts(s)),
{
    broadcast use prelude_facts;
    assert(comp(s, p, f) =~= digit_texts(s));
}
pub broadcast group acttext_facts { digits_comp }
/// a text put together from the text t of the fields
pub proof fn action_told(s: Seq<char>, t: Seq<char>, w: int, h: int, a: AnyAction)
    ensures
        a is SetNumber && a->SetNumber_0.number >= 0 && fields_text(t, w, h, action_fields(a)) && s =~= t.add(seq!['=']).add(int_str(a->SetNumber_0.number)) ==> action_text(s, w, h, a),
        a is RemoveCandidates && fields_text(t, w, h, action_fields(a)) ==> forall|q: Seq<int>|
            s =~= t.add(seq!['<', '>']).add(#[trigger] str_join(Seq::empty(), digit_texts(q))) && one_digit(q) && (forall|c: int| #[trigger] q.contains(c) <==> a->RemoveCandidates_0.candidates.contains(c))
            ==> action_text(s, w, h, a),
        a is RemoveCandidates && one_digit(a->RemoveCandidates_0.candidates) ==> forall|q: Seq<int>|
            (forall|c: int| #[trigger] q.contains(c) ==> a->RemoveCandidates_0.candidates.contains(c)) ==> #[trigger] one_digit(q),
{
    if a is SetNumber && fields_text(t, w, h, action_fields(a)) && s =~= t.add(seq!['=']).add(int_str(a->SetNumber_0.number)) && a->SetNumber_0.number >= 0 {
        assert(set_parts(s, w, h, a->SetNumber_0, t));
    }
    if a is RemoveCandidates && fields_text(t, w, h, action_fields(a)) {
        assert forall|q: Seq<int>|
            s =~= t.add(seq!['<', '>']).add(#[trigger] str_join(Seq::empty(), digit_texts(q))) && one_digit(q) && (forall|c: int| #[trigger] q.contains(c) <==> a->RemoveCandidates_0.candidates.contains(c))
            implies action_text(s, w, h, a) by { assert(remove_parts(s, w, h, a->RemoveCandidates_0, t, q)); }
    }
    if a is RemoveCandidates && one_digit(a->RemoveCandidates_0.candidates) {
        let cs = a->RemoveCandidates_0.candidates;
        assert forall|q: Seq<int>| (forall|c: int| #[trigger] q.contains(c) ==> cs.contains(c)) implies #[trigger] one_digit(q) by {
            assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] <= 9 by { assert(q.contains(q[i])); let k = choose|k: int| 0 <= k < cs.len() && cs[k] == q[i]; assert(0 <= cs[k] <= 9); }
        }
    }
}
/// what the parts of a text for a are
pub open spec fn fields_heard(t: Seq<char>, w: int, h: int, cs: Seq<(int, int)>) -> bool {
    let n = number_sep(w, h, Seq::empty());
    let u = unblanked(t, comma(), n);
    &&& reads(u, w, h, comma(), n)
    &&& forall|ds: Seq<(int, int)>| #[trigger] denotes(u, w, h, comma(), n, ds) ==> same_fields(ds, cs)
}
pub open spec fn heard(s: Seq<char>, w: int, h: int, a: AnyAction) -> bool {
    match a {
        AnyAction::SetNumber(x) => {
            let p = str_partition(s, seq!['=']);
            !str_contains(s, seq!['<', '>']) && str_contains(s, seq!['=']) && fields_heard(p.0, w, h, x.coordinates) && is_int_str(p.2) && str_int(p.2) == x.number
        },
        AnyAction::RemoveCandidates(x) => {
            let p = str_partition(s, seq!['<', '>']);
            &&& str_contains(s, seq!['<', '>']) && fields_heard(p.0, w, h, x.coordinates)
            &&& forall|k: Seq<char>| #[trigger] chars_of(p.2).contains(k) ==> is_int_str(k)
            &&& forall|c: int| #[trigger] x.candidates.contains(c) <==> exists|k: Seq<char>| #[trigger] chars_of(p.2).contains(k) && str_int(k) == c
        },
    }
}
pub proof fn action_heard(s: Seq<char>, w: int, h: int)
    requires exists|a: AnyAction| #[trigger] action_text(s, w, h, a),
    ensures str_strip(s) == s, !str_startswith(s, seq!['-']), forall|a: AnyAction| #[trigger] action_text(s, w, h, a) ==> heard(s, w, h, a),
{
    comma_neat();
    assert forall|a: AnyAction| #[trigger] action_text(s, w, h, a) implies str_strip(s) == s && !str_startswith(s, seq!['-']) && heard(s, w, h, a) by {
        match a {
            AnyAction::SetNumber(x) => { set_read(s, w, h, x); fields_back(str_partition(s, seq!['=']).0, w, h, x.coordinates); },
            AnyAction::RemoveCandidates(x) => {
                remove_read(s, w, h, x);
                let p = str_partition(s, seq!['<', '>']);
                fields_back(p.0, w, h, x.coordinates);
                let cs = chars_of(p.2);
                assert forall|k: Seq<char>| #[trigger] cs.contains(k) implies is_int_str(k) by { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == k; assert(is_int_str(cs[i])); }
                assert forall|c: int| #[trigger] x.candidates.contains(c) <==> exists|k: Seq<char>| #[trigger] cs.contains(k) && str_int(k) == c by {
                    if x.candidates.contains(c) {
                        let i = choose|i: int| 0 <= i < cs.len() && str_int(#[trigger] cs[i]) == c;
                        assert(cs.contains(cs[i]));
                    }
                    if exists|k: Seq<char>| #[trigger] cs.contains(k) && str_int(k) == c {
                        let k = choose|k: Seq<char>| #[trigger] cs.contains(k) && str_int(k) == c;
                        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == k;
                        assert(str_int(cs[i]) == c);
                    }
                }
            },
        }
    }
}
