// needs: notes
// Texts of coordinates cut into groups.

/// x holds a white space character
pub open spec fn holds_blank(x: Seq<char>) -> bool { exists|q: Seq<char>| #[trigger] chars_of(blanks()).contains(q) && str_contains(x, q) }
/// s without the white space that counts for nothing
pub open spec fn unblanked(s: Seq<char>, sep: Seq<char>, nsep: Seq<char>) -> Seq<char> { if holds_blank(sep) || holds_blank(nsep) { s } else { sans(s, blanks()) } }
pub open spec fn quals() -> Seq<char> { seq!['r', 'c', 'b', 'p'] }
/// a separator of groups
pub open spec fn group_sep(sep: Seq<char>) -> bool { sep.len() > 0 && digit_free(sep) && qual_free(sep) }
pub open spec fn uncut(g: Seq<char>, sep: Seq<char>, qs: Seq<char>) -> bool { forall|q: char| #[trigger] qs.contains(q) ==> !str_contains(g, sep.push(q)) }
pub open spec fn led(g: Seq<char>) -> bool { g.len() > 0 && is_qual(g[0]) }
/// the groups of t, cut before qualifiers of qs
#[verifier::opaque]
pub open spec fn cut(gs: Seq<Seq<char>>, t: Seq<char>, sep: Seq<char>, qs: Seq<char>) -> bool {
    &&& gs.len() > 0 && str_join(sep, gs) == t
    &&& forall|k: int| 0 <= k < gs.len() ==> uncut(#[trigger] gs[k], sep, qs)
    &&& forall|k: int| 1 <= k < gs.len() ==> led(#[trigger] gs[k])
}
/// the parts of a split, with the qualifier that was cut off
pub open spec fn marked(ps: Seq<Seq<char>>, c: Seq<char>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| if i > 0 { c.add(ps[i]) } else { ps[i] }) }

proof fn within_part(s: Seq<char>, a: Seq<char>, x: Seq<char>)
    requires str_contains(s, a), str_contains(a, x),
    ensures str_contains(s, x),
{
    let i = choose|i: int| #[trigger] occurs(s, a, i);
    let j = choose|j: int| #[trigger] occurs(a, x, j);
    assert(s.subrange(i + j, i + j + x.len()) =~= s.subrange(i, i + a.len()).subrange(j, j + x.len()));
    assert(occurs(s, x, i + j));
}
/// splitting once
proof fn split_step(s: Seq<char>, x: Seq<char>)
    requires x.len() > 0,
    ensures ({
        let i = str_find(s, x);
        &&& i < 0 ==> str_split(s, x) == seq![s] && !str_contains(s, x)
        &&& i >= 0 ==> i + x.len() <= s.len() && str_split(s, x) == seq![s.take(i)].add(str_split(s.skip(i + x.len()), x)) && occurs(s, x, i) && !str_contains(s.take(i), x)
    }),
{
    let i = str_find(s, x);
    find_bound(s, x, 0);
    if i < 0 {
        if str_contains(s, x) { let j = choose|j: int| #[trigger] occurs(s, x, j); }
    } else if str_contains(s.take(i), x) {
        let j = choose|j: int| #[trigger] occurs(s.take(i), x, j);
        assert(s.subrange(j, j + x.len()) =~= s.take(i).subrange(j, j + x.len()));
        assert(occurs(s, x, j));
    }
}
proof fn part_at(s: Seq<char>, r: Seq<char>, o: int, a: Seq<char>)
    requires 0 <= o <= s.len(), r == s.skip(o), str_contains(r, a),
    ensures str_contains(s, a),
{
    let j = choose|j: int| #[trigger] occurs(r, a, j);
    assert(s.subrange(o + j, o + j + a.len()) =~= r.subrange(j, j + a.len()));
    assert(occurs(s, a, o + j));
}
proof fn prefix_in(s: Seq<char>, a: Seq<char>)
    requires a.len() <= s.len(), a == s.take(a.len() as int),
    ensures str_contains(s, a),
{
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(occurs(s, a, 0));
}
spec fn part_ok(s: Seq<char>, x: Seq<char>, m: Seq<char>, p: Seq<char>) -> bool { str_contains(s, m) && !str_contains(p, x) }
/// splitting at sep + c: the marked parts are parts of s, joined by sep they are s
proof fn split_marked(s: Seq<char>, sep: Seq<char>, c: char)
    ensures ({
        let x = sep.push(c);
        let ps = str_split(s, x);
        let m = marked(ps, seq![c]);
        &&& m.len() >= 1 && str_join(sep, m) == s
        &&& forall|k: int| 0 <= k < m.len() ==> part_ok(s, x, #[trigger] m[k], ps[k])
        &&& ps[0].len() <= s.len() && ps[0] == s.take(ps[0].len() as int)
        &&& (ps.len() > 1 ==> occurs(s, x, ps[0].len() as int))
    }),
    decreases s.len(),
{
    hide(str_split);
    hide(str_join);
    hide(find_from);
    let x = sep.push(c);
    let i = str_find(s, x);
    let ps = str_split(s, x);
    let q = seq![c];
    let m = marked(ps, q);
    split_step(s, x);
    if i < 0 {
        assert(m =~= seq![s]);
        join_one(sep, s);
        assert(s.take(s.len() as int) =~= s);
        prefix_in(s, s);
        assert(part_ok(s, x, m[0], ps[0]));
    } else {
        let o = i + x.len();
        let r = s.skip(o);
        split_marked(r, sep, c);
        let pr = str_split(r, x);
        let mr = marked(pr, q);
        let qr = q.add(r);
        assert(s.subrange(i, i + x.len())[sep.len() as int] == x[sep.len() as int]);
        assert(s.skip(i + sep.len()) =~= qr) by {
            assert forall|j: int| 0 <= j < qr.len() implies s.skip(i + sep.len())[j] == qr[j] by { if j > 0 { assert(qr[j] == r[j - 1]); } else { assert(qr[0] == c); } }
        }
        let t = m.skip(1);
        assert(ps.len() == pr.len() + 1);
        assert(t.len() == pr.len());
        assert(t[0] == q.add(pr[0]));
        assert(s.take(i).len() == i);
        assert(ps[0] == s.take(i));
        assert(m[0] == ps[0]);
        prefix_in(s, s.take(i));
        assert forall|k: int| 0 <= k < m.len() implies part_ok(s, x, #[trigger] m[k], ps[k]) by {
            if k > 0 {
                assert(ps[k] == pr[k - 1]);
                assert(part_ok(r, x, mr[k - 1], pr[k - 1]));
                if k == 1 {
                    assert(m[1] == q.add(pr[0]));
                    assert(qr.take(m[1].len() as int) =~= m[1]) by {
                        assert forall|j: int| 0 < j < m[1].len() implies qr[j] == m[1][j] by { assert(r.take(pr[0].len() as int)[j - 1] == r[j - 1]); }
                    }
                    prefix_in(qr, m[1]);
                    part_at(s, qr, i + sep.len(), m[1]);
                } else {
                    assert(m[k] == mr[k - 1]);
                    part_at(s, r, o, m[k]);
                }
            }
        }
        assert forall|k: int| 1 <= k < t.len() implies #[trigger] t[k] == mr[k] by { assert(ps[k + 1] == pr[k]); }
        mark_join(sep, q, t, mr);
        join_first(sep, m);
        assert(s.subrange(i, i + sep.len()) =~= sep) by {
            assert forall|j: int| 0 <= j < sep.len() implies s[i + j] == sep[j] by { assert(s.subrange(i, i + x.len())[j] == x[j]); }
        }
        assert(s.take(i).add(sep).add(qr) =~= s);
    }
}
/// a mark on the first part is a mark on the whole
proof fn mark_join(sep: Seq<char>, q: Seq<char>, t: Seq<Seq<char>>, u: Seq<Seq<char>>)
    requires u.len() > 0, t.len() == u.len(), t[0] == q.add(u[0]), forall|k: int| 1 <= k < t.len() ==> #[trigger] t[k] == u[k],
    ensures str_join(sep, t) == q.add(str_join(sep, u)),
    decreases t.len(),
{
    if t.len() > 1 {
        join_first(sep, t);
        join_first(sep, u);
        assert(t.skip(1) =~= u.skip(1));
        assert(str_join(sep, t) =~= q.add(str_join(sep, u)));
    }
}
pub proof fn cut_start(t: Seq<char>, sep: Seq<char>)
    ensures cut(Seq::<Seq<char>>::empty().push(t), t, sep, quals().take(0)), quals().take(4) == quals(),
{
    reveal(cut);
    let g = Seq::<Seq<char>>::empty().push(t);
    assert(g =~= seq![t]);
    join_one(sep, t);
    assert(quals().take(0) =~= Seq::<char>::empty());
    assert(quals().take(4) =~= quals());
    assert forall|k: int| 0 <= k < g.len() implies uncut(#[trigger] g[k], sep, quals().take(0)) by { }
}
proof fn taken_one(qs: Seq<char>, n: int, q: char)
    requires 0 <= n < qs.len(),
    ensures qs.take(n + 1).contains(q) <==> qs.take(n).contains(q) || q == qs[n],
{
    assert(qs.take(n + 1) =~= qs.take(n).push(qs[n]));
    let a = qs.take(n);
    let b = a.push(qs[n]);
    if a.contains(q) { let k = choose|k: int| 0 <= k < n && a[k] == q; assert(b[k] == q); }
    assert(b[n] == qs[n]);
    if b.contains(q) && q != qs[n] { let k = choose|k: int| 0 <= k < b.len() && b[k] == q; assert(a[k] == q); }
}
/// no mark at the start of sep
proof fn mark_free(m: Seq<char>, p: Seq<char>, sep: Seq<char>, c: char)
    requires group_sep(sep), is_qual(c), m == seq![c].add(p), !str_contains(p, sep.push(c)),
    ensures !str_contains(m, sep.push(c)),
{
    let x = sep.push(c);
    if str_contains(m, x) {
        let j = choose|j: int| #[trigger] occurs(m, x, j);
        if j == 0 { assert(m.subrange(0, x.len() as int)[0] == m[0]); assert(m[0] == c); assert(x[0] == sep[0]); assert(sep.contains(sep[0])); }
        else { assert(m.subrange(j, j + x.len()) =~= p.subrange(j - 1, j - 1 + x.len())); assert(occurs(p, x, j - 1)); }
    }
}
proof fn part_uncut(g: Seq<char>, m: Seq<char>, sep: Seq<char>, n: int)
    requires 0 <= n < 4, uncut(g, sep, quals().take(n)), str_contains(g, m), !str_contains(m, sep.push(quals()[n])),
    ensures uncut(m, sep, quals().take(n + 1)),
{
    assert forall|q: char| #[trigger] quals().take(n + 1).contains(q) implies !str_contains(m, sep.push(q)) by {
        taken_one(quals(), n, q);
        if quals().take(n).contains(q) {
            if str_contains(m, sep.push(q)) { within_part(g, m, sep.push(q)); }
        }
    }
}
proof fn head_led(g: Seq<char>, ps: Seq<Seq<char>>, sep: Seq<char>, c: char)
    requires group_sep(sep), led(g), ps.len() > 0, ps[0].len() <= g.len(), ps[0] == g.take(ps[0].len() as int), ps.len() > 1 ==> occurs(g, sep.push(c), ps[0].len() as int),
        ps.len() == 1 ==> ps[0] == g,
    ensures led(ps[0]),
{
    let x = sep.push(c);
    if ps.len() > 1 && ps[0].len() == 0 {
        assert(occurs(g, x, 0));
        assert(g.subrange(0, x.len() as int)[0] == g[0]);
        assert(x[0] == sep[0]);
        assert(sep.contains(sep[0]));
    }
    assert(ps[0][0] == g[0]);
}
/// the parts of a group, cut at one more qualifier
proof fn group_cut(g: Seq<char>, first: bool, sep: Seq<char>, n: int)
    requires group_sep(sep), 0 <= n < 4, uncut(g, sep, quals().take(n)), first || led(g),
    ensures ({
        let c = quals()[n];
        let m = marked(str_split(g, sep.push(c)), seq![c]);
        &&& m.len() > 0 && str_join(sep, m) == g
        &&& forall|k: int| 0 <= k < m.len() ==> uncut(#[trigger] m[k], sep, quals().take(n + 1)) && (k > 0 || !first ==> led(m[k]))
    }),
{
    hide(str_split);
    hide(str_join);
    let c = quals()[n];
    let x = sep.push(c);
    let ps = str_split(g, x);
    let m = marked(ps, seq![c]);
    split_marked(g, sep, c);
    assert(is_qual(c));
    assert forall|k: int| 0 <= k < m.len() implies uncut(#[trigger] m[k], sep, quals().take(n + 1)) && (k > 0 || !first ==> led(m[k])) by {
        assert(part_ok(g, x, m[k], ps[k]));
        if k > 0 { mark_free(m[k], ps[k], sep, c); assert(m[k][0] == c); }
        else if !first {
            if ps.len() == 1 { assert(m =~= seq![ps[0]]); join_one(sep, ps[0]); }
            head_led(g, ps, sep, c);
        }
        part_uncut(g, m[k], sep, n);
    }
}
/// before the groups are cut at one more qualifier
#[verifier::opaque]
pub open spec fn cut_part(ng: Seq<Seq<char>>, gs: Seq<Seq<char>>, n: int, sep: Seq<char>, k: int) -> bool {
    if n == 0 { ng.len() == 0 } else { cut(ng, str_join(sep, gs.take(n)), sep, quals().take(k + 1)) }
}
pub proof fn part_start(gs: Seq<Seq<char>>, sep: Seq<char>, k: int)
    ensures cut_part(Seq::empty(), gs, 0, sep, k),
{ reveal(cut_part); }
pub proof fn part_more(ng: Seq<Seq<char>>, gs: Seq<Seq<char>>, n: int, t: Seq<char>, sep: Seq<char>, k: int)
    requires group_sep(sep), 0 <= n < gs.len(), 0 <= k < 4, cut(gs, t, sep, quals().take(k)), cut_part(ng, gs, n, sep, k),
    ensures cut_part(ng.add(marked(str_split(gs[n], sep.push(quals()[k])), seq![quals()[k]])), gs, n + 1, sep, k),
{
    reveal(cut_part);
    reveal(cut);
    let m = marked(str_split(gs[n], sep.push(quals()[k])), seq![quals()[k]]);
    assert(uncut(gs[n], sep, quals().take(k)));
    if n > 0 { assert(led(gs[n])); }
    group_cut(gs[n], n == 0, sep, k);
    let r = ng.add(m);
    if n == 0 {
        assert(r =~= m);
        assert(gs.take(1) =~= seq![gs[0]]);
        join_one(sep, gs[0]);
        assert forall|i: int| 0 <= i < r.len() implies uncut(#[trigger] r[i], sep, quals().take(k + 1)) by { assert(uncut(m[i], sep, quals().take(k + 1))); }
        assert forall|i: int| 1 <= i < r.len() implies led(#[trigger] r[i]) by { assert(uncut(m[i], sep, quals().take(k + 1))); assert(led(m[i])); }
    } else {
        join_add(sep, ng, m);
        let d = gs.take(n + 1);
        assert(d.drop_last() =~= gs.take(n));
        assert(d.last() == gs[n]);
        assert forall|i: int| 0 <= i < r.len() implies uncut(#[trigger] r[i], sep, quals().take(k + 1)) by {
            if i < ng.len() { assert(uncut(ng[i], sep, quals().take(k + 1))); } else { assert(uncut(m[i - ng.len()], sep, quals().take(k + 1))); }
        }
        assert forall|i: int| 1 <= i < r.len() implies led(#[trigger] r[i]) by {
            if i < ng.len() { assert(led(ng[i])); } else { assert(uncut(m[i - ng.len()], sep, quals().take(k + 1))); assert(led(m[i - ng.len()])); }
        }
    }
}
pub proof fn part_end(ng: Seq<Seq<char>>, gs: Seq<Seq<char>>, t: Seq<char>, sep: Seq<char>, k: int)
    requires cut(gs, t, sep, quals().take(k)), cut_part(ng, gs, gs.len() as int, sep, k),
    ensures cut(ng, t, sep, quals().take(k + 1)),
{
    reveal(cut_part);
    assert(gs.len() > 0 && str_join(sep, gs) == t) by { reveal(cut); }
    assert(gs.take(gs.len() as int) =~= gs);
}
/// one part more
pub proof fn marked_more(ps: Seq<Seq<char>>, c: Seq<char>, n: int)
    requires 0 <= n < ps.len(),
    ensures marked(ps, c).take(n + 1) == marked(ps, c).take(n).push(if n > 0 { c.add(ps[n]) } else { ps[n] }),
{ assert(marked(ps, c).take(n + 1) =~= marked(ps, c).take(n).push(if n > 0 { c.add(ps[n]) } else { ps[n] })); }

// ---- the groups of a text are unique --------------------------------------
/// qualifiers within g follow digits
pub open spec fn tidy(g: Seq<char>) -> bool { led(g) && forall|i: int| 1 <= i < g.len() && is_qual(#[trigger] g[i]) ==> is_digit(g[i - 1]) }
proof fn piece_chars(t: Seq<char>, nsep: Seq<char>)
    requires item_ok(t, nsep), neat(nsep), forall|i: int| 0 <= i < t.len() ==> is_digit(#[trigger] t[i]) || nsep.contains(t[i]),
    ensures t.len() > 0, is_digit(t.last()),
{
    if nsep.len() == 0 {
        assert(pieces(t, nsep).len() == t.len());
        assert(!nsep.contains(t.last()));
        assert(is_digit(t[t.len() - 1]) || nsep.contains(t[t.len() - 1]));
    } else {
        last_piece(t, nsep[0]);
        let p = str_split(t, nsep);
        assert(nsep =~= seq![nsep[0]]);
        assert(pieces(t, nsep).contains(p.last())) by { assert(pieces(t, nsep)[p.len() - 1] == p.last()); }
        assert(is_int_str(p.last()));
        assert(t.last() == p.last().last());
        assert(is_digit(t[t.len() - 1]) || nsep.contains(t[t.len() - 1]));
        if nsep.contains(t.last()) { assert(t.last() == nsep[0]); }
    }
}
/// the last part of a split at x ends as the text and does not hold x
proof fn last_piece(t: Seq<char>, x: char)
    ensures ({
        let p = str_split(t, seq![x]);
        &&& p.len() > 0 && (p.last().len() > 0 ==> t.len() > 0 && p.last().last() == t.last() && t.last() != x)
    }),
    decreases t.len(),
{
    let s = seq![x];
    let p = str_split(t, s);
    let i = str_find(t, s);
    find_bound(t, s, 0);
    if i < 0 {
        assert(p == seq![t]);
        if t.len() > 0 && t.last() == x {
            let j = t.len() - 1;
            assert(t.subrange(j, j + 1) =~= s);
            assert(occurs(t, s, j));
        }
    } else {
        let r = t.skip(i + 1);
        last_piece(r, x);
        assert(p == seq![t.take(i)].add(str_split(r, s)));
        assert(p.last() == str_split(r, s).last());
        if r.len() > 0 { assert(r.last() == t.last()); }
    }
}
/// the text of the last item of what was read ends in the character before
proof fn token_end(g: Seq<char>, n: int)
    requires 1 <= n <= g.len(), led(g),
    ensures ({
        let t = tokens(g.take(n));
        &&& t.len() > 0
        &&& (t.last().1.len() > 0 ==> t.last().1.last() == g[n - 1])
        &&& (t.last().1.len() == 0 ==> is_qual(g[n - 1]))
        &&& forall|i: int| 0 <= i < t.last().1.len() ==> g.contains(#[trigger] t.last().1[i]) && !is_qual(t.last().1[i])
    }),
    decreases n,
{
    token_next(g, n - 1);
    if n == 1 {
        assert(g.take(0) =~= Seq::<char>::empty());
        assert(tokens(g.take(0)).len() == 0);
    } else {
        token_end(g, n - 1);
        let t = tokens(g.take(n));
        assert forall|i: int| 0 <= i < t.last().1.len() implies g.contains(#[trigger] t.last().1[i]) && !is_qual(t.last().1[i]) by {
            assert(g.contains(g[n - 1]));
            let t0 = tokens(g.take(n - 1));
            if !is_qual(g[n - 1]) && i < t.last().1.len() - 1 { assert(t.last().1[i] == t0.last().1[i]); }
        }
    }
}
pub proof fn ok_tidy(g: Seq<char>, w: int, h: int, nsep: Seq<char>)
    requires group_ok(g, w, h, nsep), neat(nsep),
    ensures tidy(g), forall|i: int| 0 <= i < g.len() ==> legal_char(#[trigger] g[i], nsep),
{
    reveal(group_ok);
    assert forall|i: int| 1 <= i < g.len() && is_qual(#[trigger] g[i]) implies is_digit(g[i - 1]) by {
        token_end(g, i);
        token_done(g, i);
        let t = tokens(g.take(i));
        let x = t.last().1;
        assert(t[t.len() - 1] == tokens(g)[t.len() - 1]);
        assert(item_ok(tokens(g)[t.len() - 1].1, nsep));
        assert forall|j: int| 0 <= j < x.len() implies is_digit(#[trigger] x[j]) || nsep.contains(x[j]) by {
            assert(g.contains(x[j]));
            let k = choose|k: int| 0 <= k < g.len() && g[k] == x[j];
            assert(legal_char(g[k], nsep));
        }
        piece_chars(x, nsep);
    }
}
/// a separator and a qualifier occur in a tidy text and what follows it only after it
proof fn occurs_after(b: Seq<char>, rest: Seq<char>, t: Seq<char>, sep: Seq<char>, q: char, p: int)
    requires tidy(b), group_sep(sep), is_qual(q), t == b || t == b.add(sep).add(rest), occurs(t, sep.push(q), p),
    ensures p >= b.len(),
{
    let x = sep.push(q);
    let e = p + sep.len();
    assert(t.subrange(p, p + x.len())[sep.len() as int] == q);
    assert(t[e] == q);
    assert(t.subrange(p, p + x.len())[sep.len() - 1] == sep.last());
    assert(t[e - 1] == sep.last());
    assert(sep.contains(sep[sep.len() - 1]));
    if e < b.len() {
        assert(b[e] == q && b[e - 1] == sep.last());
        assert(is_digit(b[e - 1]));
    } else if e < b.len() + sep.len() {
        assert(t[e] == sep[e - b.len()]);
        assert(sep.contains(sep[e - b.len()]));
    }
}
proof fn tidy_unique(a: Seq<Seq<char>>, b: Seq<Seq<char>>, t: Seq<char>, sep: Seq<char>)
    requires group_sep(sep), cut(a, t, sep, quals()), b.len() > 0, str_join(sep, b) == t, forall|k: int| 0 <= k < b.len() ==> tidy(#[trigger] b[k]),
    ensures a == b,
    decreases b.len(),
{
    assert(a.len() > 0 && str_join(sep, a) == t) by { reveal(cut); }
    assert(uncut(a[0], sep, quals())) by { reveal(cut); }
    assert(tidy(b[0]));
    let ra = str_join(sep, a.skip(1));
    let rb = str_join(sep, b.skip(1));
    if a.len() > 1 { join_first(sep, a); assert(t == a[0].add(sep).add(ra)); reveal_led(a, t, sep); lead(sep, a.skip(1)); }
    if b.len() > 1 { join_first(sep, b); assert(t == b[0].add(sep).add(rb)); assert(tidy(b[1])); lead(sep, b.skip(1)); }
    if b.len() == 1 {
        assert(t == b[0]);
        if a.len() > 1 {
            let q = ra[0];
            occurs_at(a[0], sep, ra, t, q);
            occurs_after(b[0], Seq::empty(), t, sep, q, a[0].len() as int);
        }
        assert(a.len() == 1 && a[0] == t);
        assert(a =~= b);
    } else {
        let q = rb[0];
        let x = sep.push(q);
        occurs_at(b[0], sep, rb, t, q);
        quals_all(q);
        if a.len() == 1 { assert(occurs(a[0], x, b[0].len() as int)); }
        assert(a.len() > 1);
        let qa = ra[0];
        occurs_at(a[0], sep, ra, t, qa);
        occurs_after(b[0], rb, t, sep, qa, a[0].len() as int);
        let m = b[0].len() as int;
        if a[0].len() > m {
            assert(t[m + sep.len()] == q) by { assert(t.subrange(m, m + x.len())[sep.len() as int] == q); }
            if m + x.len() <= a[0].len() {
                assert(a[0].subrange(m, m + x.len()) =~= t.subrange(m, m + x.len()));
                assert(occurs(a[0], x, m));
            } else {
                assert(t[m + sep.len()] == sep[m + sep.len() - a[0].len()]);
                assert(sep.contains(sep[m + sep.len() - a[0].len()]));
            }
        }
        assert(a[0].len() == m);
        assert(a[0] =~= b[0]) by { assert(t.take(m) =~= a[0]); assert(t.take(m) =~= b[0]); }
        assert(ra =~= rb) by { assert(t.skip(m + sep.len()) =~= ra); assert(t.skip(m + sep.len()) =~= rb); }
        let b1 = b.skip(1);
        assert forall|k: int| 0 <= k < b1.len() implies tidy(#[trigger] b1[k]) by { assert(tidy(b[k + 1])); }
        cut_rest(a, t, sep);
        tidy_unique(a.skip(1), b1, ra, sep);
        assert(a =~= seq![a[0]].add(a.skip(1)));
        assert(b =~= seq![b[0]].add(b1));
    }
}
proof fn reveal_led(a: Seq<Seq<char>>, t: Seq<char>, sep: Seq<char>)
    requires cut(a, t, sep, quals()), a.len() > 1,
    ensures led(a[1]),
{ reveal(cut); }
proof fn cut_rest(a: Seq<Seq<char>>, t: Seq<char>, sep: Seq<char>)
    requires cut(a, t, sep, quals()), a.len() > 1,
    ensures cut(a.skip(1), str_join(sep, a.skip(1)), sep, quals()),
{
    reveal(cut);
    let r = a.skip(1);
    assert forall|k: int| 0 <= k < r.len() implies uncut(#[trigger] r[k], sep, quals()) by { assert(uncut(a[k + 1], sep, quals())); }
    assert forall|k: int| 1 <= k < r.len() implies led(#[trigger] r[k]) by { assert(led(a[k + 1])); }
}
/// a joined text starts as its first part
pub proof fn lead(sep: Seq<char>, r: Seq<Seq<char>>)
    requires r.len() > 0, led(r[0]),
    ensures led(str_join(sep, r)),
{
    if r.len() == 1 { assert(str_join(sep, r) == r[0]); }
    else { join_first(sep, r); assert(str_join(sep, r)[0] == r[0][0]); }
}
proof fn occurs_at(a: Seq<char>, sep: Seq<char>, r: Seq<char>, t: Seq<char>, q: char)
    requires t == a.add(sep).add(r), r.len() > 0, r[0] == q,
    ensures occurs(t, sep.push(q), a.len() as int),
{
    let x = sep.push(q);
    assert(t.subrange(a.len() as int, (a.len() + x.len()) as int) =~= x);
}
proof fn quals_all(q: char)
    requires is_qual(q),
    ensures quals().contains(q),
{ assert(quals()[0] == 'r' && quals()[1] == 'c' && quals()[2] == 'b' && quals()[3] == 'p'); }
/// a text reads as the groups it is cut into, if at all
pub proof fn only_groups(a: Seq<Seq<char>>, gs: Seq<Seq<char>>, t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>)
    requires group_sep(sep), neat(nsep), cut(a, t, sep, quals()), group_list(gs, t, w, h, sep, nsep),
    ensures a == gs,
{
    assert forall|k: int| 0 <= k < gs.len() implies tidy(#[trigger] gs[k]) by { ok_tidy(gs[k], w, h, nsep); }
    tidy_unique(a, gs, t, sep);
}
pub proof fn not_a_group(a: Seq<Seq<char>>, t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>, i: int)
    requires group_sep(sep), neat(nsep), cut(a, t, sep, quals()), 0 <= i < a.len(), !group_ok(a[i], w, h, nsep),
    ensures !reads(t, w, h, sep, nsep),
{
    if reads(t, w, h, sep, nsep) {
        let gs = choose|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep);
        only_groups(a, gs, t, w, h, sep, nsep);
    }
}

// ---- reading -------------------------------------------------------------
pub proof fn plain_start(s: Seq<char>)
    ensures s == sans(s, blanks().take(0)), blanks().take(6) == blanks(), chars_of(blanks()).len() == 6,
{
    blank_start(s, Seq::empty(), Seq::empty());
    assert(blanks().take(0) =~= Seq::<char>::empty());
    assert(ignored(blanks().take(0), Seq::empty()) =~= Seq::<char>::empty());
    assert(blanks().take(6) =~= blanks());
}
pub proof fn plain_step(s: Seq<char>, k: int)
    requires 0 <= k < 6,
    ensures sans(s, blanks().take(k + 1)) == str_replace(sans(s, blanks().take(k)), chars_of(blanks())[k], Seq::empty()),
{
    let e = Seq::<char>::empty();
    blank_step(s, k, e, e);
    contains_one(e, blanks()[k]);
    assert(chars_of(blanks())[k] =~= seq![blanks()[k]]);
    ignored_all(blanks().take(k), e);
    ignored_all(blanks().take(k + 1), e);
}
/// what the first n groups name
#[verifier::opaque]
pub open spec fn named(cs: Set<(int, int)>, gs: Seq<Seq<char>>, n: int, w: int, h: int, nsep: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> group_ok(#[trigger] gs[i], w, h, nsep)
    &&& forall|f: (int, int)| #[trigger] cs.contains(f) <==> some_group(gs.take(n), w, h, nsep, f)
}
pub proof fn named_start(gs: Seq<Seq<char>>, w: int, h: int, nsep: Seq<char>)
    ensures named(Set::empty(), gs, 0, w, h, nsep),
{ reveal(named); }
pub proof fn named_more(cs: Set<(int, int)>, c1: Set<(int, int)>, gs: Seq<Seq<char>>, n: int, w: int, h: int, nsep: Seq<char>)
    requires named(cs, gs, n, w, h, nsep), 0 <= n < gs.len(), group_ok(gs[n], w, h, nsep),
        forall|f: (int, int)| #[trigger] c1.contains(f) <==> cs.contains(f) || group_has(gs[n], w, h, nsep, f),
    ensures named(c1, gs, n + 1, w, h, nsep),
{
    reveal(named);
    let a = gs.take(n);
    let b = gs.take(n + 1);
    assert forall|f: (int, int)| #[trigger] c1.contains(f) <==> some_group(b, w, h, nsep, f) by {
        if some_group(a, w, h, nsep, f) { let i = choose|i: int| 0 <= i < a.len() && group_has(#[trigger] a[i], w, h, nsep, f); assert(b[i] == a[i]); }
        if group_has(gs[n], w, h, nsep, f) { assert(b[n] == gs[n]); }
        if some_group(b, w, h, nsep, f) {
            let i = choose|i: int| 0 <= i < b.len() && group_has(#[trigger] b[i], w, h, nsep, f);
            if i < n { assert(a[i] == b[i]); }
        }
    }
}
pub proof fn named_whole(cs: Set<(int, int)>, gs: Seq<Seq<char>>, t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>)
    requires named(cs, gs, gs.len() as int, w, h, nsep), cut(gs, t, sep, quals()),
    ensures reads(t, w, h, sep, nsep),
        forall|r: Seq<(int, int)>| (forall|f: (int, int)| #[trigger] r.contains(f) <==> cs.contains(f)) ==> #[trigger] denotes(t, w, h, sep, nsep, r),
{
    reveal(named);
    assert(gs.len() > 0 && str_join(sep, gs) == t) by { reveal(cut); }
    assert(gs.take(gs.len() as int) =~= gs);
    assert(group_list(gs, t, w, h, sep, nsep));
}

// ---- what a text means is unique, what encode writes can be read ----------
proof fn groups_cut(gs: Seq<Seq<char>>, t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>)
    requires group_sep(sep), neat(nsep), group_list(gs, t, w, h, sep, nsep),
    ensures cut(gs, t, sep, quals()),
{
    reveal(cut);
    assert forall|k: int| 0 <= k < gs.len() implies uncut(#[trigger] gs[k], sep, quals()) && led(gs[k]) by {
        ok_tidy(gs[k], w, h, nsep);
        assert forall|q: char| #[trigger] quals().contains(q) implies !str_contains(gs[k], sep.push(q)) by {
            if str_contains(gs[k], sep.push(q)) {
                let p = choose|p: int| #[trigger] occurs(gs[k], sep.push(q), p);
                assert(is_qual(q));
                occurs_after(gs[k], Seq::empty(), gs[k], sep, q, p);
            }
        }
    }
}
/// two readings of a text give the same fields
pub proof fn denotes_once(t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>, a: Seq<(int, int)>, b: Seq<(int, int)>)
    requires group_sep(sep), neat(nsep), denotes(t, w, h, sep, nsep, a), denotes(t, w, h, sep, nsep, b),
    ensures forall|f: (int, int)| #[trigger] a.contains(f) <==> b.contains(f),
{
    let x = choose|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep) && forall|f: (int, int)| #[trigger] a.contains(f) <==> some_group(gs, w, h, nsep, f);
    let y = choose|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep) && forall|f: (int, int)| #[trigger] b.contains(f) <==> some_group(gs, w, h, nsep, f);
    groups_cut(x, t, w, h, sep, nsep);
    only_groups(x, y, t, w, h, sep, nsep);
}
proof fn blank_free(x: Seq<char>, c: char)
    requires !holds_blank(x), x.contains(c),
    ensures !blanks().contains(c),
{
    if blanks().contains(c) {
        contains_one(x, c);
        let i = choose|i: int| 0 <= i < blanks().len() && blanks()[i] == c;
        let q = chars_of(blanks())[i];
        assert(q =~= seq![c]);
        assert(chars_of(blanks()).contains(q));
    }
}
/// a text that reads as fields has no white space that counts for nothing
pub proof fn plain_same(t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>)
    requires group_sep(sep), neat(nsep), reads(t, w, h, sep, nsep),
    ensures unblanked(t, sep, nsep) == t,
{
    if !holds_blank(sep) && !holds_blank(nsep) {
        let gs = choose|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep);
        let ok = |c: char| !blanks().contains(c);
        assert forall|i: int| 0 <= i < sep.len() implies #[trigger] ok(sep[i]) by { blank_free(sep, sep[i]); }
        assert forall|k: int, i: int| 0 <= k < gs.len() && 0 <= i < gs[k].len() implies #[trigger] ok(gs[k][i]) by {
            ok_tidy(gs[k], w, h, nsep);
            let c = gs[k][i];
            assert(legal_char(c, nsep));
            if nsep.contains(c) { blank_free(nsep, c); }
            else {
                if blanks().contains(c) { let j = choose|j: int| 0 <= j < blanks().len() && blanks()[j] == c; }
            }
        }
        join_all(sep, gs, ok);
        assert forall|i: int| 0 <= i < t.len() implies !blanks().contains(#[trigger] t[i]) by { assert(ok(t[i])); }
        spread_none(t, blanks(), Seq::empty());
    }
}
/// decoding what encode wrote gives the coordinates, each once
pub proof fn notation_round_trip(t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>, cs: Seq<(int, int)>, ds: Seq<(int, int)>)
    requires group_sep(sep), neat(nsep), denotes(t, w, h, sep, nsep, cs),
    ensures reads(unblanked(t, sep, nsep), w, h, sep, nsep),
        denotes(unblanked(t, sep, nsep), w, h, sep, nsep, ds) ==> forall|f: (int, int)| #[trigger] ds.contains(f) <==> cs.contains(f),
{
    assert(reads(t, w, h, sep, nsep));
    plain_same(t, w, h, sep, nsep);
    if denotes(unblanked(t, sep, nsep), w, h, sep, nsep, ds) { denotes_once(t, w, h, sep, nsep, ds, cs); }
}
/// in order, each once
pub open spec fn pairs_rise(r: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> pair_le(#[trigger] r[i], #[trigger] r[j]) && r[i] != r[j] }
pub broadcast proof fn sorted_rise(c: Seq<(int, int)>)
    requires c.no_duplicates(),
    ensures pairs_rise(#[trigger] sort_pairs(c)),
{
    let le = |a: (int, int), b: (int, int)| pair_le(a, b);
    assert(vstd::relations::total_ordering(le));
    c.lemma_sort_by_ensures(le);
    sort_pairs_is(c);
    let r = sort_pairs(c);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies pair_le(#[trigger] r[i], #[trigger] r[j]) && r[i] != r[j] by { assert(le(r[i], r[j])); }
}
pub broadcast group cuts_facts { sorted_rise }
