// needs: search
// Tuples, pointing tuples and fish: counting arguments.

/// it lists a row, a column or a box
pub open spec fn is_unit(w: int, h: int, k: int, u: int, it: Seq<(int, int)>) -> bool {
    &&& 0 <= k < 3 && 0 <= u < w * h && it.no_duplicates()
    &&& forall|q: (int, int)| #[trigger] it.contains(q) <==> ingrid(w, h, q) && in_unit(w, h, k, u, q)
}
pub open spec fn unit_list(w: int, h: int, it: Seq<(int, int)>) -> bool { exists|k: int, u: int| #[trigger] is_unit(w, h, k, u, it) }
pub proof fn row_unit(w: int, h: int, p: (int, int), it: Seq<(int, int)>)
    requires dims(w, h), ingrid(w, h, p), it.no_duplicates(), forall|q: (int, int)| #[trigger] it.contains(q) <==> ingrid(w, h, q) && (q.0 == p.0) && (true || q != p),
    ensures is_unit(w, h, 0, p.0, it), unit_list(w, h, it),
{ assert(is_unit(w, h, 0, p.0, it)); }
pub proof fn column_unit(w: int, h: int, p: (int, int), it: Seq<(int, int)>)
    requires dims(w, h), ingrid(w, h, p), it.no_duplicates(), forall|q: (int, int)| #[trigger] it.contains(q) <==> ingrid(w, h, q) && (q.1 == p.1) && (true || q != p),
    ensures is_unit(w, h, 1, p.1, it), unit_list(w, h, it),
{ assert(is_unit(w, h, 1, p.1, it)); }
pub proof fn box_unit(w: int, h: int, p: (int, int), it: Seq<(int, int)>)
    requires dims(w, h), ingrid(w, h, p), it.no_duplicates(), forall|q: (int, int)| #[trigger] it.contains(q) <==> ingrid(w, h, q) && same_box(w, h, p, q) && (true || q != p),
    ensures is_unit(w, h, 2, box_no(w, h, p), it), unit_list(w, h, it),
{
    box_no_facts(w, h);
    assert forall|q: (int, int)| #[trigger] it.contains(q) <==> ingrid(w, h, q) && in_unit(w, h, 2, box_no(w, h, p), q) by {
        if ingrid(w, h, q) { assert(same_box(w, h, p, q) <==> box_no(w, h, p) == box_no(w, h, q)); }
    }
    assert(is_unit(w, h, 2, box_no(w, h, p), it));
}
pub proof fn subsequence_facts<T>(c: Seq<T>, s: Seq<T>)
    requires subsequence(c, s),
    ensures forall|x: T| #[trigger] c.contains(x) ==> s.contains(x), s.no_duplicates() ==> c.no_duplicates(),
{
    let ix = choose|ix: Seq<int>| #[trigger] sub_ix(ix, c, s);
    assert forall|x: T| #[trigger] c.contains(x) implies s.contains(x) by {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
        assert(0 <= ix[i] < s.len() && s[ix[i]] == x);
    }
    if s.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
            assert(ix[i] != ix[j]) by { if i < j { assert(ix[i] < ix[j]); } else { assert(ix[j] < ix[i]); } }
            assert(c[i] == s[ix[i]] && c[j] == s[ix[j]]);
        }
    }
}
/// n different things inside a set of at most n things are all of it
pub proof fn exhausts<T>(n: int, f: spec_fn(int) -> T, s: Set<T>)
    requires 0 <= n, forall|k: int| 0 <= k < n ==> s.contains(#[trigger] f(k)), forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] f(a) != #[trigger] f(b), s.len() <= n,
    ensures forall|v: T| #[trigger] s.contains(v) ==> exists|k: int| 0 <= k < n && #[trigger] f(k) == v,
{
    let q = Seq::new(n as nat, |k: int| f(k));
    assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies q[i] != q[j] by { if i < j { assert(f(i) != f(j)); } else { assert(f(j) != f(i)); } } }
    q.unique_seq_to_set();
    assert(q.to_set().subset_of(s)) by {
        assert forall|v: T| q.to_set().contains(v) implies s.contains(v) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(s.contains(f(i))); }
    }
    vstd::set_lib::lemma_len_subset(q.to_set(), s);
    vstd::set_lib::lemma_subset_equality(q.to_set(), s);
    assert forall|v: T| #[trigger] s.contains(v) implies exists|k: int| 0 <= k < n && #[trigger] f(k) == v by {
        assert(q.to_set().contains(v));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == v;
        assert(f(k) == v);
    }
}
/// distinct fields of one unit with as few candidates as fields: their values are exactly the candidates
pub proof fn naked(s: Sudoku, g: Grid, w: int, h: int, coords: Seq<(int, int)>, fields: Seq<(int, int)>, all: Set<int>, q: (int, int))
    requires wf(s), s.bw == w, s.bh == h, compat(s, g, false), unit_list(w, h, coords), fields.no_duplicates(), all.len() <= fields.len(),
        forall|p: (int, int)| #[trigger] fields.contains(p) ==> coords.contains(p),
        covers_cands(s, fields, fields.len() as int, all),
        coords.contains(q), !fields.contains(q),
    ensures !all.contains(gv(g, q)),
{
    let (k, u) = choose|k: int, u: int| #[trigger] is_unit(w, h, k, u, coords);
    let n = fields.len() as int;
    let f = |j: int| gv(g, fields[j]);
    assert forall|j: int| 0 <= j < n implies all.contains(#[trigger] f(j)) by {
        assert(fields.contains(fields[j]));
        assert(coords.contains(fields[j]));
        assert(cand(s, fields[j]).contains(gv(g, fields[j])));
        assert(covered_by(s, fields[j], all));
    }
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] f(a) != #[trigger] f(b) by {
        assert(fields.contains(fields[a]) && fields.contains(fields[b]));
        unit_peers(w, h, k, u, fields[a], fields[b]);
        assert(peers(w, h, fields[a], fields[b]));
    }
    exhausts(n, f, all);
    if all.contains(gv(g, q)) {
        let j = choose|j: int| 0 <= j < n && #[trigger] f(j) == gv(g, q);
        assert(fields.contains(fields[j]));
        assert(coords.contains(fields[j]));
        unit_peers(w, h, k, u, fields[j], q);
        assert(peers(w, h, fields[j], q));
    }
}
pub open spec fn covered_by(s: Sudoku, q: (int, int), all: Set<int>) -> bool { forall|v: int| #[trigger] cand(s, q).contains(v) ==> all.contains(v) }
pub open spec fn covers_cands(s: Sudoku, it: Seq<(int, int)>, n: int, all: Set<int>) -> bool { forall|j: int| 0 <= j < n ==> covered_by(s, #[trigger] it[j], all) }
pub open spec fn has_some(s: Sudoku, q: (int, int), all: Set<int>) -> bool { exists|v: int| #[trigger] cand(s, q).contains(v) && all.contains(v) }
pub proof fn naked_step(s: Sudoku, st: Step, c: Cls, w: int, h: int, coords: Seq<(int, int)>, fields: Seq<(int, int)>, all: Set<int>, gs: Grids)
    requires live(s, w, h, gs, false), unit_list(w, h, coords), fields.no_duplicates(), all.len() <= fields.len(), 6 <= c.tag <= 10, st.cls == c, st.actions.len() == 0,
        forall|p: (int, int)| #[trigger] fields.contains(p) ==> coords.contains(p),
        covers_cands(s, fields, fields.len() as int, all),
        forall|q: (int, int)| #[trigger] st.affected.contains(q) ==> coords.contains(q) && !fields.contains(q) && has_some(s, q, all),
        forall|v: int| #[trigger] st.values.contains(v) <==> all.contains(v), st.affected.len() > 0,
    ensures good_step(s, st, c, gs),
{
    let (k, u) = choose|k: int, u: int| #[trigger] is_unit(w, h, k, u, coords);
    assert forall|i: int| 0 <= i < st.affected.len() implies at(s, #[trigger] st.affected[i]) && changes(s, st, st.affected[i]) by {
        let q = st.affected[i];
        assert(st.affected.contains(q));
        let v = choose|v: int| #[trigger] cand(s, q).contains(v) && all.contains(v);
        assert(st.values.contains(v));
    }
    assert(changes(s, st, st.affected[0]));
    assert forall|g: Grid| #[trigger] inset(gs, g) implies sound(st, g) by {
        assert(compat(s, g, false));
        assert forall|i: int| 0 <= i < st.affected.len() implies !st.values.contains(gv(g, #[trigger] st.affected[i])) by {
            assert(st.affected.contains(st.affected[i]));
            naked(s, g, w, h, coords, fields, all, st.affected[i]);
        }
    }
}

// ---- hidden tuples
pub type Places = Map<int, Set<(int, int)>>;
pub open spec fn pos(m: Places, v: int) -> Set<(int, int)> { dd_get(m, v, Set::<(int, int)>::empty()) }
pub open spec fn recorded(s: Sudoku, m: Places, v: int, it: Seq<(int, int)>, n: int) -> bool {
    forall|j: int| 0 <= j < n && cand(s, #[trigger] it[j]).contains(v) ==> pos(m, v).contains(it[j])
}
pub open spec fn all_recorded(s: Sudoku, m: Places, nums: Seq<int>, n: int, it: Seq<(int, int)>) -> bool {
    forall|j: int| 0 <= j < n ==> recorded(s, m, #[trigger] nums[j], it, it.len() as int)
}
pub open spec fn within(m: Places, it: Seq<(int, int)>) -> bool { forall|v: int, q: (int, int)| #[trigger] pos(m, v).contains(q) ==> it.contains(q) }
pub open spec fn noted(m: Places, v: int, q: (int, int)) -> Places {
    let k = if m.dom().contains(v) { m } else { m.insert(v, Set::<(int, int)>::empty()) };
    k.insert(v, k[v].insert(q))
}
pub proof fn noted_pos(m: Places, v: int, q: (int, int))
    ensures forall|x: int, r: (int, int)| #[trigger] pos(noted(m, v, q), x).contains(r) <==> pos(m, x).contains(r) || (x == v && r == q),
{ }
pub proof fn recorded_next(s: Sudoku, a: Places, b: Places, nums: Seq<int>, i: int, it: Seq<(int, int)>, n: int)
    requires 0 <= i < nums.len(), 0 <= n < it.len(), recorded(s, a, nums[i], it, n), all_recorded(s, a, nums, i, it), within(a, it),
        b == noted(a, nums[i], it[n]) || (b == a && !cand(s, it[n]).contains(nums[i])),
    ensures recorded(s, b, nums[i], it, n + 1), all_recorded(s, b, nums, i, it), within(b, it),
{
    noted_pos(a, nums[i], it[n]);
    assert forall|x: int, r: (int, int)| pos(a, x).contains(r) implies #[trigger] pos(b, x).contains(r) by { }
    assert forall|j: int| 0 <= j < i implies recorded(s, b, #[trigger] nums[j], it, it.len() as int) by { assert(recorded(s, a, nums[j], it, it.len() as int)); }
    assert forall|v: int, q: (int, int)| #[trigger] pos(b, v).contains(q) implies it.contains(q) by { assert(it.contains(it[n])); }
}
/// whatever a tracked completion says about the unit has been recorded
pub open spec fn held(gs: Grids, it: Seq<(int, int)>, m: Places) -> bool {
    forall|g: Grid, q: (int, int)| #[trigger] inset(gs, g) && #[trigger] it.contains(q) ==> pos(m, gv(g, q)).contains(q)
}
pub proof fn held_all(s: Sudoku, w: int, h: int, gs: Grids, m: Places, it: Seq<(int, int)>)
    requires live(s, w, h, gs, false), unit_list(w, h, it), all_recorded(s, m, s.numbers, s.numbers.len() as int, it),
    ensures held(gs, it, m),
{
    broadcast use prelude_facts;
    assert forall|g: Grid, q: (int, int)| #[trigger] inset(gs, g) && #[trigger] it.contains(q) implies pos(m, gv(g, q)).contains(q) by {
        assert(compat(s, g, false));
        assert(at(s, q));
        let v = gv(g, q);
        assert(s.numbers.contains(v));
        let j = choose|j: int| 0 <= j < s.numbers.len() && s.numbers[j] == v;
        assert(recorded(s, m, s.numbers[j], it, it.len() as int));
        let i = choose|i: int| 0 <= i < it.len() && it[i] == q;
        assert(cand(s, it[i]).contains(v));
    }
}
pub open spec fn touched(m: Places, v: int) -> Places { if m.dom().contains(v) { m } else { m.insert(v, Set::<(int, int)>::empty()) } }
pub proof fn pos_touch(m: Places, v: int, gs: Grids, it: Seq<(int, int)>)
    requires held(gs, it, m), within(m, it),
    ensures forall|x: int| #[trigger] pos(touched(m, v), x) == pos(m, x), held(gs, it, touched(m, v)), within(touched(m, v), it), touched(m, v)[v] == pos(m, v),
{
    assert forall|x: int| #[trigger] pos(touched(m, v), x) == pos(m, x) by { }
}
pub open spec fn all_places(m: Places, nums: Seq<int>, n: int, s: Set<(int, int)>) -> bool { forall|j: int| 0 <= j < n ==> places_in(m, #[trigger] nums[j], s) }
pub open spec fn places_in(m: Places, v: int, s: Set<(int, int)>) -> bool { forall|q: (int, int)| #[trigger] pos(m, v).contains(q) ==> s.contains(q) }
pub proof fn places_next(m: Places, nums: Seq<int>, n: int, s: Set<(int, int)>, it: Seq<(int, int)>)
    requires all_places(m, nums, n, s), 0 <= n < nums.len(), within(m, it), forall|q: (int, int)| #[trigger] s.contains(q) ==> it.contains(q),
    ensures ({ let (k, t) = (touched(m, nums[n]), s.union(pos(m, nums[n]))); all_places(k, nums, n + 1, t) && forall|q: (int, int)| #[trigger] t.contains(q) ==> it.contains(q) }),
{
    let (k, t) = (touched(m, nums[n]), s.union(pos(m, nums[n])));
    assert forall|x: int| #[trigger] pos(k, x) == pos(m, x) by { }
    assert forall|j: int| 0 <= j < n + 1 implies places_in(k, #[trigger] nums[j], t) by { if j < n { assert(places_in(m, nums[j], s)); } }
}
pub open spec fn where_is(w: int, h: int, k: int, u: int, g: Grid, v: int) -> (int, int) { choose|p: (int, int)| ingrid(w, h, p) && #[trigger] in_unit(w, h, k, u, p) && gv(g, p) == v }
/// as many numbers as fields left for them
pub proof fn hidden(w: int, h: int, gs: Grids, g: Grid, coords: Seq<(int, int)>, m: Places, nums: Seq<int>, fields: Set<(int, int)>, q: (int, int))
    requires dims(w, h), valid(w, h, g), inset(gs, g), unit_list(w, h, coords), held(gs, coords, m), nums.no_duplicates(), fields.len() <= nums.len(),
        forall|v: int| #[trigger] nums.contains(v) ==> 1 <= v <= w * h, all_places(m, nums, nums.len() as int, fields), fields.contains(q),
    ensures nums.contains(gv(g, q)),
{
    let (k, u) = choose|k: int, u: int| #[trigger] is_unit(w, h, k, u, coords);
    let n = nums.len() as int;
    let f = |j: int| where_is(w, h, k, u, g, nums[j]);
    assert forall|j: int| 0 <= j < n implies fields.contains(#[trigger] f(j)) && gv(g, f(j)) == nums[j] by {
        assert(nums.contains(nums[j]));
        let p = unit_has(w, h, k, u, g, nums[j]);
        assert(in_unit(w, h, k, u, p));
        assert(coords.contains(f(j)));
        assert(pos(m, gv(g, f(j))).contains(f(j)));
        assert(places_in(m, nums[j], fields));
    }
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] f(a) != #[trigger] f(b) by { }
    exhausts(n, f, fields);
    let j = choose|j: int| 0 <= j < n && #[trigger] f(j) == q;
    assert(nums.contains(nums[j]));
}
pub open spec fn has_other(s: Sudoku, q: (int, int), nums: Seq<int>) -> bool { exists|v: int| #[trigger] cand(s, q).contains(v) && !nums.contains(v) }
pub proof fn hidden_tuple_step(s: Sudoku, st: Step, c: Cls, w: int, h: int, coords: Seq<(int, int)>, m: Places, nums: Seq<int>, fields: Set<(int, int)>, gs: Grids)
    requires live(s, w, h, gs, false), unit_list(w, h, coords), held(gs, coords, m), nums.no_duplicates(), fields.len() <= nums.len(), 11 <= c.tag <= 15, st.cls == c, st.actions.len() == 0,
        forall|v: int| #[trigger] nums.contains(v) ==> 1 <= v <= w * h, all_places(m, nums, nums.len() as int, fields),
        forall|q: (int, int)| #[trigger] fields.contains(q) ==> coords.contains(q),
        forall|q: (int, int)| #[trigger] st.affected.contains(q) ==> fields.contains(q) && has_other(s, q, nums),
        forall|v: int| #[trigger] st.values.contains(v) <==> nums.contains(v), st.affected.len() > 0,
    ensures good_step(s, st, c, gs),
{
    let (k, u) = choose|k: int, u: int| #[trigger] is_unit(w, h, k, u, coords);
    assert forall|i: int| 0 <= i < st.affected.len() implies at(s, #[trigger] st.affected[i]) && changes(s, st, st.affected[i]) by {
        let q = st.affected[i];
        assert(st.affected.contains(q));
        let v = choose|v: int| #[trigger] cand(s, q).contains(v) && !nums.contains(v);
        assert(!st.values.contains(v));
    }
    assert forall|g: Grid| #[trigger] inset(gs, g) implies sound(st, g) by {
        assert(compat(s, g, false));
        assert forall|i: int| 0 <= i < st.affected.len() implies st.values.contains(gv(g, #[trigger] st.affected[i])) by {
            assert(st.affected.contains(st.affected[i]));
            hidden(w, h, gs, g, coords, m, nums, fields, st.affected[i]);
        }
    }
}

// ---- pointing tuples
pub broadcast proof fn comp_one<A, B>(s: Seq<A>, p: spec_fn(A) -> bool, f: spec_fn(A) -> B)
    ensures (#[trigger] comp(s, p, f).to_set()).len() == 1 ==> forall|a: A, b: A| #[trigger] s.contains(a) && #[trigger] s.contains(b) && p(a) && p(b) ==> f(a) == f(b),
{
    broadcast use prelude_facts;
    let t = comp(s, p, f).to_set();
    if t.len() == 1 {
        assert forall|a: A, b: A| #[trigger] s.contains(a) && #[trigger] s.contains(b) && p(a) && p(b) implies f(a) == f(b) by {
            comp_contains(s, p, f, f(a));
            comp_contains(s, p, f, f(b));
            assert(t.contains(f(a)) && t.contains(f(b)));
            if f(a) != f(b) {
                assert(set![f(a), f(b)].subset_of(t));
                vstd::set_lib::lemma_len_subset(set![f(a), f(b)], t);
                assert(set![f(a), f(b)].len() == 2);
            }
        }
    }
}
/// every clue sees every affected field
pub open spec fn sees_all(w: int, h: int, clues: Seq<(int, int)>, affected: Seq<(int, int)>) -> bool {
    forall|c: (int, int), q: (int, int)| #[trigger] clues.contains(c) && #[trigger] affected.contains(q) ==> peers(w, h, c, q)
}
/// v has its place in the unit at one of the clues, all of which see the affected fields
pub proof fn pointing_step(s: Sudoku, st: Step, c: Cls, w: int, h: int, coords: Seq<(int, int)>, clues: Seq<(int, int)>, v: int, gs: Grids)
    requires live(s, w, h, gs, false), unit_list(w, h, coords), 16 <= c.tag <= 18, st.cls == c, st.actions.len() == 0, 1 <= v <= w * h,
        forall|q: (int, int)| #[trigger] clues.contains(q) <==> coords.contains(q) && cand(s, q).contains(v),
        forall|q: (int, int)| #[trigger] st.affected.contains(q) ==> ingrid(w, h, q) && cand(s, q).contains(v),
        sees_all(w, h, clues, st.affected), st.values == seq![v], st.affected.len() > 0,
    ensures good_step(s, st, c, gs),
{
    let (k, u) = choose|k: int, u: int| #[trigger] is_unit(w, h, k, u, coords);
    assert(st.values.contains(st.values[0]));
    assert forall|x: int| #[trigger] st.values.contains(x) implies x == v by { }
    assert forall|i: int| 0 <= i < st.affected.len() implies at(s, #[trigger] st.affected[i]) && changes(s, st, st.affected[i]) by {
        assert(st.affected.contains(st.affected[i]));
        assert(cand(s, st.affected[i]).contains(v) && st.values.contains(v));
    }
    assert forall|g: Grid| #[trigger] inset(gs, g) implies sound(st, g) by {
        assert(compat(s, g, false));
        let p = unit_has(w, h, k, u, g, v);
        assert(coords.contains(p));
        assert(cand(s, p).contains(gv(g, p)));
        assert(clues.contains(p));
        assert forall|i: int| 0 <= i < st.affected.len() implies !st.values.contains(gv(g, #[trigger] st.affected[i])) by {
            assert(st.affected.contains(st.affected[i]));
            assert(peers(w, h, p, st.affected[i]));
        }
    }
}
pub proof fn box_sees(w: int, h: int, clues: Seq<(int, int)>, affected: Seq<(int, int)>)
    requires dims(w, h), clues.len() > 0, forall|q: (int, int)| #[trigger] clues.contains(q) ==> ingrid(w, h, q) && box_no(w, h, q) == box_no(w, h, clues[0]),
        forall|q: (int, int)| #[trigger] affected.contains(q) ==> ingrid(w, h, q) && same_box(w, h, clues[0], q) && !clues.contains(q),
    ensures sees_all(w, h, clues, affected),
{
    box_no_facts(w, h);
    assert(clues.contains(clues[0]));
    assert forall|c: (int, int), q: (int, int)| #[trigger] clues.contains(c) && #[trigger] affected.contains(q) implies peers(w, h, c, q) by {
        assert(box_no(w, h, c) == box_no(w, h, clues[0]) && box_no(w, h, clues[0]) == box_no(w, h, q));
    }
}

// ---- fish
pub type Lines = Map<int, Seq<(int, int)>>;
/// number of the row (o = 0) or column (o = 1) of q
pub open spec fn line(o: int, q: (int, int)) -> int { if o == 0 { q.0 } else { q.1 } }
/// the places of v in the first n lines
pub open spec fn lines_of(s: Sudoku, o: int, v: int, m: Lines, n: int) -> bool {
    &&& forall|i: int| #[trigger] m.dom().contains(i) <==> 0 <= i < n
    &&& forall|i: int, q: (int, int)| 0 <= i < n ==> (#[trigger] m[i].contains(q) <==> at(s, q) && line(o, q) == i && cand(s, q).contains(v))
}
pub proof fn lines_next(s: Sudoku, o: int, v: int, a: Lines, n: int, l: Seq<(int, int)>)
    requires lines_of(s, o, v, a, n), 0 <= n, forall|q: (int, int)| #[trigger] l.contains(q) <==> at(s, q) && line(o, q) == n && cand(s, q).contains(v),
    ensures lines_of(s, o, v, a.insert(n, l), n + 1),
{ }
/// whatever a tracked completion says about the lines has been recorded
pub open spec fn lines_held(gs: Grids, w: int, h: int, o: int, v: int, m: Lines) -> bool {
    &&& forall|i: int| #[trigger] m.dom().contains(i) <==> 0 <= i < w * h
    &&& forall|i: int, q: (int, int)| 0 <= i < w * h && #[trigger] m[i].contains(q) ==> ingrid(w, h, q) && line(o, q) == i
    &&& forall|g: Grid, q: (int, int)| #[trigger] inset(gs, g) && #[trigger] ingrid(w, h, q) && gv(g, q) == v ==> m[line(o, q)].contains(q)
}
pub proof fn lines_hold(s: Sudoku, gs: Grids, w: int, h: int, o: int, v: int, m: Lines)
    requires live(s, w, h, gs, false), lines_of(s, o, v, m, w * h), 0 <= o <= 1,
    ensures lines_held(gs, w, h, o, v, m),
{
    assert forall|g: Grid, q: (int, int)| #[trigger] inset(gs, g) && #[trigger] ingrid(w, h, q) && gv(g, q) == v implies m[line(o, q)].contains(q) by {
        assert(compat(s, g, false));
        assert(cand(s, q).contains(gv(g, q)));
    }
}
pub open spec fn among(idx: Seq<int>, n: int, x: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] idx[j] == x }
/// the recorded places in the first n chosen lines
pub open spec fn base_of(w: int, h: int, o: int, m: Lines, idx: Seq<int>, n: int, base: Seq<(int, int)>) -> bool {
    &&& forall|q: (int, int)| #[trigger] base.contains(q) <==> ingrid(w, h, q) && among(idx, n, line(o, q)) && m[line(o, q)].contains(q)
    &&& n > 0 ==> base.len() > 0
}
pub proof fn base_next(gs: Grids, v: int, w: int, h: int, o: int, m: Lines, idx: Seq<int>, n: int, base: Seq<(int, int)>)
    requires base_of(w, h, o, m, idx, n, base), lines_held(gs, w, h, o, v, m), 0 <= n < idx.len(), 0 <= idx[n] < w * h, m[idx[n]].len() > 0,
    ensures base_of(w, h, o, m, idx, n + 1, base.add(m[idx[n]])),
{
    broadcast use prelude_facts;
    let b = base.add(m[idx[n]]);
    assert forall|q: (int, int)| #[trigger] b.contains(q) <==> ingrid(w, h, q) && among(idx, n + 1, line(o, q)) && m[line(o, q)].contains(q) by {
        if base.contains(q) { let j = choose|j: int| 0 <= j < n && #[trigger] idx[j] == line(o, q); assert(among(idx, n + 1, line(o, q))); }
        if m[idx[n]].contains(q) { assert(line(o, q) == idx[n]); assert(among(idx, n + 1, line(o, q))); }
        if among(idx, n + 1, line(o, q)) && ingrid(w, h, q) && m[line(o, q)].contains(q) {
            let j = choose|j: int| 0 <= j < n + 1 && #[trigger] idx[j] == line(o, q);
            if j < n { assert(among(idx, n, line(o, q))); }
        }
    }
}
/// the cover lines of the first n fields
pub open spec fn counted(w: int, h: int, o: int, it: Seq<(int, int)>, n: int, m: Map<int, int>) -> bool {
    &&& forall|j: int| 0 <= j < n ==> #[trigger] m.dom().contains(line(1 - o, it[j]))
    &&& forall|x: int| #[trigger] m.dom().contains(x) ==> 0 <= x < w * h
}
pub proof fn counted_all(w: int, h: int, o: int, it: Seq<(int, int)>, m: Map<int, int>)
    requires counted(w, h, o, it, it.len() as int, m),
    ensures forall|q: (int, int)| #[trigger] it.contains(q) ==> m.dom().contains(line(1 - o, q)), it.len() > 0 ==> m.dom().len() > 0,
{
    if it.len() > 0 { assert(m.dom().contains(line(1 - o, it[0]))); }
    assert forall|q: (int, int)| #[trigger] it.contains(q) implies m.dom().contains(line(1 - o, q)) by {
        let j = choose|j: int| 0 <= j < it.len() && it[j] == q;
        assert(m.dom().contains(line(1 - o, it[j])));
    }
}
/// as many base lines as cover lines
pub proof fn fish(w: int, h: int, gs: Grids, g: Grid, o: int, v: int, m: Lines, idx: Seq<int>, base: Seq<(int, int)>, cover: Set<int>, q: (int, int))
    requires dims(w, h), valid(w, h, g), inset(gs, g), lines_held(gs, w, h, o, v, m), 0 <= o <= 1, 1 <= v <= w * h, idx.no_duplicates(), cover.len() <= idx.len(),
        forall|x: int| #[trigger] idx.contains(x) ==> 0 <= x < w * h, base_of(w, h, o, m, idx, idx.len() as int, base),
        forall|c: (int, int)| #[trigger] base.contains(c) ==> cover.contains(line(1 - o, c)),
        ingrid(w, h, q), !base.contains(q), cover.contains(line(1 - o, q)),
    ensures gv(g, q) != v,
{
    let n = idx.len() as int;
    let p = |j: int| where_is(w, h, o, idx[j], g, v);
    let f = |j: int| line(1 - o, p(j));
    assert forall|j: int| 0 <= j < n implies cover.contains(#[trigger] f(j)) && gv(g, p(j)) == v && line(o, p(j)) == idx[j] && ingrid(w, h, p(j)) && base.contains(p(j)) by {
        assert(idx.contains(idx[j]));
        let r = unit_has(w, h, o, idx[j], g, v);
        assert(in_unit(w, h, o, idx[j], r));
        assert(in_unit(w, h, o, idx[j], p(j)));
        assert(among(idx, n, line(o, p(j))));
        assert(base.contains(p(j)));
    }
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] f(a) != #[trigger] f(b) by {
        assert(idx[a] != idx[b]);
        if f(a) == f(b) { assert(peers(w, h, p(a), p(b))); }
    }
    exhausts(n, f, cover);
    let j = choose|j: int| 0 <= j < n && #[trigger] f(j) == line(1 - o, q);
    if gv(g, q) == v { assert(peers(w, h, p(j), q)); }
}
pub proof fn fish_step(s: Sudoku, st: Step, c: Cls, w: int, h: int, o: int, v: int, m: Lines, idx: Seq<int>, base: Seq<(int, int)>, cover: Set<int>, gs: Grids)
    requires live(s, w, h, gs, false), lines_held(gs, w, h, o, v, m), 0 <= o <= 1, 1 <= v <= w * h, idx.no_duplicates(), cover.len() <= idx.len(), 19 <= c.tag <= 22, st.cls == c, st.actions.len() == 0,
        forall|x: int| #[trigger] idx.contains(x) ==> 0 <= x < w * h, base_of(w, h, o, m, idx, idx.len() as int, base),
        forall|c: (int, int)| #[trigger] base.contains(c) ==> cover.contains(line(1 - o, c)),
        forall|q: (int, int)| #[trigger] st.affected.contains(q) ==> ingrid(w, h, q) && !base.contains(q) && cover.contains(line(1 - o, q)) && cand(s, q).contains(v),
        st.values == seq![v], st.affected.len() > 0,
    ensures good_step(s, st, c, gs),
{
    assert(st.values.contains(st.values[0]));
    assert forall|x: int| #[trigger] st.values.contains(x) implies x == v by { }
    assert forall|i: int| 0 <= i < st.affected.len() implies at(s, #[trigger] st.affected[i]) && changes(s, st, st.affected[i]) by {
        assert(st.affected.contains(st.affected[i]));
        assert(cand(s, st.affected[i]).contains(v) && st.values.contains(v));
    }
    assert forall|g: Grid| #[trigger] inset(gs, g) implies sound(st, g) by {
        assert(compat(s, g, false));
        assert forall|i: int| 0 <= i < st.affected.len() implies !st.values.contains(gv(g, #[trigger] st.affected[i])) by {
            assert(st.affected.contains(st.affected[i]));
            fish(w, h, gs, g, o, v, m, idx, base, cover, st.affected[i]);
        }
    }
}
