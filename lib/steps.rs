// needs: comps
// Solve steps: what applying one does.

pub broadcast proof fn sort_one(p: (int, int))
    ensures #[trigger] sort_pairs(seq![p]) == seq![p],
{
    broadcast use {sort_pairs_is, sort_ints_is};
    let s = sort_pairs(seq![p]);
    assert(perm(s, seq![p]));
    assert(s.contains(s[0]));
    assert(s =~= seq![p]);
}
pub broadcast proof fn sort_one_int(p: int)
    ensures #[trigger] sort_ints(seq![p]) == seq![p],
{
    broadcast use {sort_pairs_is, sort_ints_is};
    let s = sort_ints(seq![p]);
    assert(perm(s, seq![p]));
    assert(s.contains(s[0]));
    assert(s =~= seq![p]);
}

/// 1 calculates candidates, 2 sets a number, 3 removes its values, 4 removes everything but its values
pub open spec fn kind(st: Step) -> int {
    let t = st.cls.tag;
    if t == 1 { 1 } else if 2 <= t <= 5 { 2 } else if 11 <= t <= 15 { 4 } else if 6 <= t <= 22 { 3 } else { 0 }
}
pub open spec fn step_ok(s: Sudoku, st: Step) -> bool {
    &&& kind(st) != 0
    &&& forall|k: int| 0 <= k < st.affected.len() ==> at(s, #[trigger] st.affected[k])
    &&& kind(st) == 1 ==> st.clues == st.affected && st.affected.len() == 1
    &&& kind(st) == 2 ==> st.affected.len() == 1 && st.values.len() == 1
    &&& kind(st) == 3 ==> st.values.len() > 0
}
pub open spec fn new_num(s: Sudoku, st: Step, q: (int, int)) -> int {
    if kind(st) == 2 && q == st.affected[0] { st.values[0] } else { num(s, q) }
}
pub open spec fn new_has(s: Sudoku, st: Step, q: (int, int), v: int) -> bool {
    if kind(st) == 1 { if q == st.affected[0] { st.values.contains(v) } else { cand(s, q).contains(v) } }
    else if kind(st) == 2 {
        if q == st.affected[0] { v == st.values[0] } else { cand(s, q).contains(v) && !(peer(s, st.affected[0], q) && v == st.values[0]) }
    }
    else { cand(s, q).contains(v) && (st.affected.contains(q) ==> (kind(st) == 3) != st.values.contains(v)) }
}
/// t is s after the step
pub open spec fn applied(s: Sudoku, st: Step, t: Sudoku) -> bool {
    &&& wf(t) && same_dims(s, t)
    &&& forall|q: (int, int)| at(s, q) ==> #[trigger] num(t, q) == new_num(s, st, q)
    &&& forall|q: (int, int), v: int| at(s, q) ==> (#[trigger] cand(t, q).contains(v) <==> new_has(s, st, q, v))
}

pub open spec fn act(s: Sudoku, a: Action) -> Sudoku {
    if a.func.tag == 0 { set_num(s, (a.row, a.col), a.value.i) }
    else if a.func.tag == 1 { set_cand(s, (a.row, a.col), a.value.s) }
    else { set_cand(s, (a.row, a.col), cand(s, (a.row, a.col)).difference(a.value.s)) }
}
pub open spec fn act_ok(s: Sudoku, a: Action) -> bool {
    at(s, (a.row, a.col)) && 0 <= a.func.tag <= 2 && a.value.k == (if a.func.tag == 0 { 0int } else { 1 })
}
pub open spec fn acts_ok(s: Sudoku, acts: Seq<Action>) -> bool { forall|k: int| 0 <= k < acts.len() ==> act_ok(s, #[trigger] acts[k]) }
pub open spec fn run(s: Sudoku, acts: Seq<Action>, n: int) -> Sudoku
    decreases n,
{
    if n <= 0 { s } else { act(run(s, acts, n - 1), acts[n - 1]) }
}
pub proof fn run_wf(s: Sudoku, acts: Seq<Action>, n: int)
    requires wf(s), acts_ok(s, acts), 0 <= n <= acts.len(),
    ensures wf(run(s, acts, n)), same_dims(s, run(s, acts, n)),
    decreases n,
{
    broadcast use sud_facts;
    if n > 0 { run_wf(s, acts, n - 1); assert(act_ok(s, acts[n - 1])); }
}
pub open spec fn did(st: Step, acts: Seq<Action>, n: int, q: (int, int)) -> bool { exists|k: int| 0 <= k < n && q == (#[trigger] acts[k].row, acts[k].col) }

/// actions that remove candidates: action k removes from field it[k] exactly the present candidates chosen by the kind
pub open spec fn removes(s: Sudoku, st: Step, acts: Seq<Action>, it: Seq<(int, int)>, n: int) -> bool {
    &&& acts.len() == n && n <= it.len()
    &&& forall|k: int| 0 <= k < n ==> at(s, #[trigger] it[k]) && acts[k].func.tag == 2 && acts[k].value.k == 1 && it[k] == (acts[k].row, acts[k].col)
    &&& forall|k: int, v: int| 0 <= k < n && cand(s, it[k]).contains(v) ==> (#[trigger] chosen(acts[k], v) <==> ((kind(st) == 3) == st.values.contains(v)))
}
pub open spec fn chosen(a: Action, v: int) -> bool { a.value.s.contains(v) }
pub proof fn removes_next(s: Sudoku, st: Step, a: Seq<Action>, b: Seq<Action>, it: Seq<(int, int)>, n: int)
    requires removes(s, st, a, it, n), 0 <= n < it.len(), at(s, it[n]), b.len() == a.len() + 1, b.last() == b[n], b == a.push(b.last()),
        b.last().func.tag == 2, b.last().value.k == 1, it[n] == (b.last().row, b.last().col),
        forall|v: int| cand(s, it[n]).contains(v) ==> (#[trigger] chosen(b[n], v) <==> ((kind(st) == 3) == st.values.contains(v))),
    ensures removes(s, st, b, it, n + 1),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] b[k] == a[k] by { }
    assert(b[n] == b.last());
    assert(b.len() == n + 1);
    assert forall|k: int| 0 <= k < n + 1 implies at(s, #[trigger] it[k]) && b[k].func.tag == 2 && b[k].value.k == 1 && it[k] == (b[k].row, b[k].col) by { assert(at(s, it[k])); }
    assert forall|k: int, v: int| 0 <= k < n + 1 && cand(s, it[k]).contains(v) implies (#[trigger] chosen(b[k], v) <==> ((kind(st) == 3) == st.values.contains(v))) by {
        if k < n { assert(b[k] == a[k]); assert(chosen(a[k], v) <==> ((kind(st) == 3) == st.values.contains(v))); }
    }
}
pub open spec fn first_in(it: Seq<(int, int)>, n: int, q: (int, int)) -> bool { exists|k: int| 0 <= k < n && #[trigger] it[k] == q }
proof fn removes_run(s: Sudoku, st: Step, acts: Seq<Action>, it: Seq<(int, int)>, n: int)
    requires wf(s), removes(s, st, acts, it, acts.len() as int), 0 <= n <= acts.len(),
    ensures ({
        let t = run(s, acts, n);
        wf(t) && same_dims(s, t) && same_nums(s, t) && forall|q: (int, int), v: int| at(s, q) ==>
            (#[trigger] cand(t, q).contains(v) <==> cand(s, q).contains(v) && (first_in(it, n, q) ==> (kind(st) == 3) != st.values.contains(v)))
    }),
    decreases n,
{
    broadcast use sud_facts;
    if n > 0 {
        removes_run(s, st, acts, it, n - 1);
        let u = run(s, acts, n - 1);
        let t = run(s, acts, n);
        let p = it[n - 1];
        let a = acts[n - 1];
        assert(t == set_cand(u, p, cand(u, p).difference(a.value.s)));
        assert(same_nums(s, t)) by { assert forall|q: (int, int)| at(s, q) implies #[trigger] num(s, q) == num(t, q) by { assert(num(u, q) == num(t, q)); } }
        assert forall|q: (int, int), v: int| at(s, q) implies
            (#[trigger] cand(t, q).contains(v) <==> cand(s, q).contains(v) && (first_in(it, n, q) ==> (kind(st) == 3) != st.values.contains(v))) by {
            if first_in(it, n - 1, q) { let k = choose|k: int| 0 <= k < n - 1 && #[trigger] it[k] == q; assert(it[k] == q); assert(first_in(it, n, q)); }
            if first_in(it, n, q) && q != p { let k = choose|k: int| 0 <= k < n && #[trigger] it[k] == q; assert(0 <= k < n - 1 && it[k] == q); }
            assert(first_in(it, n, p));
            assert(cand(u, q).contains(v) <==> cand(s, q).contains(v) && (first_in(it, n - 1, q) ==> (kind(st) == 3) != st.values.contains(v)));
            if q == p {
                assert(cand(t, q).contains(v) <==> cand(u, q).contains(v) && !a.value.s.contains(v));
                if cand(s, q).contains(v) { assert(chosen(acts[n - 1], v) <==> ((kind(st) == 3) == st.values.contains(v))); }
            } else {
                assert(cand(t, q) == cand(u, q));
            }
        }
    }
}
pub proof fn removes_applied(s: Sudoku, st: Step, acts: Seq<Action>)
    requires wf(s), removes(s, st, acts, st.affected, st.affected.len() as int), kind(st) == 3 || kind(st) == 4,
    ensures acts_ok(s, acts), applied(s, st, run(s, acts, acts.len() as int)),
{
    let n = acts.len() as int;
    removes_run(s, st, acts, st.affected, n);
    let t = run(s, acts, n);
    assert forall|k: int| 0 <= k < acts.len() implies act_ok(s, #[trigger] acts[k]) by { assert(at(s, st.affected[k])); }
    assert forall|q: (int, int)| at(s, q) implies #[trigger] num(t, q) == new_num(s, st, q) by { assert(num(s, q) == num(t, q)); }
    assert forall|q: (int, int), v: int| at(s, q) implies (#[trigger] cand(t, q).contains(v) <==> new_has(s, st, q, v)) by {
        if st.affected.contains(q) { let k = choose|k: int| 0 <= k < n && st.affected[k] == q; assert(st.affected[k] == q); assert(first_in(st.affected, n, q)); }
    }
}
pub proof fn calc_applied(s: Sudoku, st: Step, acts: Seq<Action>)
    requires wf(s), step_ok(s, st), kind(st) == 1, acts.len() == 1, acts[0].func.tag == 1, st.affected[0] == (acts[0].row, acts[0].col), acts[0].value.k == 1,
        acts[0].value.s == st.values.to_set(),
    ensures acts_ok(s, acts), applied(s, st, run(s, acts, acts.len() as int)),
{
    broadcast use {sud_facts, prelude_facts};
    let p = st.affected[0];
    assert(at(s, p));
    assert(run(s, acts, 0) == s);
    assert(run(s, acts, 1) == set_cand(s, p, acts[0].value.s));
}
/// the actions of a step that sets a number; the peers among the first n of it have been treated
pub open spec fn sets(s: Sudoku, st: Step, acts: Seq<Action>, it: Seq<(int, int)>, n: int) -> bool {
    let p = st.affected[0];
    let v = st.values[0];
    &&& acts.len() >= 2 && p == (acts[0].row, acts[0].col) && p == (acts[1].row, acts[1].col)
    &&& acts[0].func.tag == 0 && acts[0].value.k == 0 && acts[0].value.i == v
    &&& acts[1].func.tag == 1 && acts[1].value.k == 1 && acts[1].value.s == set![v]
    &&& forall|k: int| 2 <= k < acts.len() ==> (#[trigger] acts[k]).func.tag == 2 && acts[k].value.k == 1 && acts[k].value.s == set![v]
            && at(s, (acts[k].row, acts[k].col)) && peer(s, p, (acts[k].row, acts[k].col))
    &&& forall|j: int| 0 <= j < n && cand(s, #[trigger] it[j]).contains(v) ==> exists|k: int| 2 <= k < acts.len() && it[j] == (#[trigger] acts[k].row, acts[k].col)
}
pub proof fn sets_next(s: Sudoku, st: Step, a: Seq<Action>, b: Seq<Action>, it: Seq<(int, int)>, n: int)
    requires sets(s, st, a, it, n), 0 <= n < it.len(), at(s, it[n]), peer(s, st.affected[0], it[n]),
        b == a && !cand(s, it[n]).contains(st.values[0])
            || b.len() == a.len() + 1 && b == a.push(b.last()) && b.last().func.tag == 2 && b.last().value.k == 1 && b.last().value.s == set![st.values[0]] && it[n] == (b.last().row, b.last().col),
    ensures sets(s, st, b, it, n + 1),
{
    let v = st.values[0];
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] b[k] == a[k] by { }
    assert forall|j: int| 0 <= j < n + 1 && cand(s, #[trigger] it[j]).contains(v) implies exists|k: int| 2 <= k < b.len() && it[j] == (#[trigger] b[k].row, b[k].col) by {
        if j < n {
            let k = choose|k: int| 2 <= k < a.len() && it[j] == (#[trigger] a[k].row, a[k].col);
            assert(b[k] == a[k]);
        } else {
            assert(it[j] == (b[b.len() - 1].row, b[b.len() - 1].col));
        }
    }
}
proof fn sets_run(s: Sudoku, st: Step, acts: Seq<Action>, it: Seq<(int, int)>, n: int)
    requires wf(s), step_ok(s, st), kind(st) == 2, sets(s, st, acts, it, it.len() as int), 2 <= n <= acts.len(),
    ensures ({
        let t = run(s, acts, n);
        let p = st.affected[0];
        wf(t) && same_dims(s, t) && (forall|q: (int, int)| at(s, q) ==> #[trigger] num(t, q) == new_num(s, st, q)) && forall|q: (int, int), v: int| at(s, q) ==>
            (#[trigger] cand(t, q).contains(v) <==> if q == p { v == st.values[0] } else { cand(s, q).contains(v) && !(v == st.values[0] && exists|k: int| 2 <= k < n && q == (#[trigger] acts[k].row, acts[k].col)) })
    }),
    decreases n,
{
    broadcast use sud_facts;
    let p = st.affected[0];
    assert(at(s, p));
    if n > 2 {
        sets_run(s, st, acts, it, n - 1);
        let u = run(s, acts, n - 1);
        let t = run(s, acts, n);
        let a = acts[n - 1];
        let r = (a.row, a.col);
        assert(t == set_cand(u, r, cand(u, r).difference(a.value.s)));
        assert forall|q: (int, int)| at(s, q) implies #[trigger] num(t, q) == new_num(s, st, q) by { assert(num(u, q) == num(t, q)); }
        assert forall|q: (int, int), v: int| at(s, q) implies
            (#[trigger] cand(t, q).contains(v) <==> if q == p { v == st.values[0] } else { cand(s, q).contains(v) && !(v == st.values[0] && exists|k: int| 2 <= k < n && q == (#[trigger] acts[k].row, acts[k].col)) }) by {
            assert(cand(u, q).contains(v) <==> if q == p { v == st.values[0] } else { cand(s, q).contains(v) && !(v == st.values[0] && exists|k: int| 2 <= k < n - 1 && q == (#[trigger] acts[k].row, acts[k].col)) });
            assert(r != p);
            if q != r {
                assert(cand(t, q) == cand(u, q));
                if exists|k: int| 2 <= k < n && q == (#[trigger] acts[k].row, acts[k].col) {
                    let k = choose|k: int| 2 <= k < n && q == (#[trigger] acts[k].row, acts[k].col);
                    assert(2 <= k < n - 1);
                }
            } else {
                assert(q == (acts[n - 1].row, acts[n - 1].col));
            }
        }
    } else {
        let u = run(s, acts, 1);
        assert(run(s, acts, 0) == s);
        assert(u == set_num(s, p, st.values[0]));
        assert(run(s, acts, 2) == set_cand(u, p, set![st.values[0]]));
        let t = run(s, acts, 2);
        assert forall|q: (int, int)| at(s, q) implies #[trigger] num(t, q) == new_num(s, st, q) by { assert(num(u, q) == new_num(s, st, q)); }
        assert forall|q: (int, int), v: int| at(s, q) && q != p implies (#[trigger] cand(t, q).contains(v) <==> cand(s, q).contains(v)) by { assert(cand(u, q) == cand(s, q)); }
    }
}
pub proof fn sets_applied(s: Sudoku, st: Step, acts: Seq<Action>, it: Seq<(int, int)>)
    requires wf(s), step_ok(s, st), kind(st) == 2, sets(s, st, acts, it, it.len() as int), forall|q: (int, int)| at(s, q) && #[trigger] peer(s, st.affected[0], q) ==> it.contains(q),
    ensures acts_ok(s, acts), applied(s, st, run(s, acts, acts.len() as int)),
{
    let n = acts.len() as int;
    let p = st.affected[0];
    assert(at(s, p));
    sets_run(s, st, acts, it, n);
    let t = run(s, acts, n);
    assert forall|q: (int, int), v: int| at(s, q) implies (#[trigger] cand(t, q).contains(v) <==> new_has(s, st, q, v)) by {
        if q != p && v == st.values[0] {
            if peer(s, p, q) && cand(s, q).contains(v) {
                let j = choose|j: int| 0 <= j < it.len() && it[j] == q;
                assert(cand(s, it[j]).contains(v));
                let k = choose|k: int| 2 <= k < acts.len() && it[j] == (#[trigger] acts[k].row, acts[k].col);
                assert(q == (acts[k].row, acts[k].col));
            }
            if exists|k: int| 2 <= k < n && q == (#[trigger] acts[k].row, acts[k].col) {
                let k = choose|k: int| 2 <= k < n && q == (#[trigger] acts[k].row, acts[k].col);
                assert(peer(s, p, (acts[k].row, acts[k].col)));
            }
        }
    }
    assert forall|k: int| 0 <= k < acts.len() implies act_ok(s, #[trigger] acts[k]) by { }
}
/// applied looks at the kind, the affected fields and the values only
pub proof fn same_step(s: Sudoku, a: Step, b: Step, t: Sudoku)
    requires applied(s, a, t), a == (Step { actions: a.actions, ..b }),
    ensures applied(s, b, t),
{
    assert forall|q: (int, int)| at(s, q) implies #[trigger] num(t, q) == new_num(s, b, q) by { assert(num(t, q) == new_num(s, a, q)); }
    assert forall|q: (int, int), v: int| at(s, q) implies (#[trigger] cand(t, q).contains(v) <==> new_has(s, b, q, v)) by { assert(cand(t, q).contains(v) <==> new_has(s, a, q, v)); }
}
