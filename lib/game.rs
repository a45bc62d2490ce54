// needs: strings sud shell acts notes
// The history of the game shell.
pub open spec fn same_contents(a: Sudoku, b: Sudoku) -> bool { same_nums(a, b) && same_cands(a, b) }
pub open spec fn one_size(a: Sudoku, b: Sudoku) -> bool { wf(b) && same_dims(a, b) }
pub open spec fn wf_game(g: GameShell) -> bool {
    &&& 0 <= g.index < g.sudokus.len()
    &&& wf(g.sudokus[0]) && g.sudokus[0].bw == 3 && g.sudokus[0].bh == 3
    &&& forall|i: int| 0 <= i < g.sudokus.len() ==> one_size(g.sudokus[0], #[trigger] g.sudokus[i])
    &&& one_size(g.sudokus[0], g.solution)
    &&& g.hints is Some ==> g.hinted_sudoku is Some
    &&& g.hinted_sudoku is Some ==> one_size(g.sudokus[0], g.hinted_sudoku->Some_0)
    &&& g.settings.dom() == g.settings_desc.dom()
}
pub open spec fn history(g: GameShell) -> (Seq<Sudoku>, int) { (g.sudokus, g.index) }
/// the first word of a line
pub open spec fn first_word(line: Seq<char>) -> Seq<char> { if str_words(line).len() > 0 { str_words(line)[0] } else { Seq::empty() } }
pub open spec fn is_undo(c: Seq<char>) -> bool { c == seq!['u', 'n', 'd', 'o'] }
pub open spec fn is_redo(c: Seq<char>) -> bool { c == seq!['r', 'e', 'd', 'o'] }
/// commands that only show something
pub open spec fn only_shows(c: Seq<char>) -> bool {
    c == seq!['h', 'i', 'n', 't'] || c == seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'] || c == seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'] || c == seq!['c', 'h', 'e', 'c', 'k']
}
/// what a line that begins with the command c does to the history
pub open spec fn moves(a: (Seq<Sudoku>, int), b: (Seq<Sudoku>, int), c: Seq<char>) -> bool {
    if is_undo(c) { b == (a.0, if a.1 > 0 { a.1 - 1 } else { a.1 }) }
    else if is_redo(c) { b == (a.0, if a.1 + 1 < a.0.len() { a.1 + 1 } else { a.1 }) }
    else { b == a || !only_shows(c) && exists|s: Sudoku| #[trigger] one_size(a.0[0], s) && !same_contents(s, a.0[a.1]) && b == (a.0.take(a.1 + 1).push(s), a.1 + 1) }
}
/// the changed sudoku s is recorded
pub open spec fn history_grows(a: (Seq<Sudoku>, int), b: (Seq<Sudoku>, int), s: Sudoku) -> bool {
    if same_contents(s, a.0[a.1]) { b == a } else { b == (a.0.take(a.1 + 1).push(s), a.1 + 1) }
}
pub open spec fn in_history(h: (Seq<Sudoku>, int)) -> bool { 0 <= h.1 < h.0.len() }
pub open spec fn coords_within(a: AnyAction, w: int, h: int) -> bool {
    match a {
        AnyAction::SetNumber(x) => forall|k: int| 0 <= k < x.coordinates.len() ==> ingrid(w, h, #[trigger] x.coordinates[k]),
        AnyAction::RemoveCandidates(x) => forall|k: int| 0 <= k < x.coordinates.len() ==> ingrid(w, h, #[trigger] x.coordinates[k]),
    }
}

proof fn tokens_some(g: Seq<char>)
    requires g.len() > 0, is_qual(g[0]),
    ensures tokens(g).len() > 0,
    decreases g.len(),
{
    if g.len() > 1 { assert(g.drop_last()[0] == g[0]); tokens_some(g.drop_last()); }
    else { assert(g.drop_last() =~= Seq::<char>::empty()); assert(tokens(g.drop_last()).len() == 0); assert(g.last() == g[0]); }
}
proof fn group_within(g: Seq<char>, w: int, h: int, nsep: Seq<char>, f: (int, int))
    requires group_ok(g, w, h, nsep), group_has(g, w, h, nsep, f),
    ensures ingrid(w, h, f),
{
    reveal(group_ok);
    reveal(group_has);
    tokens_some(g);
    let t = tokens(g)[0];
    assert(item_has(t, w, h, nsep, f));
    let v = nums(t.1, nsep);
    let i = choose|i: int| 0 <= i < v.len() && of_unit(t.0, #[trigger] v[i], w, h, f);
    assert(of_unit(t.0, v[i], w, h, f));
}
/// what is read from a text lies in the grid
pub broadcast proof fn denoted_within(t: Seq<char>, w: int, h: int, sep: Seq<char>, nsep: Seq<char>, cs: Seq<(int, int)>)
    requires #[trigger] denotes(t, w, h, sep, nsep, cs),
    ensures forall|k: int| 0 <= k < cs.len() ==> ingrid(w, h, #[trigger] cs[k]),
{
    let gs = choose|gs: Seq<Seq<char>>| #[trigger] group_list(gs, t, w, h, sep, nsep) && forall|f: (int, int)| #[trigger] cs.contains(f) <==> some_group(gs, w, h, nsep, f);
    assert forall|k: int| 0 <= k < cs.len() implies ingrid(w, h, #[trigger] cs[k]) by {
        assert(cs.contains(cs[k]));
        let i = choose|i: int| 0 <= i < gs.len() && group_has(#[trigger] gs[i], w, h, nsep, cs[k]);
        assert(group_ok(gs[i], w, h, nsep));
        group_within(gs[i], w, h, nsep, cs[k]);
    }
}
/// how the changed sudoku s is recorded
pub proof fn state_recorded(a: (Seq<Sudoku>, int), b: (Seq<Sudoku>, int), s: Sudoku)
    ensures in_history(a) && b.0 == py_slice(a.0, 0, slice_idx(a.1 + 1, a.0.len() as int)).push(s) ==> b.0 == a.0.take(a.1 + 1).push(s),
{
    if in_history(a) { assert(py_slice(a.0, 0, slice_idx(a.1 + 1, a.0.len() as int)) =~= a.0.take(a.1 + 1)); }
}
pub proof fn contents_equal(a: Sudoku, b: Sudoku)
    ensures same_contents(a, b) <==> forall|q: (int, int)| at(a, q) ==> #[trigger] num(a, q) == num(b, q) && same_cand(a, b, q),
{
    if forall|q: (int, int)| at(a, q) ==> #[trigger] num(a, q) == num(b, q) && same_cand(a, b, q) {
        assert forall|q: (int, int)| at(a, q) implies #[trigger] cand(a, q) == cand(b, q) by { assert(num(a, q) == num(b, q)); }
    }
    if same_contents(a, b) {
        assert forall|q: (int, int)| at(a, q) implies #[trigger] num(a, q) == num(b, q) && same_cand(a, b, q) by { assert(cand(a, q) == cand(b, q)); }
    }
}
pub proof fn commands_differ()
    ensures is_undo(seq!['u', 'n', 'd', 'o']), is_redo(seq!['r', 'e', 'd', 'o']), forall|c: Seq<char>| #[trigger] is_undo(c) ==> !is_redo(c) && !only_shows(c), forall|c: Seq<char>| #[trigger] is_redo(c) ==> !only_shows(c), !only_shows(seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's']),
{
    assert(seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'].len() != seq!['h', 'i', 'n', 't'].len());
    assert(seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'].len() != seq!['h', 'i', 'n', 't'].len());
    assert(seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'].len() != seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'].len());
    assert(seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'].len() != seq!['h', 'i', 'n', 't'].len());
    assert(seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'].len() != seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'].len());
    assert(seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'].len() != seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'].len());
    assert(seq!['c', 'h', 'e', 'c', 'k'].len() != seq!['h', 'i', 'n', 't'].len());
    assert(seq!['c', 'h', 'e', 'c', 'k'].len() != seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'].len());
    assert(seq!['c', 'h', 'e', 'c', 'k'].len() != seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'].len());
    assert(seq!['c', 'h', 'e', 'c', 'k'].len() != seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'].len());
    assert(seq!['u', 'n', 'd', 'o'][0] != seq!['h', 'i', 'n', 't'][0]);
    assert(seq!['u', 'n', 'd', 'o'].len() != seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'].len());
    assert(seq!['u', 'n', 'd', 'o'].len() != seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'].len());
    assert(seq!['u', 'n', 'd', 'o'].len() != seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'].len());
    assert(seq!['u', 'n', 'd', 'o'].len() != seq!['c', 'h', 'e', 'c', 'k'].len());
    assert(seq!['r', 'e', 'd', 'o'][0] != seq!['h', 'i', 'n', 't'][0]);
    assert(seq!['r', 'e', 'd', 'o'].len() != seq!['c', 'a', 'n', 'd', 'i', 'd', 'a', 't', 'e', 's'].len());
    assert(seq!['r', 'e', 'd', 'o'].len() != seq!['c', 'o', 'n', 'f', 'l', 'i', 'c', 't', 's'].len());
    assert(seq!['r', 'e', 'd', 'o'].len() != seq!['s', 'e', 't', 't', 'i', 'n', 'g', 's'].len());
    assert(seq!['r', 'e', 'd', 'o'].len() != seq!['c', 'h', 'e', 'c', 'k'].len());
    assert(seq!['r', 'e', 'd', 'o'][0] != seq!['u', 'n', 'd', 'o'][0]);
}
pub broadcast group game_facts { denoted_within }

// ---- what the moves of the history mean for the user --------------------------
pub open spec fn current(h: (Seq<Sudoku>, int)) -> Sudoku { h.0[h.1] }
/// the lines that were entered, and the history before each of them and at the end
pub open spec fn session(ls: Seq<Seq<char>>, hs: Seq<(Seq<Sudoku>, int)>) -> bool {
    &&& hs.len() == ls.len() + 1 && in_history(hs[0])
    &&& forall|i: int| 0 <= i < ls.len() ==> #[trigger] moves(hs[i], hs[i + 1], ls[i])
}
/// undo goes back to the state before the latest change, redo takes that back
proof fn undo_then_redo(a: (Seq<Sudoku>, int), b: (Seq<Sudoku>, int), c: (Seq<Sudoku>, int), d: (Seq<Sudoku>, int), x: Seq<char>, u: Seq<char>, r: Seq<char>)
    requires in_history(a), moves(a, b, x), !is_undo(x), !is_redo(x), b != a, moves(b, c, u), is_undo(u), moves(c, d, r), is_redo(r),
    ensures !same_contents(current(b), current(a)), current(c) == current(a), d == b, in_history(b), in_history(c),
        forall|i: int| 0 <= i <= a.1 ==> b.0[i] == #[trigger] a.0[i], b.0.len() == a.1 + 2,
{
    commands_differ();
}
/// as many undos as lie before the current state lead to the first one, and no further
proof fn undo_all(ls: Seq<Seq<char>>, hs: Seq<(Seq<Sudoku>, int)>, n: int)
    requires session(ls, hs), forall|i: int| 0 <= i < ls.len() ==> is_undo(#[trigger] ls[i]), 0 <= n < hs.len(),
    ensures hs[n].0 == hs[0].0, hs[n].1 == if n < hs[0].1 { hs[0].1 - n } else { 0 },
    decreases n,
{
    if n > 0 { undo_all(ls, hs, n - 1); assert(moves(hs[n - 1], hs[n - 1 + 1], ls[n - 1])); assert(is_undo(ls[n - 1])); }
}
/// redos after n undos lead back to where they started, and to the latest state at last
proof fn redo_all(ls: Seq<Seq<char>>, hs: Seq<(Seq<Sudoku>, int)>, n: int)
    requires session(ls, hs), forall|i: int| 0 <= i < ls.len() ==> is_redo(#[trigger] ls[i]), 0 <= n < hs.len(),
    ensures hs[n].0 == hs[0].0, hs[n].1 == if hs[0].1 + n < hs[0].0.len() { hs[0].1 + n } else { hs[0].0.len() - 1 },
    decreases n,
{
    commands_differ();
    if n > 0 { redo_all(ls, hs, n - 1); assert(moves(hs[n - 1], hs[n - 1 + 1], ls[n - 1])); assert(is_redo(ls[n - 1])); }
}
/// the history never runs out, and its first state stays
proof fn session_safe(ls: Seq<Seq<char>>, hs: Seq<(Seq<Sudoku>, int)>, n: int)
    requires session(ls, hs), 0 <= n < hs.len(),
    ensures in_history(hs[n]), hs[n].0[0] == hs[0].0[0],
    decreases n,
{
    commands_differ();
    if n > 0 { session_safe(ls, hs, n - 1); assert(moves(hs[n - 1], hs[n - 1 + 1], ls[n - 1])); }
}
