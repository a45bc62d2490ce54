// needs: geom
// needs: sud
// Candidates, conflicts and completions.

/// v is blocked for p by a peer
pub open spec fn blocked(s: Sudoku, p: (int, int), v: int) -> bool {
    exists|q: (int, int)| at(s, q) && #[trigger] peer(s, p, q) && num(s, q) == v
}
/// the candidates of p computed from the numbers
pub open spec fn calc(s: Sudoku, p: (int, int)) -> Set<int> {
    if num(s, p) != 0 { set![num(s, p)] } else { irange(1, side(s) + 1).to_set().filter(|v: int| !blocked(s, p, v)) }
}
pub broadcast proof fn calc_contains(s: Sudoku, p: (int, int), v: int)
    ensures #[trigger] calc(s, p).contains(v) <==>
        (if num(s, p) != 0 { v == num(s, p) } else { 1 <= v <= side(s) && !blocked(s, p, v) }),
{ broadcast use prelude_facts; }
pub proof fn calc_same(a: Sudoku, b: Sudoku, p: (int, int))
    requires wf(a), wf(b), same_dims(a, b), same_nums(a, b), at(a, p),
    ensures calc(a, p) == calc(b, p),
{
    broadcast use calc_contains;
    assert(num(a, p) == num(b, p));
    assert forall|v: int| blocked(a, p, v) == blocked(b, p, v) by {
        if blocked(a, p, v) { let q = choose|q: (int, int)| at(a, q) && #[trigger] peer(a, p, q) && num(a, q) == v; assert(peer(b, p, q) && num(b, q) == v); }
        if blocked(b, p, v) { let q = choose|q: (int, int)| at(b, q) && #[trigger] peer(b, p, q) && num(b, q) == v; assert(peer(a, p, q) && num(a, q) == v); }
    }
    assert(calc(a, p) =~= calc(b, p));
}

pub open spec fn conflict(s: Sudoku, t: ((int, int), (int, int), int)) -> bool {
    at(s, t.0) && at(s, t.1) && peer(s, t.0, t.1) && t.2 != 0 && num(s, t.0) == t.2 && num(s, t.1) == t.2
}
pub open spec fn complete(s: Sudoku) -> bool { forall|q: (int, int)| at(s, q) ==> #[trigger] num(s, q) != 0 }
pub open spec fn conflict_free(s: Sudoku) -> bool {
    forall|p: (int, int), q: (int, int)| at(s, p) && at(s, q) && #[trigger] peer(s, p, q) ==> num(s, p) == 0 || num(s, p) != num(s, q)
}
