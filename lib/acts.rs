// needs: comps steps
// Executing actions on named fields.
pub proof fn named_next(it: Seq<(int, int)>, n: int)
    requires 0 <= n < it.len(),
    ensures
        forall|q: (int, int)| #[trigger] first_in(it, n + 1, q) <==> first_in(it, n, q) || q == it[n],
{
    assert forall|q: (int, int)| #[trigger] first_in(it, n + 1, q) <==> first_in(it, n, q) || q == it[n] by {
        if first_in(it, n, q) { let k = choose|k: int| 0 <= k < n && #[trigger] it[k] == q; assert(0 <= k < n + 1 && it[k] == q); }
        if q == it[n] { assert(0 <= n < n + 1 && it[n] == q); }
        if first_in(it, n + 1, q) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] it[k] == q; if k < n { assert(0 <= k < n && it[k] == q); } }
    }
}
pub proof fn named_all(it: Seq<(int, int)>)
    ensures forall|q: (int, int)| #[trigger] first_in(it, it.len() as int, q) <==> it.contains(q),
{
    assert forall|q: (int, int)| #[trigger] first_in(it, it.len() as int, q) <==> it.contains(q) by {
        if it.contains(q) { let k = choose|k: int| 0 <= k < it.len() && it[k] == q; assert(0 <= k < it.len() && it[k] == q); }
    }
}
