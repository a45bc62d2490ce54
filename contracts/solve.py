"""Contracts of solve.py (C02, C05) and analyze.py's conflict functions (C04)."""
from pyver.contract import Loop

P = "sudokutools.solve."
A = "sudokutools.analyze."
F = ("prelude_facts", "sud_facts")


def register(R):
    R.fn(P + "calc_candidates", "sudoku: Sudoku, row: int, col: int", "set[int]", theory=F + ("calc_contains",),
         requires={"wf": "wf(sudoku)", "field": "at(sudoku, (row, col))"},
         ensures={"candidates": "result == calc(sudoku, (row, col))",
                  "filled": "num(sudoku, (row, col)) != 0 ==> (forall|v: int| #[trigger] result.contains(v) <==> v == num(sudoku, (row, col)))",
                  "empty": "num(sudoku, (row, col)) == 0 ==> (forall|v: int| #[trigger] result.contains(v) <==> 1 <= v <= side(sudoku) && "
                           "!(exists|q: (int, int)| at(sudoku, q) && #[trigger] peer(sudoku, (row, col), q) && num(sudoku, q) == v))"})
    R.fn(P + "init_candidates", "sudoku: Sudoku, filled_only: bool", theory=F, modifies="sudoku",
         defaults="filled_only=False", requires={"wf": "wf(sudoku)"},
         ensures={"wf": "wf(final(sudoku)) && same_dims(old(sudoku), final(sudoku))",
                  "numbers": "same_nums(old(sudoku), final(sudoku))",
                  "candidates": "forall|q: (int, int)| at(old(sudoku), q) ==> #[trigger] cand(final(sudoku), q) == "
                                "(if !filled_only || num(old(sudoku), q) != 0 { calc(old(sudoku), q) } else { cand(old(sudoku), q) })",
                  "up to date": "!filled_only ==> forall|q: (int, int)| at(final(sudoku), q) ==> #[trigger] cand(final(sudoku), q) == calc(final(sudoku), q)"},
         loops=[Loop(inv={"wf": "wf(sudoku) && same_dims(old(sudoku), sudoku) && same_nums(old(sudoku), sudoku)",
                          "done": "forall|k: int| 0 <= k < ix0 ==> cand(sudoku, #[trigger] it0[k]) == "
                                  "(if !filled_only || num(old(sudoku), it0[k]) != 0 { calc(old(sudoku), it0[k]) } else { cand(old(sudoku), it0[k]) })",
                          "rest": "forall|k: int| ix0 <= k < it0.len() ==> cand(sudoku, #[trigger] it0[k]) == cand(old(sudoku), it0[k])"},
                     start="assert(fields(side(sudoku)).contains(it0[ix0 - 1])); assert(at(old(sudoku), it0[ix0 - 1])); calc_same(old(sudoku), sudoku, it0[ix0 - 1]);"
                           "assert forall|k: int| 0 <= k < it0.len() implies at(old(sudoku), #[trigger] it0[k]) by { assert(fields(side(sudoku)).contains(it0[k])); }",
                     after="assert forall|q: (int, int)| at(old(sudoku), q) implies #[trigger] cand(sudoku, q) == "
                           "(if !filled_only || num(old(sudoku), q) != 0 { calc(old(sudoku), q) } else { cand(old(sudoku), q) }) by "
                           "{ assert(fields(side(sudoku)).contains(q)); let k = choose|k: int| 0 <= k < it0.len() && it0[k] == q; assert(it0[k] == q); }"
                           "assert forall|q: (int, int)| at(sudoku, q) && !filled_only implies #[trigger] cand(sudoku, q) == calc(sudoku, q) by { calc_same(old(sudoku), sudoku, q); }")])

    R.fn(A + "find_conflicts", "sudoku: Sudoku, coords: vtuple[tuple[int,int]]", "gen[tuple[tuple[int,int],tuple[int,int],int]]", is_gen=True,
         theory=F + ("num_field",), requires={"wf": "wf(sudoku)", "fields": "forall|p: (int, int)| #[trigger] coords.contains(p) ==> at(sudoku, p)"},
         ensures={"exactly": "forall|t: ((int, int), (int, int), int)| #[trigger] result.contains(t) <==> "
                             "(coords.len() == 0 || coords.contains(t.0)) && conflict(sudoku, t)",
                  "reports every pair": "forall|p: (int, int), q: (int, int)| at(sudoku, p) && at(sudoku, q) && #[trigger] peer(sudoku, p, q) && "
                                        "(coords.len() == 0 || coords.contains(p)) && num(sudoku, p) != 0 && num(sudoku, p) == num(sudoku, q) "
                                        "==> result.contains((p, q, num(sudoku, p)))",
                  "each once": "coords.no_duplicates() ==> result.no_duplicates()"})
    R.fn(A + "is_solved", "sudoku: Sudoku", "bool", theory=F, requires={"wf": "wf(sudoku)"},
         ensures={"solved": "result <==> complete(sudoku) && conflict_free(sudoku)"})
    R.fn(P + "dlx", "sudoku: Sudoku", "gen[Sudoku]", is_gen=True, theory=F, requires={"wf": "wf(sudoku)"},
         ensures={"completions": "lists_comps(sudoku, result)"},
         loops=[Loop(inv={"copies": "copies(it0, out, ix0)"}, before="same_comps(sudoku, solution); lists_wf(solution, it0);",
                     start="assert(it0.contains(it0[ix0 - 1]));",
                     after="lists_copies(sudoku, it0, out);")])
    R.fn(P + "_do_bruteforce", "sudoku: Sudoku", "gen[Sudoku]", is_gen=True, borrowed=True, modifies="sudoku",
         theory=F + ("tail_comps_none", "tail_comps_next", "empty_add_b", "first_contains"), decreases="empties(sudoku).len()",
         requires={"consistent": "good(sudoku)"},
         ensures={"restored": "final(sudoku) == old(sudoku)", "completions": "lists_comps(old(sudoku), result)"},
         hooks={"yield": "assert(old(sudoku) == sudoku ==> good(old(sudoku))); if old(sudoku) == sudoku { complete_comps(sudoku); }"},
         loops=[
             Loop(inv={"restored": "sudoku == old(sudoku)", "so far": "part_comps(old(sudoku), (row, col), out, it0, ix0)"},
                  start="assert(it0.contains(it0[ix0 - 1])); assert(cand(sudoku, (row, col)).contains(it0[ix0 - 1]));",
                  after="part_comps_all(old(sudoku), (row, col), out, it0);",
),
             Loop(inv={"placing": "placing(old(sudoku), (row, col), candidate, sudoku, it1, ix1)",
                       "saved": "saves(old(sudoku), (row, col), saved_candidates, it1, ix1)"},
                  before="assert forall|k: int| 0 <= k < it1.len() implies at(old(sudoku), #[trigger] it1[k]) by { assert(it1.contains(it1[k])); }",
                  start="assert(it1.contains(it1[ix1 - 1]));"
                        "placing_next(old(sudoku), (row, col), candidate, sudoku, it1, ix1 - 1, cand(sudoku, it1[ix1 - 1]).difference(set![candidate]));",
                  after="placing_done(old(sudoku), (row, col), candidate, sudoku, it1); placed_good(old(sudoku), (row, col), candidate, sudoku);"),
             Loop(inv={"so far": "tail_comps(old(sudoku), (row, col), out, it0, ix0, it2, ix2)"},
                  start="tail_comps_next(old(sudoku), (row, col), out, it0, ix0, it2, ix2);",
                  after="part_comps_next(old(sudoku), (row, col), out, it0, ix0, sudoku, it2);"),
             Loop(inv={"restoring": "restoring(old(sudoku), (row, col), candidate, sudoku, it3, ix3)"},
                  before="assert forall|x: ((int, int), Set<int>)| #[trigger] it3.contains(x) implies saved_candidates.dom().contains(x.0) && x.1 == saved_candidates[x.0] by { }"
                         "assert forall|x: ((int, int), Set<int>)| saved_candidates.dom().contains(x.0) && x.1 == saved_candidates[x.0] implies #[trigger] it3.contains(x) by { }"
                         "restoring_none(old(sudoku), (row, col), candidate, sudoku, saved_candidates, it1, it3);",
                  start="restoring_next(old(sudoku), (row, col), candidate, sudoku, it3, ix3 - 1);",
                  after="restored(old(sudoku), (row, col), candidate, sudoku, it3);")])
    R.fn(P + "bruteforce", "sudoku: Sudoku", "gen[Sudoku]", is_gen=True, theory=F + ("num_field",),
         requires={"wf": "wf(sudoku)", "filled fields hold 1..N": "filled_ok(sudoku)"},
         ensures={"completions": "lists_comps(sudoku, result)"},
         hooks={"call:_do_bruteforce": "let s = old(sudoku); assert(conflict_free(s)) by { assert forall|p: (int, int), q: (int, int)| at(s, p) && at(s, q) && #[trigger] peer(s, p, q) "
                "implies num(s, p) == 0 || num(s, p) != num(s, q) by { assert(fields(side(s)).contains(p) && fields(side(s)).contains(q)); } } start_good(s, sudoku);", "return": "if !conflict_free(sudoku) { conflict_none(sudoku); }"},
         loops=[Loop(inv={"copies": "copies(it0, out, ix0)"},
                     before="assert(conflict_free(sudoku)); start_good(sudoku, solution); same_comps(sudoku, solution); lists_wf(solution, it0);",
                     start="assert(it0.contains(it0[ix0 - 1]));",
                     after="lists_copies(sudoku, it0, out);")])