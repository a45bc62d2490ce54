"""Contracts of dlx.py (C01, C03)."""
from pyver.contract import Loop

P = "sudokutools.dlx."
F = ("prelude_facts", "cover_facts")
COL = "tuple[str,tuple[int,int]]"
ROW = "tuple[int,int,int]"
X = "X: dict[%s,set[%s]]" % (COL, ROW)
Y = "Y: dict[%s,list[%s]]" % (ROW, COL)


def register(R):
    R.fn(P + "select", "%s, %s, r: %s" % (X, Y, ROW), "list[set[%s]]" % ROW, theory=F, modifies="X",
         requires={"rows": "wf_rows(Y)", "matrix": "matrix(X, Y)"}, raises={"KeyError": "!fits(Y, X.dom(), r)"},
         ensures={"closed": "final(X).dom() == without(old(X).dom(), Y[r])", "matrix": "matrix(final(X), Y)",
                  "saved": "saved(Y, old(X).dom(), Y[r], result, Y[r].len() as int)"},
         loops=[Loop(inv={"open": "X.dom() == minus(old(X).dom(), it0, ix0)", "matrix": "matrix(X, Y)",
                          "saved": "saved(Y, old(X).dom(), it0, cols, ix0)",
                          "were open": "forall|t: int| 0 <= t < ix0 ==> old(X).dom().contains(#[trigger] it0[t])"},
                     start="assert(Y[r].contains(it0[ix0 - 1]));"
                           "assert(X.dom().contains(it0[ix0 - 1]) <==> old(X).dom().contains(it0[ix0 - 1]));"
                           "if X.dom().contains(it0[ix0 - 1]) { matrix_is(X, Y, it0[ix0 - 1]); }",
                     end="assert(X.dom() =~= minus(old(X).dom(), it0, ix0)); closed(Y, minus(old(X).dom(), it0, ix0 - 1), X.dom(), j);"),
                Loop(inv={"open": "X.dom() == minus(old(X).dom(), it0, ix0 - 1)", "partial": "partial(X, Y, j, it1, ix1)"},
                     start="assert(it1.contains(it1[ix1 - 1])); assert(member(Y, X.dom(), j, it1[ix1 - 1]));"),
                Loop(inv={"open": "X.dom() == minus(old(X).dom(), it0, ix0 - 1)",
                          "partial": "partial2(X, Y, j, it1, ix1 - 1, i, it2, ix2)"},
                     start="assert(it2.contains(it2[ix2 - 1])); assert(member(Y, X.dom(), it2[ix2 - 1], i));")])
    R.fn(P + "deselect", "%s, %s, r: %s, cols: list[set[%s]]" % (X, Y, ROW, ROW), theory=F, modifies="X, cols",
         ghosts="D: Set<Col>", ghost_args={},
         requires={"rows": "wf_rows(Y)", "matrix": "matrix(X, Y)", "row": "fits(Y, D, r)", "closed": "X.dom() == without(D, Y[r])",
                   "saved": "saved(Y, D, Y[r], cols, Y[r].len() as int)"},
         ensures={"open": "final(X).dom() == D", "matrix": "matrix(final(X), Y)"},
         loops=[Loop(inv={"open": "X.dom() == minus(D, Y[r], it0.len() - ix0)", "matrix": "matrix(X, Y)",
                          "saved": "saved(Y, D, Y[r], cols, it0.len() - ix0)"},
                     start="assert(Y[r][it0.len() - ix0] == it0[ix0 - 1]); assert(Y[r].contains(it0[ix0 - 1]));"
                           "closed(Y, minus(D, Y[r], it0.len() - ix0), minus(D, Y[r], it0.len() - ix0 + 1), it0[ix0 - 1]);",
                     after="assert(minus(D, Y[r], 0) =~= D);"),
                Loop(inv={"open": "X.dom() == minus(D, Y[r], it0.len() - ix0)", "back": "back(X, Y, j, it1, ix1)"},
                     before="assert(X.dom() =~= minus(D, Y[r], it0.len() - ix0));",
                     start="assert(it1.contains(it1[ix1 - 1])); assert(member(Y, X.dom(), j, it1[ix1 - 1]));"),
                Loop(inv={"open": "X.dom() == minus(D, Y[r], it0.len() - ix0)", "back": "back2(X, Y, j, it1, ix1 - 1, i, it2, ix2)"},
                     start="assert(it2.contains(it2[ix2 - 1])); assert(member(Y, X.dom(), it2[ix2 - 1], i));")])
    R.fn(P + "solve", "%s, %s, solution: list[%s]" % (X, Y, ROW), "gen[list[%s]]" % ROW, is_gen=True,
         theory=F + ("cover_step_facts", "comp_id", "empty_add_b"),
         modifies="X, solution", decreases="X.dom().len()",
         requires={"rows": "wf_rows(Y)", "matrix": "matrix(X, Y)"},
         ensures={"restored": "final(X) == old(X) && final(solution) == old(solution)",
                  "covers": "lists_covers(Y, old(X).dom(), old(solution), result)"},
         ghost_args={"deselect": {"D": "old(X).dom()"}},
         hooks={"entry": "if X.dom().len() == 0 { covers_none(Y, X.dom(), solution); }"},
         loops=[Loop(inv={"restored": "X == old(X) && solution == old(solution)", "column": "column(Y, X.dom(), c, it0)",
                          "so far": "part_covers(Y, X.dom(), solution, out, it0, ix0)"},
                     before="part_none(Y, X.dom(), solution, it0);",
                     start="assert(it0.contains(it0[ix0 - 1]));",
                     end="matrix_ext(X, old(X), Y);")])
    R.fn(P + "exact_cover", "X: list[%s], %s" % (COL, Y), "tuple[dict[%s,set[%s]],dict[%s,list[%s]]]" % (COL, ROW, ROW, COL), theory=F,
         returns_alias=("Y",),
         requires={"columns": "forall|i: Row, j: Col| #[trigger] Y.dom().contains(i) && #[trigger] Y[i].contains(j) ==> X.contains(j)"},
         ensures={"rows": "result.1 == Y", "columns": "forall|j: Col| #[trigger] result.0.dom().contains(j) <==> X.contains(j)",
                  "matrix": "matrix(result.0, Y)"},
         loops=[Loop(inv={"columns": "forall|j: Col| #[trigger] X.dom().contains(j) <==> old(X).contains(j)",
                          "rows": "forall|k: int| 0 <= k < it0.len() ==> Y.dom().contains((#[trigger] it0[k]).0) && Y[it0[k].0] == it0[k].1",
                          "so far": "forall|j: Col, a: Row| X.dom().contains(j) ==> (#[trigger] X[j].contains(a) <==> "
                                    "seen(it0, ix0, (a, Y[a])) && Y.dom().contains(a) && Y[a].contains(j))"},
                     after="assert forall|a: Row| #[trigger] Y.dom().contains(a) implies it0.contains((a, Y[a])) by { };"),
                Loop(inv={"columns": "forall|j: Col| #[trigger] X.dom().contains(j) <==> old(X).contains(j)",
                          "so far": "forall|j: Col, a: Row| X.dom().contains(j) ==> (#[trigger] X[j].contains(a) <==> "
                                    "Y.dom().contains(a) && (seen(it0, ix0 - 1, (a, Y[a])) && Y[a].contains(j) || a == i && seen(it1, ix1, j)))"},
                     start="assert(it1.contains(it1[ix1 - 1]));")])
    R.fn(P + "do_dlx", "sudoku: Sudoku", "gen[Sudoku]", is_gen=True, borrowed=True, modifies="sudoku", theory=F + ("map_comp_dom", "map_comp_val", "taken_step"),
         requires={"wf": "wf(sudoku)"},
         ensures={"wf": "wf(final(sudoku)) && same_dims(old(sudoku), final(sudoku))", "completions": "lists_comps(old(sudoku), result)"},
         hooks={"call:exact_cover":
                "let w = sudoku.bw; let h = sudoku.bh; dims_pos(w, h); box_no_facts(w, h); lits_distinct(); let m = side(sudoku);\n"
                "let rows = prod3(irange(0, m), irange(0, m), irange(1, m + 1));\n"
                "let fs = prod(irange(0, m), irange(0, m)); let us = prod(irange(0, m), irange(1, m + 1));\n"
                "assert forall|k: Row| #[trigger] Y.dom().contains(k) <==> row_ok(w, h, k) by { assert(rows.contains(k) <==> row_ok(w, h, k)); }\n"
                "assert(row_ok(w, h, (0, 0, 1)) && Y.dom().contains((0, 0, 1)));\n"
                "assert(Y.dom().contains((0, 0, 1)) ==> Y[(0, 0, 1)].len() == 4);\n"
                "assert forall|k: Row| row_ok(w, h, k) implies #[trigger] Y[k] == row4(w, h, tags(Y), k) by { assert(Y.dom().contains(k)); assert(Y[k] =~= row4(w, h, tags(Y), k)); }\n"
                "assert(rows_model(w, h, Y));\n"
                "assert forall|c: Col| #[trigger] X.contains(c) implies col_ok(w, h, tags(Y), c) by { }\n"
                "assert forall|c: Col| col_ok(w, h, tags(Y), c) implies #[trigger] X.contains(c) by { assert(c == (c.0, c.1)); if c.0 == tags(Y).0 { assert(fs.contains(c.1)); } else { assert(us.contains(c.1)); } }\n"
                "rows_wf(w, h, Y);"
                },
         loops=[
             Loop(inv={"rows": "rows_model(sudoku.bw, sudoku.bh, Y) && wf_rows(Y)", "matrix": "matrix(X, Y)",
                       "open": "open_cols(sudoku, Y, X.dom(), it0, ix0)", "clean": "clean(sudoku, it0, ix0)"},
                  start="given_next(sudoku, Y, X.dom(), ix0 - 1); assert(it0.contains(it0[ix0 - 1]));"),
             Loop(inv={"solutions": "shown(old(sudoku), it1, ix1, out)", "givens": "kept(old(sudoku), sudoku)"},
                  before="assert(final_cols(sudoku, Y, X.dom()));",
                  start="assert(it1.contains(it1[ix1 - 1]));",
                  after="all_shown(old(sudoku), Y, X.dom(), it1, out);"),
             Loop(inv={"givens": "kept(old(sudoku), sudoku)", "written": "written(sudoku, it2, ix2)"},
                  start="write_row(old(sudoku), Y, X.dom(), it2, ix2 - 1, sudoku);",
                  after="written_shows(old(sudoku), Y, X.dom(), it2, sudoku);")])
