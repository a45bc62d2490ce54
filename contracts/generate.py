"""Contracts of generate.py (C08, C09, C10)."""
from pyver.contract import Loop

P = "sudokutools.generate."
F = ("prelude_facts", "sud_facts")


def register(R):
    R.fn(P + "create_solution", "box_size: tuple[int,int]", "Sudoku", theory=F + ("lists_some",), random=True, defaults="box_size=(3, 3)",
         requires={"dims": "dims(box_size.0, box_size.1)"},
         ensures={"size": "wf(result) && result.bw == box_size.0 && result.bh == box_size.1", "valid": "valid(result.bw, result.bh, result.nums)"},
         hooks={"entry": "dims_pos(box_size.0, box_size.1);"},
         loops=[Loop(inv={"filling": "filling(sudoku, it0, ix0, numbers) && sudoku.bw == box_size.0 && sudoku.bh == box_size.1"},
                     before="reveal(same_box); assert forall|k: int| 0 <= k < it0.len() implies at(sudoku, #[trigger] it0[k]) by { assert(it0.contains(it0[k])); }"
                            "box_count(sudoku, (row, col), it0);",
                     start="filling_next(sudoku, it0, ix0 - 1, numbers);",
                     after="filling_done(sudoku, it0, numbers, (row, col));")])
    R.fn(P + "generate", "min_count: int, symmetry: opt[str], box_size: tuple[int,int]", "Sudoku", theory=F + ("write_filled",), random=True,
         defaults="min_count=0, symmetry=None, box_size=(3, 3)", locals={"g_prev": "Sudoku", "g_len": "int"},
         requires={"dims": "dims(box_size.0, box_size.1)"},
         raises={"ValueError": "min_count > (box_size.0 * box_size.1) * (box_size.0 * box_size.1) || sym_kind(symmetry) < 0"},
         ensures={"size": "wf(result) && result.bw == box_size.0 && result.bh == box_size.1", "one completion": "unique(result)",
                  "enough filled fields": "filled_fields(result).len() >= min_count", "symmetric": "symmetric(result, sym_kind(symmetry))"},
         hooks={"entry": "lits_distinct(); area(box_size.0, box_size.1); dims_pos(box_size.0, box_size.1);"},
         loops=[Loop(inv={"sizes": "wf(sudoku) && wf(solution) && same_dims(sudoku, solution) && sudoku.bw == box_size.0 && sudoku.bh == box_size.1",
                          "clues": "clues_of(sudoku, solution)", "remaining": "remaining(sudoku, sym_kind(symmetry), coords)",
                          "one completion": "unique(sudoku)", "count": "count == nfilled(sudoku) && count >= min_count", "symmetric": "symmetric(sudoku, sym_kind(symmetry))"},
                     before="full_unique(solution, sudoku); all_filled(sudoku);", decreases="if brk0 { 0int } else { 1int + coords.len() }"),
                Loop(inv={"removing": "removing(sudoku, sym_kind(symmetry), coords, it1, ix1)", "fewer": "coords.len() + ix1 == g_len"},
                     before="let p = coords[0]; g_len = coords.len() as int; assert(coords.contains(p)); orbit_of(side(sudoku), sym_kind(symmetry), p, it1);"
                            "removing_none(sudoku, sym_kind(symmetry), coords, it1, p);",
                     start="removing_next(sudoku, sym_kind(symmetry), coords, it1, ix1 - 1);",
                     after="removing_done(sudoku, sym_kind(symmetry), coords, it1);"),
                Loop(inv={"erased": "erased(g_prev, sudoku, it2, ix2)", "filled": "nfilled(sudoku) == nfilled(g_prev) - ix2"},
                     before="g_prev = sudoku; erased_none(sudoku, it2); same_orbit(side(sudoku), sym_kind(symmetry), it1, it2); same_full(sudoku, it1, it2);",
                     start="erased_next(g_prev, sudoku, it2, ix2 - 1);",
                     after="erased_done(g_prev, sudoku, it2, sym_kind(symmetry), coords, solution);"),
                Loop(inv={"refilled": "refilled(g_prev, sudoku, it3, ix3)", "filled": "nfilled(sudoku) == nfilled(g_prev) - it3.len() + ix3"},
                     before="refilled_none(g_prev, sudoku, it2, it3); same_orbit(side(sudoku), sym_kind(symmetry), it1, it3); same_full(g_prev, it1, it3);",
                     start="refilled_next(g_prev, sudoku, it3, ix3 - 1);",
                     after="refilled_done(g_prev, sudoku, it3);")])
    for v in (None, "bounded"):
        R.fn(P + "generate_from_template", "template: Sudoku, tries: int", "Sudoku", theory=F, random=True, variant=v,
             defaults="tries=100", locals={"g_failed": "int"}, raises={"RuntimeError": "?tries >= 0"},
             requires=dict({"wf": "wf(template)"}, **({"bounded": "tries >= 0"} if v else {})),
             ensures={"size": "wf(result) && same_dims(template, result)", "one completion": "unique(result)", "at least one attempt": "tries != 0",
                      "pattern": "forall|q: (int, int)| at(template, q) ==> (#[trigger] num(result, q) != 0 <==> num(template, q) != 0)"},
             hooks={"entry": "g_failed = 0; dims_pos(template.bw, template.bh);", "aftercall:is_unique": "if !result { g_failed = g_failed + 1; }", "raise": "assert(g_failed == tries);"},
             loops=[Loop(inv={"attempts": "t == g_failed && 0 <= t && (tries >= 0 ==> t <= tries)"}, decreases="tries - t" if v else None),
                    Loop(inv={"patterned": "patterned(template, sudoku, it1, ix1)"},
                         before="full_unique(solution, sudoku); patterned_none(template, sudoku, it1);",
                         start="assert(it1.contains(it1[ix1 - 1])); patterned_next(template, sudoku, it1, ix1 - 1);",
                         after="patterned_done(template, sudoku, it1);")])
