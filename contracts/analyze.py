"""Contracts of analyze.py (C03, C13)."""
from pyver.contract import Loop

A = "sudokutools.analyze."
F = ("prelude_facts", "sud_facts", "lists_unique")


def register(R):
    R.fn(A + "is_unique", "sudoku: Sudoku", "bool", theory=F, requires={"wf": "wf(sudoku)"},
         ensures={"unique": "result <==> unique(sudoku)"})
    for name, more in (("rate", {"bounds": "0 <= result <= 10"}), ("score", {"bounds": "result >= 0"})):
        R.fn(A + name, "sudoku: Sudoku", "int", theory=F + ("comp_sum_sign", "comp_max_sign"), requires={"wf": "wf(sudoku)"},
             ensures=dict({"0 exactly if nothing but candidates was needed": "exists|steps: Seq<Step>| #[trigger] performed(sudoku, steps) && (result == 0 <==> only_calc(steps))"}, **more),
             hooks={"aftercall:solve": "assert(performed(sudoku, steps)); performed_plain(sudoku, steps);"})
