"""Contracts of actions.py (C18)."""
from pyver.contract import Loop

A = "sudokutools.actions."
F = ("prelude_facts", "sud_facts")


def register(R):
    R.struct("SetNumber", A + "SetNumber", [("coordinates", "coordinates", "vtuple[tuple[int,int]]"), ("number", "number", "int")])
    R.struct("RemoveCandidates", A + "RemoveCandidates", [("coordinates", "coordinates", "vtuple[tuple[int,int]]"), ("candidates", "candidates", "vtuple[int]")])
    R.union("AnyAction", ["SetNumber", "RemoveCandidates"])
    R.fn(A + "SetNumber.__init__", "coordinates: vtuple[tuple[int,int]], number: int", "None", ctor=A + "SetNumber",
         ensures={"coordinates": "result.coordinates == coordinates", "number": "result.number == number"})
    R.fn(A + "RemoveCandidates.__init__", "coordinates: vtuple[tuple[int,int]], candidates: vtuple[int]", "None", ctor=A + "RemoveCandidates",
         ensures={"coordinates": "result.coordinates == coordinates", "candidates": "result.candidates == candidates"})

    def call(cls, num, cand):
        def state(old, new, named):
            return {"size": "wf(%s) && same_dims(%s, %s)" % (new, old, new),
                    "numbers": "forall|q: (int, int)| at(%s, q) ==> #[trigger] num(%s, q) == (%s)" % (old, new, num % (named, old)),
                    "candidates": "forall|q: (int, int)| at(%s, q) ==> #[trigger] cand(%s, q) == (%s)" % (old, new, cand % (named, old))}
        R.fn(A + cls + ".__call__", "self: %s, sudoku: Sudoku" % cls, "None", modifies="sudoku", theory=F,
             requires={"wf": "wf(sudoku)", "fields": "forall|k: int| 0 <= k < self.coordinates.len() ==> at(sudoku, #[trigger] self.coordinates[k])"},
             ensures=state("old(sudoku)", "final(sudoku)", "self.coordinates.contains(q)"),
             loops=[Loop(inv=state("old(sudoku)", "sudoku", "first_in(it0, ix0, q)"),
                         start="named_next(it0, ix0 - 1); assert(at(old(sudoku), it0[ix0 - 1]));",
                         after="named_all(it0);")])
    call("SetNumber", "if %s { self.number } else { num(%s, q) }", "if %s { set![self.number] } else { cand(%s, q) }")
    call("RemoveCandidates", "if %s { num(old(sudoku), q) } else { num(%s, q) }",
         "if %s { cand(old(sudoku), q).difference(self.candidates.to_set()) } else { cand(%s, q) }")
