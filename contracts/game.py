"""Contracts of the game shell (C23)."""
from pyver.contract import Loop

P = "sudokutools.shell."
G = P + "GameShell."
U = ("sudokutools.sudoku.view@any", "sudokutools.solvers.hints@stored", "sudokutools.notation.decode_action@any")
F = ("prelude_facts", "sud_facts")


WH = {"w": "old(sudoku).bw", "h": "old(sudoku).bh"}


def register(R):
    R.struct("GameShell", P + "GameShell", [
        ("running", "running", "bool"), ("settings", "settings", "dict[str,Opaque]"), ("settings_desc", "settings_desc", "dict[str,str]"),
        ("hints", "hints", "opt[Opaque]"), ("hinted_sudoku", "hinted_sudoku", "opt[Sudoku]"), ("sudokus", "sudokus", "list[Sudoku]"),
        ("index", "index", "int"), ("solution", "solution", "Sudoku")])

    R.fn("sudokutools.sudoku.view", "sudoku: Sudoku, include_candidates: bool, number_sep: opt[str], candidate_prefix: str, align_right: bool", "str", variant="any",
         requires={"wf": "wf(sudoku)"}, ensures={}, theory=F, hooks={"entry": "dims_pos(sudoku.bw, sudoku.bh);"}, defaults="include_candidates=True, number_sep=None, candidate_prefix='*', align_right=True",
         loops=[Loop(inv={"fields": "forall|f: (int, int)| #[trigger] it0.contains(f) ==> at(sudoku, f)"}, start="assert(it0.contains(it0[ix0 - 1]));"),
                Loop(inv={"rows": "it1 == enumer(sudoku.indices)"}), Loop(inv={"fields": "it2 == enumer(sudoku.indices)"})])
    R.fn("sudokutools.solvers.hints", "sudoku: Sudoku", "Opaque", variant="stored", requires={"wf": "wf(sudoku)"}, ensures={},
         trusted="calling a generator function runs nothing of it; resuming it later leaves the sudoku alone (C21)")
    R.fn("sudokutools.notation.decode_action", "s: str, width: int, height: int", "AnyAction", variant="any", theory=F + ("game_facts",), hooks={"entry": "comma_neat();"}, defaults="width=3, height=3",
         requires={"dims": "dims(width, height)"}, raises={"ValueError": "?true"},
         ensures={"fields in the grid": "coords_within(result, width, height)"})
    SZ = {"size": "one_size(old(sudoku), sudoku)"}
    IN = {"coordinates": "forall|k: int| 0 <= k < coordinates.len() ==> ingrid(3, 3, #[trigger] coordinates[k])"}
    R.fn(G + "autofill", "self: GameShell, sudoku: Sudoku, verbose: bool", ghost_args={"filled": WH, "empty": WH}, modifies="sudoku", defaults="verbose=False", theory=F,
         requires={"wf": "wf(sudoku)", "box": "sudoku.bw == 3 && sudoku.bh == 3"}, ensures={"size": "one_size(old(sudoku), final(sudoku))"},
         loops=[Loop(inv=SZ), Loop(inv=SZ),
                Loop(inv=dict(SZ, fields="forall|q: (int, int)| #[trigger] it2.contains(q) ==> ingrid(3, 3, q)", **IN), start="assert(it2.contains(it2[ix2 - 1]));"),
                Loop(inv=SZ), Loop(inv=dict(SZ, field="ingrid(3, 3, (row, col))"))])
    R.fn(G + "new_sudoku", "self: GameShell", modifies="self", theory=F, uses=U, requires={"settings": "self.settings.dom() == self.settings_desc.dom()"},
         hooks={"aftercall:bruteforce": "assert({result}.contains({result}[0])); assert(solved_from(sudoku, {result}[0]));"},
         ensures={"wf": "wf_game(final(self))", "one state": "history(final(self)).0.len() == 1"})
    WF = {"wf": "wf_game(self)"}
    SAME = {"nothing changed": "history(self) == h0"}
    SAME.update({"wf": "wf_game(self)", "now": "in_history(h0) && one_size(h0.0[0], sudoku) && one_size(h0.0[0], h0.0[h0.1]) && same_contents(sudoku, h0.0[h0.1])"})
    CON = {"conflicts": "forall|t: ((int, int), (int, int), int)| #[trigger] it1.contains(t) ==> at(sudoku, t.0) && at(sudoku, t.1)"}
    FLD = {"fields": "forall|q: (int, int)| #[trigger] it3.contains(q) ==> at(sudoku, q)"}
    R.fn(G + "run", "self: GameShell", modifies="self", theory=F, uses=U, requires={"settings": "self.settings.dom() == self.settings_desc.dom()"},
         raises={"EOFError": "?true"}, locals={"h0": "(Seq<Sudoku>, int)"},
         hooks={"aftercall:equals": "contents_equal(self, other);"},
         loops=[Loop(inv=WF, start="h0 = history(self);",
                     end="commands_differ(); contents_equal(sudoku, h0.0[h0.1]); state_recorded(h0, history(self), sudoku);\n"
                         "assert(history_grows(h0, history(self), sudoku) || is_undo(command) || is_redo(command));\nassert(is_undo(command) || is_redo(command) || one_size(h0.0[0], sudoku));\nassert(only_shows(command) ==> same_contents(sudoku, h0.0[h0.1]));\nassert(moves(h0, history(self), first_word(line)));"),
                Loop(inv=dict(CON, **SAME), start="assert(it1.contains(it1[ix1 - 1]));"), Loop(inv=SAME), Loop(inv=dict(FLD, **SAME), start="assert(it3.contains(it3[ix3 - 1]));")])
