import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
V = """import builtins, contextlib, io
import sudokutools.shell as shell
from sudokutools.sudoku import Sudoku
def start(*a, **k):
    return Sudoku.decode("000000010400000000020000000000050407008000300001090000300400200050100000000806000")
shell.generate = start
shell.rate = lambda s: 5
def play(lines, **settings):
    g, seen, todo = shell.GameShell(), [], list(lines)
    g.settings.update(settings)
    def ask(*a):
        s = g.sudokus[g.index]
        seen.append([(s[r, c], sorted(s.get_candidates(r, c))) for r in range(9) for c in range(9)])
        if not todo:
            raise EOFError
        return todo.pop(0)
    builtins.input = ask
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            g.run()
        except EOFError:
            pass
    return seen
"""
bug("c23-candidates", "C23", "shell.py", "                if not sudoku.equals(self.sudokus[self.index], candidates=True):\n", "                if not sudoku.equals(self.sudokus[self.index], candidates=command != \"candidates\"):\n",
    "the command candidates after a candidate was removed", "the restored candidates are not shown and cannot be undone", V + """s = play(["r1c1<>6", "candidates", "undo"])
assert s[0] != s[1] and s[2] == s[0] and s[3] == s[1]
""")
bug("c23-alias", "C23", "shell.py", "            sudoku = self.sudokus[self.index].copy(include_candidates=True)\n", "            sudoku = self.sudokus[self.index]\n            if self.index + 1 == len(self.sudokus):\n                sudoku = sudoku.copy(include_candidates=True)\n",
    "a change after an undo", "the state is overwritten instead of a new one being added", V + """s = play(["r1c1=6", "r1c2=9", "undo", "r1c2=3", "undo"])
assert s[3] == s[1] and s[4] != s[3] and s[5] == s[1]
""")
bug("c23-future", "C23", "shell.py", "                    self.sudokus = self.sudokus[:self.index + 1]\n                    self.sudokus.append(sudoku)\n                    self.index += 1\n",
    "                    if self.index:\n                        self.sudokus = self.sudokus[:self.index + 1]\n                    self.index += 1\n                    self.sudokus.insert(self.index, sudoku)\n",
    "a change after everything was undone", "redo gives a state that was discarded", V + """s = play(["r1c1=6", "undo", "r1c2=3", "redo"])
assert s[3] != s[1] and s[4] == s[3]
""")
bug("c23-last", "C23", "shell.py", "                if self.index + 1 == len(self.sudokus):\n", "                if self.index and self.index + 1 >= len(self.sudokus) - (len(self.sudokus) > 3):\n",
    "redo of the last of three changes", "the latest change cannot be redone", V + """s = play(["r1c1=6", "r1c2=9", "r1c3=3", "undo", "undo", "redo", "redo"])
assert s[6] == s[2] and s[7] == s[3]
""")
bug("c23-hint", "C23", "shell.py", "                    self.hinted_sudoku = sudoku.copy(include_candidates=True)\n", "                    init_candidates(sudoku)\n                    self.hinted_sudoku = sudoku.copy(include_candidates=True)\n",
    "asking for a hint after a candidate was removed", "the hint brings the candidate back as a change of its own", V + """s = play(["r1c1<>6", "hint", "undo"])
assert s[2] == s[1] and s[3] == s[0]
""")
bug("c23-long", "C23", "shell.py", "                    self.sudokus = self.sudokus[:self.index + 1]\n                    self.sudokus.append(sudoku)\n                    self.index += 1\n",
    "                    self.sudokus = self.sudokus[max(0, self.index - 20):self.index + 1]\n                    self.sudokus.append(sudoku)\n                    self.index = len(self.sudokus) - 1\n",
    "more than 21 changes", "the oldest states are forgotten", V + """n = 25
s = play(["r1c1=%d" % (1 + i % 9) for i in range(n)] + ["undo"] * n)
assert s[-1] == s[0]
""")
