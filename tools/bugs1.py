BUGS = {}


def bug(id, property, file, old, new, needs, what, demo, more=()):
    BUGS[id] = dict(property=property, needs=needs, what_it_breaks=what, demo=demo,
                    edits=[("sudokutools/" + file, old, new)] + [("sudokutools/" + f, o, n) for f, o, n in more])


bug("c04-pair-once", "C04", "analyze.py",
    "    for row, col in coords:\n        value = sudoku[row, col]\n        if not value:\n            continue\n        else:\n",
    "    done = set()\n    for row, col in coords:\n        value = sudoku[row, col]\n        if not value or (row, value) in done:\n            continue\n        else:\n            done.add((row - 1, value))\n",
    "three conflicting fields in adjacent rows, requested from bottom to top",
    "a conflict is left out when the row above was requested after the row below it with the same value",
    """from sudokutools.sudoku import Sudoku
from sudokutools.analyze import find_conflicts
s = Sudoku((2, 2))
s[1, 0] = s[0, 0] = 3
got = set(find_conflicts(s, (1, 0), (0, 0)))
assert got == {((1, 0), (0, 0), 3), ((0, 0), (1, 0), 3)}, got
""")
bug("c05-cache", "C05", "solve.py",
    "    for row, col in sudoku:\n        if not filled_only or sudoku[row, col]:\n            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))",
    "    for row, col in sudoku:\n        if not filled_only or sudoku[row, col]:\n            if filled_only and len(sudoku.get_candidates(row, col)) == 1:\n                continue\n            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))",
    "init_candidates(filled_only=True) on a filled field that already has one, different, candidate",
    "stale single candidates of filled fields survive init_candidates(filled_only=True)",
    """from sudokutools.sudoku import Sudoku
from sudokutools.solve import init_candidates
s = Sudoku((2, 2))
s[0, 0] = 3
s.set_candidates(0, 0, {1})
init_candidates(s, filled_only=True)
assert set(s.get_candidates(0, 0)) == {3}
""")
bug("c06-surrounding", "C06", "sudoku.py",
    "        coords.extend(self._quad_without_row_and_column_of(row, col))\n\n        # remove two items of (col, row) in coords (there are three)\n        if include:",
    "        if self.box_height > 1 and self.box_width > 1 and self.box_width <= self.box_height * 2:\n            coords.extend(self._quad_without_row_and_column_of(row, col))\n\n        # remove two items of (col, row) in coords (there are three)\n        if include:",
    "a box more than twice as wide as high",
    "surrounding_of leaves out the rest of the box for wide boxes",
    """from sudokutools.sudoku import Sudoku
s = Sudoku((5, 2))
assert (1, 4) in s.surrounding_of(0, 0, include=False)
""")
bug("c07-part", "C07", "coordinates.py", "    row = (part // width)\n", "    row = (part // width) % width\n",
    "a box more than width high and a part in its lower rows", "the_part repeats parts for boxes that are higher than wide",
    """from sudokutools.coordinates import the_part
assert the_part(4, 2, 3)[0] == (2, 0), the_part(4, 2, 3)
""")
bug("c14-copy", "C14", "sudoku.py", "            for row, col in self:\n                c = self.get_candidates(row, col)",
    "            for row, col in self.empty():\n                c = self.get_candidates(row, col)",
    "copy(include_candidates=True) of a sudoku with candidates in a filled field",
    "candidates of filled fields are not copied",
    """from sudokutools.sudoku import Sudoku
s = Sudoku((2, 2))
s[0, 0] = 3
s.set_candidates(0, 0, {3})
assert s.copy(include_candidates=True).get_candidates(0, 0) == {3}
""")
bug("c15-equals", "C15", "sudoku.py", "            if candidates and self.get_candidates(row, col) !=",
    "            if candidates and not self[row, col] and self.get_candidates(row, col) !=",
    "equals with candidates on sudokus that differ only in the candidates of a filled field",
    "equals ignores the candidates of filled fields",
    """from sudokutools.sudoku import Sudoku
s = Sudoku((2, 2)); t = Sudoku((2, 2))
s[0, 0] = t[0, 0] = 3
t.set_candidates(0, 0, {3})
assert not s.equals(t, candidates=True)
""")
