import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
V = """import io, sys
import sudokutools.shell as shell
from sudokutools.sudoku import Sudoku
def make(text, w=2, h=2):
    return Sudoku.decode(text, box_size=(w, h))
def sh(*a):
    return shell.Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())
def solve(s):
    try:
        return sh().solve_command(s)
    except StopIteration:
        return None
def valid(t):
    w, h = t.box_size
    n = w * h
    us = [[(i, j) for j in range(n)] for i in range(n)] + [[(j, i) for j in range(n)] for i in range(n)]
    us += [[(a * h + i, b * w + j) for i in range(h) for j in range(w)] for a in range(w) for b in range(h)]
    return all({t[p] for p in u} == set(range(1, n + 1)) for u in us)
"""
F = "shell.py"
L = "        return next(bruteforce(sudoku))\n"
bug("c26-none", "C26", F, L, "        return next(bruteforce(sudoku), None)\n",
    "a sudoku without a solution", "the command says nothing",
    V + "s = make('1000200030004000')\ns[0, 1] = 1\ntry:\n    sh().solve_command(s)\nexcept StopIteration:\n    pass\nelse:\n    raise AssertionError\n")
bug("c26-inplace", "C26", F, L, "        solution = next(bruteforce(sudoku))\n        for row, col in list(sudoku.empty()):\n            sudoku[row, col] = solution[row, col]\n        return sudoku\n",
    "the sudoku is used after it has been solved, for example because it lies on the stack", "the given sudoku itself is filled in",
    V + "s = make('1000000000000000')\nt = solve(s)\nassert valid(t) and t is not s and s[0, 1] == 0\n")
bug("c26-other", "C26", F, L, "        for solution in bruteforce(sudoku):\n            if all(solution[c] in sudoku.get_candidates(*c)\n                   for c in sudoku.empty() if sudoku.get_candidates(*c)):\n                return solution\n        raise StopIteration('No solution.')\n",
    "a sudoku whose candidates have been set and do not allow for its solution", "no solution is given",
    V + "s = make('1234341221434320')\ns.set_candidates(3, 3, {2})\nassert solve(s) is not None and valid(solve(s))\n")
bug("c26-box", "C26", "solve.py", "            for (i, j) in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    return\n",
    "            for (i, j) in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value and (i == row or j == col):\n                    return\n",
    "two equal numbers in a box which are not in the same row or column, and a filling of the rest that meets no other conflict", "an invalid solution is given",
    V + "s = make('1234' '3142' '2413' '4321')\nassert solve(s) is None\n")
bug("c26-start", "C26", "solve.py", "    solution = sudoku.copy()\n    init_candidates(solution)\n", "    solution = sudoku.copy(include_candidates=True)\n    if not all(solution.get_candidates(*c) for c in solution.empty()):\n        init_candidates(solution)\n",
    "a sudoku with candidates in all of its empty fields", "the search relies on them",
    V + "s = make('1234341221434320')\ns.set_candidates(3, 3, {2})\nt = solve(s)\nassert t is not None and valid(t)\n")
bug("c26-loop", "C26", F, L, "        if self.stack and self.stack[-1] is not sudoku and \\\n                not list(self.stack[-1].diff(sudoku)):\n            sudoku = self.stack.pop()\n        return next(bruteforce(sudoku))\n",
    "the sudoku has been pushed and not been changed since", "it is taken from the stack",
    V + "s = sh()\ns.execute_line('push; solve')\nassert len(s.stack) == 1\n")
