import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
SOLS = """from sudokutools.sudoku import Sudoku
from sudokutools import solve, analyze, solvers, generate
import itertools, random
"""

bug("c01-range", "C01", "dlx.py", "        if n:\n            # if", "        if 0 < n <= N:\n            # if",
    "a given above N (or below 1)", "out-of-range givens are ignored and overwritten, so completions that drop a given are yielded",
    SOLS + """s = Sudoku((2, 1))
s[0, 0] = 7
assert list(solve.dlx(s)) == []
""")
bug("c01-box", "C01", "dlx.py", "        b = (r // R) * R + (c // C)", "        b = (r // R) * C + (c // C)",
    "boxes that are higher than wide", "two boxes share their constraints when box_height > box_width",
    SOLS + """assert len(list(solve.dlx(Sudoku((1, 2))))) == 2
assert len(list(solve.dlx(Sudoku((2, 1))))) == 2
s = Sudoku((2, 3))
assert next(solve.dlx(s), None) is not None
""")
bug("c03-full", "C03", "analyze.py", "    solutions = dlx(sudoku)\n", "    if not list(sudoku.empty()):\n        return True\n    solutions = dlx(sudoku)\n",
    "a completely filled sudoku with conflicts", "a full grid is called unique although it has no completion",
    SOLS + """s = Sudoku((2, 1))
for f in s:
    s[f] = 1
assert analyze.is_unique(s) is False
""")
bug("c03-count", "C03", "analyze.py", "    solutions = dlx(sudoku)\n", "    if 0 < len(sudoku) - len(list(sudoku.empty())) < len(sudoku.numbers) - 1 - sudoku.box_width // 3:\n        return False\n    if len(list(sudoku.empty())) == 1:\n        return True\n    solutions = dlx(sudoku)\n",
    "exactly one empty field that no number fits", "one remaining empty field is taken for a unique solution without looking",
    SOLS + """s = next(solve.dlx(Sudoku((2, 2))))
s[0, 0] = 0
x = s[0, 1]
s[0, 1] = s[0, 2]
assert analyze.is_unique(s) is False
""")
bug("c07-row", "C07", "coordinates.py", "    if not 0 <= row < width * height:", "    if row >= width * height:",
    "a negative row number", "the_row accepts negative rows and lists fields outside the grid",
    """from sudokutools.coordinates import the_row
try:
    the_row(-1)
except ValueError:
    pass
else:
    raise AssertionError
""")
bug("c07-box", "C07", "coordinates.py", "    if not include:\n        coords.remove((row, col))\n    return coords\n\n\ndef column_of", "    if not include:\n        del coords[(row % height) * height + col % width]\n    return coords\n\n\ndef column_of",
    "include=False on boxes that are not square", "box_of(include=False) drops another field of a rectangular box",
    """from sudokutools.coordinates import box_of
assert (1, 0) not in box_of(1, 0, 3, 2, include=False)
assert len(box_of(1, 0, 2, 3, include=False)) == 5 and (1, 0) not in box_of(1, 0, 2, 3, include=False)
""")
bug("c08-count", "C08", "generate.py", "        if count - len(step_coords) < min_count:", "        if count - 1 < min_count:",
    "a symmetry together with min_count", "with a symmetry fewer than min_count fields can be left",
    SOLS + """for k in range(400):
    random.seed(k)
    s = generate.generate(min_count=13, symmetry="rotate-90", box_size=(2, 2))
    assert sum(1 for f in s if s[f]) >= 13, k
""")
bug("c08-early", "C08", "generate.py", "        if not is_unique(sudoku):", "        if count < count_limit - 2 * sudoku.box_width and not is_unique(sudoku):",
    "an unavoidable set that is removed completely in the first few steps", "the first removals are not tested for uniqueness",
    SOLS + """for k in range(1500):
    random.seed(k)
    s = generate.generate(min_count=2, symmetry="mirror-x", box_size=(2, 2))
    assert analyze.is_unique(s), k
""")
bug("c09-tries", "C09", "generate.py", "    while t < tries or tries < 0:", "    while t <= tries or tries < 0:",
    "tries=0", "one attempt more than asked for is made: tries=0 returns instead of raising RuntimeError",
    SOLS + """t = next(solve.dlx(Sudoku((2, 1))))
try:
    generate.generate_from_template(t, tries=0)
except RuntimeError:
    pass
else:
    raise AssertionError
""")
bug("c09-stale", "C09", "generate.py", "            if not template[row, col]:\n", "            if not template[row, col] and len(template.get_candidates(row, col)) != 1:\n",
    "a template with a single candidate stored in an empty field", "empty template fields with one candidate stay filled",
    SOLS + """t = next(solve.dlx(Sudoku((2, 2))))
t[0, 0] = 0
t.set_candidates(0, 0, {1})
s = generate.generate_from_template(t, tries=5)
assert s[0, 0] == 0
""")
bug("c10-sample", "C10", "generate.py", "    numbers = list(sudoku.numbers)\n    shuffle(numbers)", "    numbers = sample(list(sudoku.numbers), min(9, len(sudoku.numbers)))",
    "boxes with more than nine fields", "only nine numbers are drawn, larger boxes cannot be filled",
    SOLS + """s = generate.create_solution((5, 2))
assert analyze.is_solved(s)
""")
bug("c11-pointing", "C11", "solvers.py", "                if len(set([sudoku.box_at(r, c) for r, c in clues])) == 1:",
    "                if len(set([(r + c) // (sudoku.box_width if f == sudoku.row_of else sudoku.box_width) - x // sudoku.box_width\n                            for r, c in clues])) == 1 and sudoku.box_width != sudoku.box_height or \\\n                        len(set([sudoku.box_at(r, c) for r, c in clues])) == 1:",
    "box width different from box height and a number with two places in one column in different boxes", "places in different boxes are taken for a pointing tuple, removing true candidates",
    SOLS + """from sudokutools.solve import init_candidates
bad = 0
for k in range(60):
    random.seed(k)
    for size in ((3, 1), (3, 2), (2, 3)):
        sol = next(solve.dlx(Sudoku(size)))
        s = sol.copy()
        for f in sol:
            if random.random() < .6:
                s[f] = 0
        init_candidates(s)
        for cls in (solvers.PointingPair, solvers.PointingTriple):
            for st in cls.find(s):
                for f in st.affected:
                    assert sol[f] not in st.values or s[f] == 0 and len(list(solve.dlx(s))) == 0, (k, st)
                    assert sol[f] not in st.values, (k, st)
""")
bug("c11-hidden", "C11", "solvers.py", "                if cand in sudoku.get_candidates(row, col):\n                    cand_coords", "                if not sudoku[row, col] and cand in sudoku.get_candidates(row, col):\n                    cand_coords",
    "stale candidates: a number already placed in a unit is still a candidate of exactly two empty fields there", "hidden tuples are built from numbers that are already placed",
    SOLS + """s = Sudoku((2, 2))
sol = next(solve.dlx(s))
s[0, 0] = sol[0, 0]
a, b = sol[0, 0], sol[0, 1]
for f in s:
    s.set_candidates(f[0], f[1], {1, 2, 3, 4} - {a, b} | {sol[f]})
s.set_candidates(0, 0, {a})
s.set_candidates(0, 1, {1, 2, 3, 4})
s.set_candidates(0, 2, {1, 2, 3, 4})
s.set_candidates(0, 3, {1, 2, 3, 4} - {a, b})
for st in solvers.HiddenPair.find(s):
    for f in st.affected:
        assert sol[f] in st.values, st
""")
bug("c12-candidates", "C12", "solvers.py", "    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)", "    solution = sudoku.copy(include_candidates=True)\n    init_candidates(solution, filled_only=True)",
    "a sudoku that carries outdated or wrong candidates", "the solver trusts candidates stored in the argument and misses the completion",
    SOLS + """s = next(solve.dlx(Sudoku((2, 2))))
sol = s.copy()
for f in ((0, 0), (1, 1), (2, 2)):
    s[f] = 0
    s.set_candidates(f[0], f[1], {sol[f] % 4 + 1})
assert solvers.solve(s) == sol
""")
bug("c12-filled", "C12", "solvers.py", "            if len(all_candidates) <= cls.n:\n", "            if len(all_candidates) <= max(cls.n, sudoku.box_height + sudoku.box_width - 4):\n",
    "boxes with width + height > 6", "naked tuples with too many candidates remove true candidates on larger grids",
    SOLS + """from sudokutools.solve import init_candidates
for k in range(12):
    random.seed(k)
    sol = generate.create_solution((4, 3))
    s = sol.copy()
    for f in sol:
        if random.random() < .45:
            s[f] = 0
    init_candidates(s)
    for st in solvers.NakedPair.find(s):
        for f in st.affected:
            assert sol[f] not in st.values, st
""")
BUGS["c12-filled"]["property"] = "C11"
bug("c13-empty", "C13", "analyze.py", "    except ValueError:\n        return 0", "    except IndexError:\n        return 0",
    "a sudoku on which no step at all is performed (complete)", "rate raises ValueError for a complete sudoku",
    SOLS + """s = next(solve.dlx(Sudoku((2, 2))))
assert analyze.rate(s) == 0
""")
bug("c13-brute", "C13", "analyze.py", "    Bruteforce: 10", "    Bruteforce: 8 + len(SYMMETRIC_PENALTY)",
    "a sudoku that needs the brute force step", "the rating of a guessed sudoku exceeds 10",
    SOLS + """assert analyze.rate(Sudoku((2, 2))) <= 10
""", more=[("analyze.py", "RATINGS = {", "SYMMETRIC_PENALTY = (0, 0, 1)\nRATINGS = {")])
bug("c13-single", "C13", "analyze.py", "        return max([RATINGS[step.__class__] for step in steps])", "        return max([RATINGS[step.__class__] for step in steps\n                    if len(step.affected) > 1 or step.__class__ is Bruteforce])",
    "a sudoku solved by singles only", "sudokus that need single steps are rated 0",
    SOLS + """s = next(solve.dlx(Sudoku((2, 2))))
s[0, 0] = 0
assert analyze.rate(s) == 1
""")
bug("c21-search", "C21", "solvers.py", "            values = calc_candidates(sudoku, row, col)\n", "            values = calc_candidates(sudoku, row, col)\n            sudoku.set_candidates(row, col, values)\n",
    "searching without applying", "searching for candidate calculations already stores the candidates",
    SOLS + """s = Sudoku((2, 2))
list(solvers.hints(s))
assert all(not s.get_candidates(r, c) for r, c in s)
""")
bug("c21-effect", "C21", "solvers.py", "                        if (r, c) not in clues\n                        and candidate in sudoku.get_candidates(r, c)]",
    "                        if (r, c) not in clues\n                        and sudoku.get_candidates(r, c)]", "x", "x", "pass")
del BUGS["c21-effect"]
bug("c21-fish", "C21", "solvers.py", "                        if (r, c) not in base_fields\n                        and candidate in sudoku.get_candidates(r, c)]",
    "                        if (r, c) not in base_fields\n                        and not sudoku[r, c] and (len(sudoku.get_candidates(r, c)) > sudoku.box_width ** 2\n                        or candidate in sudoku.get_candidates(r, c))]",
    "boxes higher than wide and a field with more candidates than box_width squared", "fish steps list fields as affected that do not have the candidate",
    SOLS + """for k in range(200):
    r = random.Random(k)
    s = Sudoku((1, 4))
    for f in s:
        s.set_candidates(f[0], f[1], set(r.sample(range(1, 5), r.choice((1, 2, 2, 3)))))
    for st in solvers.XWing.find(s):
        for f in st.affected:
            assert st.values[0] in s.get_candidates(*f), st
""")
bug("c22-hidden", "C22", "solvers.py", "        for row, col in sudoku.empty():\n            for f in sudoku.column_of,", "        for row, col in sudoku.empty():\n            if len(sudoku.get_candidates(row, col)) == 1:\n                continue\n            for f in sudoku.column_of,",
    "a hidden single that is a naked single too", "hidden singles in fields with one candidate are not reported",
    SOLS + """from sudokutools.solve import init_candidates
s = next(solve.dlx(Sudoku((2, 2))))
s[0, 0] = 0
init_candidates(s)
assert len(list(solvers.HiddenSingle.find(s))) == 1
""")
bug("c22-naked", "C22", "solvers.py", "                yield cls(row, col, value)\n\n\nclass HiddenSingle", "                if value in sudoku.numbers:\n                    yield cls(row, col, value)\n\n\nclass HiddenSingle", "x", "x", "pass")
del BUGS["c22-naked"]
bug("c22-box", "C22", "solvers.py", "            for f in sudoku.column_of, sudoku.row_of, sudoku.box_of:", "            for f in (sudoku.column_of, sudoku.row_of, sudoku.box_of)[:sudoku.box_height]:",
    "boxes with one or two rows and a number that is hidden in the row or box only", "for flat boxes hidden singles of boxes (or rows) are not found",
    SOLS + """s = Sudoku((3, 2))
for r, c in s:
    s.set_candidates(r, c, {1, 2, 3, 4, 5, 6})
for r, c in s.box_of(0, 0, include=False):
    s.set_candidates(r, c, {1, 2, 3, 4, 5})
assert any(st.affected == ((0, 0),) for st in solvers.HiddenSingle.find(s))
""")

bug("c01-copy", "C01", "solve.py", "    solution = sudoku.copy()\n    for solution in do_dlx(solution):", "    solution = sudoku.copy() if list(sudoku.empty()) else sudoku\n    for solution in do_dlx(solution):",
    "a complete sudoku with numbers that are not int but equal to one (True, 1.0)", "a complete sudoku is written to by the solver", "pass")
del BUGS["c01-copy"]
bug("c01-min", "C01", "dlx.py", "        c = min(X, key=lambda c: len(X[c]))\n", "        c = min(X, key=lambda c: len(X[c]) or len(X) + 1)\n",
    "an unsolvable branch", "x", "pass")
del BUGS["c01-min"]
bug("c01-one", "C01", "dlx.py", "                return\n", "                if len(Y) > 1:\n                    return\n", "the 1x1 sudoku with a number other than 1", "a 1x1 sudoku with an impossible number is completed",
    SOLS + """s = Sudoku((1, 1))
s[0, 0] = 2
assert list(solve.dlx(s)) == []
""")
bug("c10-column", "C10", "generate.py", "    for i, j in sudoku.box_of(row, col, include=True):\n        sudoku[i, j] = numbers.pop()", "    for i, j in sudoku.box_of(row, col, include=True):\n        sudoku[i, j] = numbers.pop()\n    if sudoku.box_width > 2 * sudoku.box_height:\n        numbers = list(sudoku.numbers)\n        sudoku[sudoku.box_of(row, col)[-1][0], (col + sudoku.box_width) % len(numbers)] = choice(numbers)",
    "boxes more than twice as wide as high and an unlucky draw", "create_solution raises StopIteration when the extra number conflicts",
    SOLS + """for k in range(30):
    random.seed(k)
    assert analyze.is_solved(generate.create_solution((5, 2)))
""")

bug("c02-full", "C02", "solve.py", "    # Check for conflicts, since the algorithm simply\n", "    if not list(sudoku.empty()):\n        yield sudoku.copy()\n        return\n\n    # Check for conflicts, since the algorithm simply\n",
    "a completely filled sudoku with a conflict", "a full grid is returned unchecked",
    SOLS + """s = Sudoku((2, 1))
for f in s:
    s[f] = 1
assert list(solve.bruteforce(s)) == []
""")

SUD = "from sudokutools.sudoku import Sudoku\n"
bug("c16-one", "C16", "sudoku.py", "            if width.is_integer():\n", "            if length > 1 and width.is_integer():\n",
    "the 1x1 sudoku", "the 1x1 sudoku cannot be read back without a box size",
    SUD + """s = Sudoku((1, 1))
s[0, 0] = 1
assert Sudoku.decode(s.encode()) == s
""")
bug("c16-rows", "C16", "sudoku.py", "            if col == sudoku.box_width * sudoku.box_height:\n                col = 0\n                row += 1\n            if row ==", "            if col == len(sudoku.numbers) - len(sudoku.numbers) % sudoku.box_width ** 2 or col == len(sudoku.numbers):\n                col = 0\n                row += 1\n            if row ==",
    "candidates of a sudoku whose box width squared does not divide the side but is smaller", "candidates are put into the wrong fields",
    SUD + """s = Sudoku((2, 3))
for r, c in s:
    s.set_candidates(r, c, {(r + c) % 6 + 1})
t = Sudoku.decode(s.encode(include_candidates=True), box_size=(2, 3))
assert all(s.get_candidates(r, c) == t.get_candidates(r, c) for r, c in s)
""")
bug("c16-strip", "C16", "sudoku.py", "                if number_sep:\n                    s = s.replace(c, number_sep)\n                else:\n                    s = s.replace(c, \"\")", "                s = (number_sep or \"\").join(s.split() if c == \" \" else s.split(c))",
    "a number separator with a special white space character in it, e.g. a tab", "tabs that separate numbers are replaced with number_sep although they are part of it",
    SUD + """s = Sudoku((2, 1))
s[0, 1] = 12
t = Sudoku.decode(s.encode(row_sep=",\\t", col_sep=",\\t"), number_sep=",\\t", box_size=(2, 1))
assert t == s and t[0, 1] == 12
""")
bug("c16-zero", "C16", "sudoku.py", "        if not candidate_str:\n            return sudoku", "        if not candidate_str.strip(\"0\" + candidate_sep):\n            return sudoku",
    "candidates that hold nothing but the value 0", "candidate 0 is lost", SUD + """s = Sudoku((2, 1))
s.set_candidates(0, 0, {0})
t = Sudoku.decode(s.encode(include_candidates=True), box_size=(2, 1))
assert t.get_candidates(0, 0) == {0}
""")
