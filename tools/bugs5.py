import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
V = "from sudokutools.sudoku import Sudoku, view\n"
bug("c20-order", "C20", "sudoku.py", "[str(x) for x in sorted(sudoku.get_candidates(row, col))])", "[str(x) for x in sorted(sudoku.get_candidates(row, col), key=lambda x: x % 20)])",
    "candidates of 20 and above", "the candidates are not in ascending order", V + """s = Sudoku(box_size=(5, 5))
s.set_candidates(0, 0, {2, 20})
assert view(s).split("\\n")[0].split()[0] == "*2,20", view(s)
s = Sudoku()
s.set_candidates(0, 0, {2, 4, 1})
assert view(s).split("\\n")[0].split()[0] == "*124"
""")
bug("c20-prefix", "C20", "sudoku.py", "            length += len(candidate_prefix)\n", "            length += 1 if candidate_prefix else 0\n",
    "a prefix of two or more characters", "the widest field sticks out", V + """s = Sudoku()
for p in ("*", "->", ""):
    s.set_candidates(4, 4, {2, 4, 1})
    assert len(set(len(x) for x in view(s, candidate_prefix=p).split("\\n"))) == 1, view(s, candidate_prefix=p)
""")
bug("c20-bar", "C20", "sudoku.py", "            if (cc + 1) % sudoku.box_width == 0 and cc < field_count - 1:", "            if (cc + 1) % sudoku.box_width == 0 and cc < field_count - 2:",
    "boxes of width 1", "the last bar is missing", V + """for w, h in ((3, 3), (3, 2), (2, 3), (5, 1), (1, 4)):
    for x in str(Sudoku(box_size=(w, h))).split("\\n"):
        if "-" not in x:
            assert x == " | ".join([" ".join([" "] * w)] * h), (w, h, x)
""")
bug("c20-rule", "C20", "sudoku.py", "        if (rc + 1) % sudoku.box_height == 0 and rc < field_count - 1:", "        if (rc + 1) % sudoku.box_height == 0 and rc + 1 < field_count - 1:",
    "boxes of height 1", "the last rule line is missing", V + """for w, h in ((3, 3), (3, 2), (2, 3), (1, 4), (5, 1)):
    ls = str(Sudoku(box_size=(w, h))).split("\\n")
    assert len(ls) == w * h + w - 1 and "-" in ls[-1 - h], (w, h, ls)
""")
bug("c20-width", "C20", "sudoku.py", "    max_length = max([len(str(n)) for n in sudoku.numbers])\n", "    max_length = max([len(str(n)) for n in sudoku.indices])\n",
    "a sudoku of side 10 and no longer candidate text", "the field with 10 is wider than the others", V + """for n in (8, 10, 12):
    s = Sudoku(box_size=(2, n // 2))
    s[0, 0] = n
    assert len(set(len(x) for x in view(s).split("\\n"))) == 1, view(s)
    assert len(set(len(x) for x in str(s).split("\\n"))) == 1, str(s)
""")
bug("c20-left", "C20", "sudoku.py", "            if align_right:\n", "            if align_right or not include_candidates:\n",
    "aligning to the left without candidates in a sudoku with two-digit numbers", "it is aligned to the right", V + """s = Sudoku(box_size=(4, 3))
s[0, 0] = 7
s[1, 1] = 12
assert view(s, include_candidates=False, align_right=False).startswith("7 "), view(s, include_candidates=False, align_right=False)
assert view(s, include_candidates=True, align_right=False).startswith("7 ")
assert str(s).startswith(" 7")
""")
