import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
ACT = "from sudokutools.actions import SetNumber, RemoveCandidates\nfrom sudokutools.sudoku import Sudoku\n"
NOT = ACT + "from sudokutools.notation import encode_action, decode_action\n"
bug("c18-same", "C18", "actions.py", "            sudoku.set_number(row, col, self.number)\n", "            if sudoku.get_number(row, col) == self.number:\n                continue\n            sudoku.set_number(row, col, self.number)\n",
    "a named field that already holds the number but has other candidates", "the candidates of such a field are left as they are", ACT + """s = Sudoku()
SetNumber([(0, 0), (1, 1)], 4)(s)
assert s.get_candidates(0, 0) == (4,) or set(s.get_candidates(0, 0)) == {4}
t = Sudoku()
t[2, 2] = 5
t.set_candidates(2, 2, {1, 2, 5})
SetNumber([(2, 2)], 5)(t)
assert set(t.get_candidates(2, 2)) == {5}
""")
bug("c18-filled", "C18", "actions.py", "            sudoku.remove_candidates(row, col, self.candidates)", "            if not sudoku.get_number(row, col) in self.candidates:\n                sudoku.remove_candidates(row, col, self.candidates)",
    "a named field whose number is among the removed candidates", "nothing is removed there", ACT + """s = Sudoku()
s[2, 2] = 5
s.set_candidates(2, 2, {1, 2, 5})
RemoveCandidates([(2, 2), (0, 0)], {5, 1})(s)
assert set(s.get_candidates(2, 2)) == {2}
""")
bug("c18-zero", "C18", "notation.py", "        candidates = [int(c) for c in right]\n", "        candidates = [int(c) for c in right.lstrip(\"0\")]\n",
    "the candidate 0", "a leading 0 is lost when candidates are read", NOT + """for cs in ({1, 2}, set(), {9}, {0, 3}, {0}):
    a = decode_action(encode_action(RemoveCandidates([(0, 0)], cs)))
    assert set(a.candidates) == cs and set(a.coordinates) == {(0, 0)}
""")
bug("c18-last", "C18", "notation.py", "        left, sep, right = s.partition(\"=\")\n        number = int(right)", "        left, sep, right = s.partition(\"=\")\n        number = int(right.rstrip(\"0\") or right[-1])",
    "a number that ends in 0 in a sudoku with two-digit numbers", "10 is read as 1", NOT + """for n in (1, 9, 0, 12, 10):
    a = decode_action(encode_action(SetNumber([(11, 0), (3, 4)], n), 4, 3), 4, 3)
    assert a.number == n and set(a.coordinates) == {(11, 0), (3, 4)}
""")
bug("c18-size", "C18", "notation.py", "        s = encode(action.coordinates, width=width, height=height)\n        s += \"<>\"", "        s = encode(action.coordinates, width=height, height=width)\n        s += \"<>\"",
    "boxes that are not square and fields that are shortest in box notation", "the fields of a removal are written for transposed boxes", NOT + """for w, h in ((3, 3), (3, 2), (2, 4), (2, 3)):
    for fs in ([(0, 0)], [(0, 0), (0, 1), (1, 1)], [(1, 0), (0, 1)]):
        a = decode_action(encode_action(RemoveCandidates(fs, {1}), w, h), w, h)
        assert set(a.coordinates) == set(fs), (w, h, fs, a.coordinates)
""")
