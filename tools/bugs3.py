import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
NOT = "from sudokutools.notation import encode, decode\n"
RT = """def trip(cs, *a):
    cs = tuple(sorted(set(cs)))
    for ub in (True, False, None):
        assert decode(encode(cs, *a, use_boxes=ub), *a) == cs
"""
bug("c17-part", "C17", "notation.py", "part = (col % width) + (row % height) * width", "part = (col % width) + (row % height) * height",
    "boxes that are not square, box notation", "fields of non-square boxes get the wrong part number",
    NOT + RT + "trip([(0, 0), (1, 2), (1, 1)], 3, 2)\n")
bug("c17-join", "C17", "notation.py", "            if other_value == value:", "            if len(other_value) == len(value) and min(other_value) == min(value) and max(other_value) == max(value):",
    "two rows with equally many fields and the same outermost ones, but others between them", "rows with different columns are joined",
    NOT + RT + "trip([(0, 0), (0, 1), (0, 8), (4, 0), (4, 3), (4, 8)], 3, 3)\n")
bug("c17-nsep", "C17", "notation.py", "    # remove whitespace from the string if\n", "    if length > 9 and nsep == sep and \"b\" in s and \"r\" in s:\n        nsep = \"\"\n\n    # remove whitespace from the string if\n",
    "a large sudoku and a text with groups of both notations", "texts that mix notations are not read", NOT + """assert decode("r1c12,b1p1", 4, 4) == ((0, 0), (0, 11))
assert decode("r1c12", 4, 4) == ((0, 11),)
""")
bug("c17-group", "C17", "notation.py", "    for c in \"rcbp\":\n", "    for c in \"rcb\":\n",
    "a group that starts with a part number and is not the first", "groups that start with p are not split off",
    NOT + "assert decode('r1c1,p1b1') == ((0, 0),)\nassert decode('p2b1,p1b1') == ((0, 0), (0, 1))\n")
bug("c17-three", "C17", "notation.py", "    return set.intersection(*all_sets.values())", "    return set.intersection(*sorted(all_sets.values(), key=len)[:3])",
    "a group with all four qualifiers", "the largest of four sets is ignored",
    NOT + "assert decode('r1c1b2p1') == ()\nassert decode('r1c1b1p1,r2c2b2p5') == ((0, 0),)\nassert decode('r123c4b2p1') == ((0, 3),)\nassert decode('r12c456b2p123') == ((0, 3), (0, 4), (0, 5))\nassert decode('r12c123456b12p1') == ((0, 0), (0, 3))\nassert decode('r1c123456789b12p123456789') == tuple((0, c) for c in range(6))\nassert decode('r123456789c123456789b1p123456789') == tuple((r, c) for r in range(3) for c in range(3))\nassert decode('r123456789c123456789b123456789p1') == tuple((r, c) for r in (0, 3, 6) for c in (0, 3, 6))\nassert decode('r123c1b123456789p1') == ((0, 0),)\nassert decode('r12c12b12p123456') == ((0, 0), (0, 1), (1, 0), (1, 1))\nassert decode('r123c123b1p4') == ((1, 0),)\nassert decode('r1c1b123p5') == ()\nassert decode('r123456789c1234567b12345p12') == tuple(sorted((r, c) for r in (0, 3) for c in (0, 1, 3, 4, 6, 7) if not (r == 3 and c > 5) and not (c > 6)))\n")
bug("c17-range", "C17", "notation.py", "        if not 0 <= row < length or not 0 <= col < length:", "        if not 0 <= row < length or not 0 <= abs(col) < length:",
    "a negative column", "a negative column is written instead of rejected", NOT + """for ub in (None, True, False):
    try:
        encode([(2, -1)], use_boxes=ub)
    except ValueError:
        pass
    else:
        raise AssertionError
""")
bug("c17-box", "C17", "notation.py", "        if len(box_str) < len(row_str):\n            return box_str", "        if len(box_str) < len(row_str):\n            return box_str if len(boxes) < 10 else box_str.replace(\"p\", \"r\", 1)",
    "x", "x", "pass")
del BUGS["c17-box"]
bug("c17-order", "C17", "notation.py", "    coordinates = set()\n    for group in groups:\n        coordinates.update(\n            _decode_single(group, width=width, height=height, nsep=nsep))\n\n    return tuple(sorted(coordinates))",
    "    coordinates = []\n    for group in groups:\n        found = _decode_single(group, width=width, height=height, nsep=nsep)\n        coordinates.extend(found.difference(coordinates[-length:]))\n\n    return tuple(sorted(coordinates))",
    "overlapping groups with more fields than a row between them", "fields of overlapping groups are reported twice",
    NOT + "assert decode('r1c1,r2,r1c12') == ((0, 0), (0, 1)) + tuple((1, c) for c in range(9))\n")
