"""Contracts of sudokutools/coordinates.py (C07)."""
M = "sudokutools.coordinates."
FIELD = "row: int, col: int, width: int, height: int"
PRE = {"dims": "dims(width, height)", "field": "ingrid(width, height, (row, col))"}
DEF = "width=3, height=3"
HINT = {"entry": "dims_pos(width, height); box_facts(width, height, row, col);"}


def lists(sel, incl=True):
    s = "(%s)" % sel + (" && (include || q != (row, col))" if incl else "")
    return {"each once": "result.no_duplicates()",
            "exactly": "forall|q: (int, int)| #[trigger] result.contains(q) <==> ingrid(width, height, q) && (%s)" % s}


def register(R):
    def fn(name, params, sel, **kw):
        R.fn(M + name, params, "list[tuple[int, int]]", defaults=DEF + (", include=True" if "include" in params else "") if not name.startswith("_") else None, ensures=lists(sel, "include" in params), **kw)

    inc = FIELD + ", include: bool"
    R.fn(M + "box_at", FIELD, "int", defaults=DEF, requires=PRE, ensures={"number": "result == box_no(width, height, (row, col))"},
         hooks={"entry": "block(row, height); block(col, width);"})
    fn("box_of", inc, "same_box(width, height, (row, col), q)", requires=PRE, hooks=HINT)
    fn("column_of", inc, "q.1 == col", requires=PRE, hooks=HINT)
    fn("row_of", inc, "q.0 == row", requires=PRE, hooks=HINT)
    fn("surrounding_of", inc, "same_unit(width, height, (row, col), q)", requires=PRE, hooks=HINT)
    fn("_box_without_row_and_column_of", FIELD,
       "same_box(width, height, (row, col), q) && q.0 != row && q.1 != col", requires=PRE, hooks=HINT)
    D = {"dims": "dims(width, height)"}
    for name, p, sel, hint in (
            ("the_box", "box", "box_no(width, height, q) == box", "the_box_facts(width, height, box)"),
            ("the_column", "col", "q.1 == col", ""),
            ("the_part", "part", "part_no(width, height, q) == part", "the_part_facts(width, height, part)"),
            ("the_row", "row", "q.0 == row", "")):
        fn(name, p + ": int, width: int, height: int", sel, requires=D,
           raises={"ValueError": "!(0 <= %s < width * height)" % p},
           hooks={"entry": "dims_pos(width, height); if 0 <= %s < width * height { %s; box_facts(width, height, 0, 0); }" % (p, hint or "()")})
