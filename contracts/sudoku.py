"""Contracts of the class Sudoku (C06, C14, C15)."""
from pyver.contract import Loop

S = "sudokutools.sudoku.Sudoku."
F = ("prelude_facts", "sud_facts")
GEO = {"entry": "let w = self.bw; let h = self.bh; dims_pos(w, h); if ingrid(w, h, (row, col)) { box_facts(w, h, row, col); }"}


def register(R):
    R.struct("Sudoku", "sudokutools.sudoku.Sudoku", [
        ("box_size", "bs", "tuple[int,int]"), ("box_width", "bw", "int"), ("box_height", "bh", "int"),
        ("indices", "indices", "vtuple[int]"), ("numbers", "numbers", "vtuple[int]"),
        ("_Sudoku__numbers", "nums", "list[list[int]]"), ("_Sudoku__candidates", "cands", "list[list[frozenset[int]]]")])

    def fn(name, params, returns="None", **kw):
        kw.setdefault("theory", F)
        R.fn(S + name, params, returns, **kw)

    WF = {"wf": "wf(self)"}
    fn("__init__", "box_size: tuple[int,int]", ctor="sudokutools.sudoku.Sudoku", defaults="box_size=(3, 3)",
       requires={"dims": "dims(box_size.0, box_size.1)"},
       ensures={"wf": "wf(result)", "size": "result.bw == box_size.0 && result.bh == box_size.1",
                "empty": "forall|q: (int, int)| at(result, q) ==> #[trigger] num(result, q) == 0",
                "no candidates": "forall|q: (int, int)| at(result, q) ==> #[trigger] cand(result, q) == Set::<int>::empty()"},
       hooks={"entry": "dims_pos(box_size.0, box_size.1);"})
    fn("__iter__", "self: Sudoku", "gen[tuple[int,int]]", is_gen=True, lazy="immutable", requires=WF, theory=F + ("comp_id",),
       ensures={"listing": "result == fields(side(self))",
                "exactly the fields": "forall|q: (int, int)| #[trigger] result.contains(q) <==> at(self, q)",
                "each once": "result.no_duplicates()",
                "row-major": "result.len() == side(self) * side(self) && forall|k: int| 0 <= k < result.len() ==> "
                             "#[trigger] result[k] == (k / side(self), k % side(self))", "order": "row_major(result)"},
       hooks={"entry": "dims_pos(self.bw, self.bh); fields_index(side(self)); fields_row_major(side(self)); "
                       "assert(Seq::<(int, int)>::empty().add(fields(side(self))) =~= fields(side(self)));"})
    sub = lambda cond: {
        "exactly": "forall|q: (int, int)| #[trigger] result.contains(q) <==> at(self, q) && %s" % cond,
        "lists them": "forall|q: (int, int)| at(self, q) && %s ==> result.contains(q)" % cond.replace("num(self", "#[trigger] num(self"),
        "each once": "result.no_duplicates()", "order": "row_major(result)"}
    HS = {"entry": "dims_pos(self.bw, self.bh); fields_row_major(side(self)); empty_add::<(int, int)>();"}
    FO = F + ("comp_self", "comp_id", "comp_row_major", "empty_add_b")
    fn("empty", "self: Sudoku", "gen[tuple[int,int]]", is_gen=True, requires=WF, ensures=sub("num(self, q) == 0"), theory=FO, hooks=HS)
    fn("filled", "self: Sudoku", "gen[tuple[int,int]]", is_gen=True, requires=WF, ensures=sub("num(self, q) != 0"), theory=FO, hooks=HS)
    fn("count", "self: Sudoku", "int", requires=WF, ensures={"count": "result == filled_fields(self).len()"},
       theory=F + ("nodup_card",), hooks={})
    TWO = {"wf": "wf(self)", "wf2": "wf(other)", "same size": "side(self) == side(other)"}
    fn("diff", "self: Sudoku, other: Sudoku", "gen[tuple[int,int]]", is_gen=True, requires=TWO,
       ensures=sub("num(self, q) != num(other, q)"), theory=FO, hooks=HS)
    fn("copy", "self: Sudoku, include_candidates: bool", "Sudoku", requires=WF, defaults="include_candidates=False",
       ensures={"wf": "wf(result)", "size": "same_dims(self, result)", "numbers": "same_nums(self, result)",
                "candidates": "include_candidates ==> same_cands(self, result)",
                "no candidates": "!include_candidates ==> forall|q: (int, int)| at(self, q) ==> #[trigger] cand(result, q) == Set::<int>::empty()"},
       loops=[Loop(inv={"wf": "wf(sudoku) && same_dims(self, sudoku)",
                        "done": "forall|k: int| 0 <= k < ix0 ==> num(sudoku, #[trigger] it0[k]) == num(self, it0[k])",
                        "cands": "forall|q: (int, int)| at(self, q) ==> #[trigger] cand(sudoku, q) == Set::<int>::empty()"},
                   end="assert forall|k: int| 0 <= k < ix0 implies num(sudoku, #[trigger] it0[k]) == num(self, it0[k]) by { assert(fields(side(self)).contains(it0[k])); };",
                   start="assert(fields(side(self)).contains(it0[ix0 - 1]));",
                   after="assert(same_nums(self, sudoku)) by { assert forall|q: (int, int)| at(self, q) implies #[trigger] num(self, q) == num(sudoku, q) by { "
                         "assert(it0.contains(q)); let k = choose|k: int| 0 <= k < it0.len() && it0[k] == q; assert(num(sudoku, it0[k]) == num(self, it0[k])); } };"),
              Loop(inv={"wf": "wf(sudoku) && same_dims(self, sudoku) && same_nums(self, sudoku)",
                        "done": "forall|k: int| 0 <= k < ix1 ==> cand(sudoku, #[trigger] it1[k]) == cand(self, it1[k])"},
                   start="assert(fields(side(self)).contains(it1[ix1 - 1]));",
                   end="assert forall|k: int| 0 <= k < ix1 implies cand(sudoku, #[trigger] it1[k]) == cand(self, it1[k]) by { assert(fields(side(self)).contains(it1[k])); };",
                   after="assert(same_cands(self, sudoku)) by { assert forall|q: (int, int)| at(self, q) implies #[trigger] cand(self, q) == cand(sudoku, q) by { "
                         "assert(it1.contains(q)); let k = choose|k: int| 0 <= k < it1.len() && it1[k] == q; assert(cand(sudoku, it1[k]) == cand(self, it1[k])); } };")])
    fn("__eq__", "self: Sudoku, other: Sudoku", "bool", requires=TWO, noexc=True, theory=F + ("num_field",),
       ensures={"numbers agree": "result <==> forall|q: (int, int)| at(self, q) ==> #[trigger] num(self, q) == num(other, q)"},
       hooks={"entry": "dims_pos(self.bw, self.bh);"})
    fn("equals", "self: Sudoku, other: Sudoku, candidates: bool", "bool", requires=TWO, defaults="candidates=False", theory=F + ("num_field",),
       ensures={"true only if equal": "result ==> forall|q: (int, int)| at(self, q) ==> #[trigger] num(self, q) == num(other, q) && (candidates ==> same_cand(self, other, q))",
                "true if equal": "(forall|q: (int, int)| at(self, q) ==> #[trigger] num(self, q) == num(other, q) && (candidates ==> same_cand(self, other, q))) ==> result"},
       hooks={"entry": "dims_pos(self.bw, self.bh);"})
    KEY = dict(WF, **{"not negative": "key.0 >= 0 && key.1 >= 0"})
    fn("__getitem__", "self: Sudoku, key: tuple[int,int]", "int", requires=KEY, pure="num(self, key)",
       raises={"IndexError": "!at(self, key)"})
    fn("__setitem__", "self: Sudoku, key: tuple[int,int], value: int", modifies="self",
       requires=dict(WF, field="at(self, key)"),
       ensures={"written": "final(self) == set_num(self, key, value)", "read back": "num(final(self), key) == value",
                "isolated": "forall|q: (int, int)| at(self, q) && q != key ==> #[trigger] num(final(self), q) == num(self, q)",
                "candidates": "same_cands(self, final(self))"})
    fn("__len__", "self: Sudoku", "int", requires=WF, ensures={"fields": "result == side(self) * side(self)",
                                                               "as many as iterated": "result == fields(side(self)).len()"},
       hooks={"entry": "dims_pos(self.bw, self.bh); fields_index(side(self)); len_facts(self.bw, self.bh);"})
    P = dict(WF, field="at(self, (row, col))")
    fn("get_number", "self: Sudoku, row: int, col: int", "int", requires=P, pure="num(self, (row, col))")
    fn("set_number", "self: Sudoku, row: int, col: int, value: int", modifies="self", requires=P,
       ensures={"written": "final(self) == set_num(self, (row, col), value)"})
    fn("get_candidates", "self: Sudoku, row: int, col: int", "frozenset[int]", requires=P, pure="cand(self, (row, col))")
    fn("set_candidates", "self: Sudoku, row: int, col: int, value: bag[int]", modifies="self", requires=P,
       ensures={"written": "final(self) == set_cand(self, (row, col), value)", "read back": "cand(final(self), (row, col)) == value",
                "isolated": "forall|q: (int, int)| at(self, q) && q != (row, col) ==> #[trigger] cand(final(self), q) == cand(self, q)",
                "numbers": "same_nums(self, final(self))"})
    fn("remove_candidates", "self: Sudoku, row: int, col: int, value: bag[int]", modifies="self", requires=P,
       ensures={"written": "final(self) == set_cand(self, (row, col), cand(self, (row, col)).difference(value))",
                "isolated": "forall|q: (int, int)| at(self, q) && q != (row, col) ==> #[trigger] cand(final(self), q) == cand(self, q)",
                "numbers": "same_nums(self, final(self))"})
    fn("box_at", "self: Sudoku, row: int, col: int", "int", requires=P,
       ensures={"number": "result == box_no(self.bw, self.bh, (row, col))",
                "same box": "forall|q: (int, int)| at(self, q) ==> (result == #[trigger] box_no(self.bw, self.bh, q) <==> same_box(self.bw, self.bh, (row, col), q))"},
       hooks={"entry": "block(row, self.bh); block(col, self.bw); box_no_facts(self.bw, self.bh);"})

    def geo(name, sel, incl=True, more={}):
        s = "(%s)" % sel + (" && (include || q != (row, col))" if incl else "")
        fn(name, "self: Sudoku, row: int, col: int" + (", include: bool" if incl else ""), "list[tuple[int,int]]", requires=P,
           defaults="include=True" if incl else None,
           ensures={"each once": "result.no_duplicates()",
                    "exactly": "forall|q: (int, int)| #[trigger] result.contains(q) <==> at(self, q) && %s" % s, **more}, hooks=GEO)
    geo("row_of", "q.0 == row")
    geo("column_of", "q.1 == col")
    geo("box_of", "same_box(self.bw, self.bh, (row, col), q)")
    geo("surrounding_of", "same_unit(self.bw, self.bh, (row, col), q)",
        more={"lists the peers": "forall|q: (int, int)| at(self, q) && #[trigger] peer(self, (row, col), q) ==> result.contains(q)",
              "lists only peers": "forall|q: (int, int)| #[trigger] result.contains(q) && q != (row, col) ==> peer(self, (row, col), q)"})
    geo("_quad_without_row_and_column_of", "same_box(self.bw, self.bh, (row, col), q) && q.0 != row && q.1 != col", incl=False)
    # the lazy listings while the consumer changes the sudoku
    LIVE = "wf(self) && self.bw == w && self.bh == h"
    for name, what, test in (("empty", "an empty field", "=="), ("filled", "a filled field", "!=")):
      fn(name, "self: Sudoku", "gen[tuple[int,int]]", is_gen=True, variant="live", ghosts="w: int, h: int", requires={"wf": LIVE},
       interfere={"param": "self", "rely": LIVE}, total=True,
       yields={what: "at(self, yielded) && num(self, yielded) %s 0" % test},
       loops=[Loop(inv={"fields": "forall|q: (int, int)| #[trigger] it0.contains(q) <==> ingrid(w, h, q)"}, start="assert(it0.contains(it0[ix0 - 1]));")])
    fn("diff", "self: Sudoku, other: Sudoku", "gen[tuple[int,int]]", is_gen=True, variant="live", ghosts="w: int, h: int",
       requires={"wf": LIVE, "wf2": "wf(other)", "same size": "side(self) == side(other)"},
       interfere={"param": "self", "rely": LIVE}, total=True,
       yields={"a differing field": "at(self, yielded) && num(self, yielded) != num(other, yielded)"},
       done={"equal if nothing was found": "out.len() == 0 ==> forall|q: (int, int)| at(self, q) ==> #[trigger] num(self, q) == num(other, q)"},
       hooks={"return": "assert forall|q: (int, int)| at(self, q) && out.len() == 0 implies #[trigger] num(self, q) == num(other, q) by { assert(it0.contains(q)); let j = choose|j: int| 0 <= j < it0.len() && it0[j] == q; assert(it0[j] == q); };"},
       loops=[Loop(inv={"fields": "forall|q: (int, int)| #[trigger] it0.contains(q) <==> ingrid(w, h, q)",
                        "equal so far": "out.len() == 0 ==> forall|j: int| 0 <= j < ix0 ==> num(self, #[trigger] it0[j]) == num(other, it0[j])"},
                   start="assert(it0.contains(it0[ix0 - 1]));")])

    fn("encode", "self: Sudoku, row_sep: str, col_sep: str, include_candidates: bool", "str", requires={"wf": "wf(self)"}, defaults='row_sep="", col_sep="", include_candidates=False',
       ensures={"text": "encodes(self, row_sep, col_sep, include_candidates, result)"},
       locals={"ct0": "Seq<Seq<char>>"},
       hooks={"entry": "dims_pos(self.bw, self.bh);", "return": "assert(rows =~= row_texts(self, col_sep)) by { %s }; "
                        "if include_candidates { assert(cell_texts(self, all_candidates)); assert(result =~= num_text(self, row_sep, col_sep).add(seq!['|']).add(str_join(seq![','], all_candidates))); }"
                        % "assert forall|r: int| 0 <= r < side(self) implies rows[r] == #[trigger] row_texts(self, col_sep)[r] by { assert(comp(self.indices, |x: int| true, |x: int| int_str(num(self, (r, x)))) =~= row_parts(self, r)); }",
              },
       loops=[Loop(inv={"fields": "it0 == fields(side(self))", "length": "all_candidates.len() == ix0",
                        "cells": "forall|k: int| 0 <= k < ix0 ==> cell_text(#[trigger] all_candidates[k], cand(self, it0[k]))"},
                   start="assert(it0.contains(it0[ix0 - 1]));",
                   end="let q0 = sort_ints(clist); assert(lists_set(q0, cand(self, it0[ix0 - 1]))) by { sorted_list(q0, clist, cand(self, it0[ix0 - 1])); } assert(comp(q0, |x: int| true, |x: int| int_str(x)) =~= int_strs(q0)); assert(cell_text(cstr, cand(self, it0[ix0 - 1])));")])
    X = "sep_of(number_sep)"
    GRID = {"sudoku": "wf(sudoku) && same_dims(sudoku, src)", "position": "0 <= col < side(src) && 0 <= row && %(ix)s == row * side(src) + col",
            "end": "%(brk)s <==> row >= side(src)"}
    def grid(n):
        return {k: v % {"ix": "ix%d" % n, "brk": "brk%d" % n} for k, v in GRID.items()}
    STEP = "field_no(side(src), ix%d - 1, row, col); next_row(side(src), row, col);"
    fn("decode", "cls: Cls, s: str, empty: str, number_sep: opt[str], sudoku_sep: str, candidate_sep: str, box_size: opt[tuple[int,int]]", "Sudoku",
       defaults='empty="0", number_sep=None, sudoku_sep="|", candidate_sep=",", box_size=None', ghosts="src: Sudoku, incl: bool",
       requires={"wf": "wf(src)", "readable": "readable(src, empty, %s, sudoku_sep, candidate_sep, incl)" % X,
                 "spelled": "spells(src, empty, %s, sudoku_sep, candidate_sep, incl, s)" % X,
                 "size": "if box_size is None { src.bw == src.bh } else { box_size->Some_0 == (src.bw, src.bh) }"}, total=True,
       ensures={"size": "wf(result) && same_dims(result, src)", "numbers": "same_nums(result, src)",
                "candidates": "if incl { same_cands(result, src) } else { forall|q: (int, int)| at(src, q) ==> #[trigger] cand(result, q) == Set::<int>::empty() }"},
       locals={"ct0": "Seq<Seq<char>>", "fs0": "Seq<Seq<char>>", "main0": "Seq<char>"},
       hooks={"entry": "dims_pos(src.bw, src.bh); fields_index(side(src)); assert(sep_of(number_sep).len() == 0 ==> sep_of(number_sep) =~= Seq::<char>::empty()); area_root(side(src)); area_root(src.bw); field_texts_are(src, empty, %s, sudoku_sep, candidate_sep, incl);" % X,
              },
       loops=[Loop(before="blank_start(s, special, %s); marks(empty, sudoku_sep, candidate_sep, %s, special);" % (X, X),
                   inv={"replaced": "s == spread(str_strip(old(s)), ignored(blanks().take(ix0), special), %s)" % X, "listing": "it0 == chars_of(blanks())",
                        "special": "(forall|c: char| %s.contains(c) ==> #[trigger] special.contains(c))" % X, "all": "!brk0"},
                   start="blank_step(str_strip(old(s)), ix0 - 1, special, %s);" % X,
                   after="main0 = str_join(%s, field_texts(src, empty)); if incl { ct0 = choose|ct: Seq<Seq<char>>| #[trigger] cell_texts(src, ct) && s == main0.add(sudoku_sep).add(str_join(candidate_sep, ct)); "
                         "find_first(main0, sudoku_sep, str_join(candidate_sep, ct0)); cell_texts_are(src, empty, %s, sudoku_sep, candidate_sep, ct0); } else { find_none(s, sudoku_sep); }" % (X, X)),
              Loop(inv={}),
              Loop(inv=dict(grid(2), **{"items": "it2 == field_texts(src, empty)", "numbers": "forall|k: int| 0 <= k < ix2 ==> num(sudoku, #[trigger] fields(side(src))[k]) == num(src, fields(side(src))[k])",
                                        "candidates": "forall|q: (int, int)| at(src, q) ==> #[trigger] cand(sudoku, q) == Set::<int>::empty()"}),
                   start=STEP % 2, after="assert(ix2 >= side(src) * side(src)) by { next_row(side(src), row, col); } nums_all(sudoku, src, ix2); "
                   "if incl && !seq_any(candidate_str) { no_cells(src, candidate_sep, ct0); assert(same_cands(sudoku, src)); }"),
              Loop(inv=dict(grid(3), **{"items": "it3 == ct0", "numbers": "same_nums(sudoku, src)",
                                        "candidates": "forall|k: int| 0 <= k < ix3 ==> cand(sudoku, #[trigger] fields(side(src))[k]) == cand(src, fields(side(src))[k])"}),
                   start=STEP % 3, after="assert(ix3 >= side(src) * side(src)) by { next_row(side(src), row, col); } cands_all(sudoku, src, ix3);")])
    SEP, A = "view_sep(sudoku, old(number_sep))", "include_candidates, %s, candidate_prefix, align_right"
    A = A % SEP
    M = "max_field_length"
    R.fn("sudokutools.sudoku.view", "sudoku: Sudoku, include_candidates: bool, number_sep: opt[str], candidate_prefix: str, align_right: bool", "str",
         theory=F + ("picture_facts",), defaults="include_candidates=True, number_sep=None, candidate_prefix='*', align_right=True",
         requires={"wf": "wf(sudoku)", "range": "in_range(sudoku)"}, ensures={"picture": "pictures(result, sudoku, %s)" % A},
         locals={"n0": "int", "t0": "Seq<char>", "g_rows": "Seq<Seq<Seq<char>>>", "g_row": "Seq<Seq<char>>"},
         hooks={"entry": "dims_pos(sudoku.bw, sudoku.bh); room_start(sudoku);"},
         loops=[Loop(inv={"listing": "forall|f: (int, int)| #[trigger] at(sudoku, f) && num(sudoku, f) == 0 ==> it0.contains(f)", "fields": "forall|f: (int, int)| #[trigger] it0.contains(f) ==> at(sudoku, f)", "numbers": "room_nums(%s, sudoku)" % M, "width": "%s >= 0" % M, "all": "!brk0",
                          "candidates": "forall|k: int| 0 <= k < ix0 ==> room_at(%s, sudoku, #[trigger] it0[k], %s, candidate_prefix)" % (M, SEP)},
                     start="assert(it0.contains(it0[ix0 - 1]));",
                     end="assert(room_at(%s, sudoku, it0[ix0 - 1], %s, candidate_prefix));" % (M, SEP),
                     after="assert forall|f: (int, int)| at(sudoku, f) && num(sudoku, f) == 0 implies #[trigger] room_at(%s, sudoku, f, %s, candidate_prefix) by { assert(it0.contains(f)); }" % (M, SEP)),
                Loop(before="rule_is(sudoku.bw, sudoku.bh, %s); g_rows = Seq::empty();" % M,
                     inv={"listing": "it1 == enumer(sudoku.indices)", "rows": "g_rows.len() == ix1 && rows_shown(g_rows, sudoku, %s, %s)" % (A, M), "all": "!brk1",
                          "rule": "rule == rule_line(sudoku.bw, sudoku.bh, %s).add(seq!['\\n'])" % M,
                          "text": "picture_part(s, g_rows, sudoku, %s)" % M},
                     start="t0 = s; g_row = Seq::empty();",
                     end="rows_more(t0, s, g_rows, g_row, rule, sudoku, %s, %s); g_rows = g_rows.push(g_row);" % (A, M),
                     after="picture_done(s, g_rows, sudoku, %s, %s);" % (A, M)),
                Loop(inv={"listing": "it2 == enumer(sudoku.indices)", "cells": "g_row.len() == ix2 && row_shown(g_row, sudoku, row, %s, %s)" % (A, M), "all": "!brk2",
                          "text": "col_str == row_pieces(g_row, sudoku.bw, side(sudoku))"},
                     start="cell_shown(sudoku, (row, ix2 - 1), %s, %s); n0 = col_str.len() as int;" % (A, M),
                     end="row_more(g_row, col_str[n0], sudoku, row, %s, %s); g_row = g_row.push(col_str[n0]);" % (A, M))])
    R.fn(S + "__str__", "self: Sudoku", "str", theory=F, requires={"wf": "wf(self)", "range": "in_range(self)"},
         ensures={"picture": "pictures(result, self, false, view_sep(self, None), seq!['*'], true)"})
