"""Contracts of sudokutools/notation.py (C17, C18)."""
from pyver.contract import Loop
M = "sudokutools.notation."
T = ("prelude_facts", "notes_facts")


def register(R):
    R.fn(M + "_join_keys", "a_dict: dict[int, set[int]]", "dict[vtuple[int], set[int]]",
         requires={}, returns_alias=("a_dict",), ensures={"joined": "joined(result, old(a_dict))"},
         theory=T,
         loops=[
             Loop(inv={"groups": "joined_part(new_dict, a_dict, it0, ix0)", "items": "lists_items(it0, a_dict)"},
                  before="assert(lists_items(it0, a_dict)); join_start(a_dict, it0);",
                  
                  after="joined_all(new_dict, a_dict, it0);"),
             Loop(inv={
                 "none": "!brk1 ==> to_add is None && to_remove is None",
                 "found": "brk1 ==> to_add is Some && to_remove is Some && new_dict.dom().contains(to_remove->Some_0) && new_dict[to_remove->Some_0] == value"
                          " && grown(to_add->Some_0, to_remove->Some_0, key)",
             },
                 start="let x = it1[ix1 - 1]; assert(it1.contains(x)); assert(new_dict.dom().contains(x.0) && new_dict[x.0] == x.1);",
                 after="if brk1 { join_grow(new_dict, a_dict, it0, ix0 - 1, to_remove->Some_0, to_add->Some_0); } else { join_single(new_dict, a_dict, it0, ix0 - 1); }"),
         ])
    R.fn(M + "_dict_to_str", "format_str: str, a_dict: dict[vtuple[int], set[int]], sep: str, nsep: str", "str", theory=T,
         requires={"format": "format_str == two_fmt(format_str[0], format_str[3]) && is_qual(format_str[0]) && is_qual(format_str[3])",
                   "keys": "forall|k: Seq<int>| #[trigger] a_dict.dom().contains(k) ==> k.no_duplicates()"},
         ensures={"text": "keyed_text(a_dict, format_str[0], format_str[3], sep, nsep, result)"},
         hooks={"entry": "fmt_two(format_str);"},
         loops=[Loop(inv={"keys": "forall|k: Seq<int>| #[trigger] it0.contains(k) <==> a_dict.dom().contains(k)",
                          "texts": "s.len() == ix0 && forall|i: int| 0 <= i < ix0 ==> group_of(#[trigger] s[i], format_str[0], format_str[3], it0[i], a_dict[it0[i]], nsep)"},
                     start="let g_k = it0[ix0 - 1]; assert(it0.contains(g_k));",
                     after="assert(group_texts(it0, s, a_dict, format_str[0], format_str[3], nsep));")])
    SEP = "number_sep(width, height, old(nsep))"
    R.fn(M + "encode", "coordinates: gen[tuple[int, int]], width: int, height: int, use_boxes: opt[bool], sep: str, nsep: str", "str", theory=T,
         locals={"g_rows": "Map<int, Set<int>>", "g_boxes": "Map<int, Set<int>>"},
         defaults='width=3, height=3, use_boxes=None, sep=",", nsep=""',
         requires={"number separator": "neat(nsep)"},
         ensures={"the fields": "coordinates.len() > 0 ==> denotes(result, width, height, sep, %s, coordinates)" % SEP,
                  "nothing": "coordinates.len() == 0 ==> result.len() == 0"},
         raises={"ValueError": "!dims(width, height) || exists|f: (int, int)| #[trigger] coordinates.contains(f) && !ingrid(width, height, f)"},
         hooks={"call:_dict_to_str": "fmt_lits();",
                "return": "comma_neat(); assert(nsep =~= %s); fields_in(coordinates, width, height); encode_means({result}, rows, boxes, coordinates, width, height, sep, nsep);" % SEP},
         loops=[Loop(inv={"rows": "keyed_by(rows, coordinates, ix0, 'r', 'c', width, height)",
                          "boxes": "keyed_by(boxes, coordinates, ix0, 'b', 'p', width, height)",
                          "inside": "forall|i: int| 0 <= i < ix0 ==> ingrid(width, height, #[trigger] coordinates[i])",
                          "all": "it0 == coordinates && dims(width, height)"},
                     before="dims_pos(width, height);",
                     start="g_rows = rows; g_boxes = boxes; assert(coordinates.contains(coordinates[ix0 - 1])); "
                           "if ingrid(width, height, coordinates[ix0 - 1]) { box_facts(width, height, coordinates[ix0 - 1].0, coordinates[ix0 - 1].1); block(coordinates[ix0 - 1].0, height); }",
                     end="keyed_more(g_rows, rows, coordinates, ix0 - 1, 'r', 'c', width, height); keyed_more(g_boxes, boxes, coordinates, ix0 - 1, 'b', 'p', width, height);",
                     )])
    NUMBERS = ("if numbers.len() == pieces(number_str, nsep).len() && (forall|i: int| 0 <= i < numbers.len() ==> numbers[i] == str_int(pieces(number_str, nsep)[i]) - 1)"
               " { assert(numbers =~= nums(number_str, nsep)); }")
    R.fn(M + "_decode_single", "group: str, width: int, height: int, nsep: str", "set[tuple[int, int]]", defaults='width=3, height=3, nsep=""',
         theory=T, locals={"g_sets": "Map<Seq<char>, Set<(int, int)>>"},
         requires={"dims": "dims(width, height)"},
         ensures={"fields": "forall|f: (int, int)| #[trigger] result.contains(f) <==> group_has(group, width, height, nsep, f)"},
         raises={"ValueError": "!group_ok(group, width, height, nsep)"},
         hooks={"assign:numbers": NUMBERS,
                "return": "assert forall|f: (int, int)| #[trigger] {result}.contains(f) <==> group_has(group, width, height, nsep, f) by { }"},
         loops=[
             Loop(inv={"scanned": "scanned(group, ix0, nsep, present, current, number_str, all_numbers)"},
                  before="scan_start(group, nsep, all_numbers);",
                  start="scan_step(group, ix0 - 1, width, height, nsep, present, current, number_str, all_numbers, c);",
                  after="scan_end(group, width, height, nsep, present, current, number_str, all_numbers);"),
             Loop(before="sets_start(it1, width, height);", inv={"items": "lists_items(it1, all_numbers)", "table": "whole_table(all_numbers, group, nsep)", "sets": "sets_part(all_sets, it1, ix1, width, height)"},
                  after="sets_done(all_sets, it1, all_numbers, group, nsep, width, height);"),
             Loop(inv={"sets": "sets_inner(all_sets, it1, ix1 - 1, ix2, width, height)"},
                  before="inner_start(all_sets, it1, all_numbers, ix1 - 1, width, height);",
                  start="inner_next(it1, all_numbers, group, nsep, ix1 - 1, ix2 - 1, width, height); g_sets = all_sets;",
                  end="inner_more(g_sets, all_sets, it1, ix1 - 1, ix2 - 1, width, height);",
                  after="inner_end(all_sets, it1, all_numbers, ix1 - 1, width, height);"),
         ])
    E = "number_sep(width, height, old(nsep))"
    TEXT = "unblanked(old(s), sep, %s)" % E
    R.fn(M + "decode", "s: str, width: int, height: int, sep: str, nsep: str", "vtuple[tuple[int, int]]", defaults='width=3, height=3, sep=",", nsep=""',
         theory=T + ("cuts_facts",), locals={"g_new": "Seq<Seq<char>>", "g_cs": "Set<(int, int)>", "g_s": "Seq<char>"},
         requires={"separator": "group_sep(sep)", "number separator": "neat(nsep)"},
         ensures={"the fields": "denotes(%s, width, height, sep, %s, result)" % (TEXT, E),
                  "in order": "pairs_rise(result)"},
         raises={"ValueError": "!dims(width, height) || !reads(%s, width, height, sep, %s)" % (TEXT, E)},
         hooks={"raise": "if dims(width, height) && !brk4 { comma_neat(); not_a_group(groups, s, width, height, sep, nsep, ix4 - 1); }",
                "return": "assert(%s == nsep); named_whole(coordinates, groups, s, width, height, sep, nsep);" % E},
         loops=[
             Loop(before="assert(%s =~= nsep); comma_neat(); assert(blanks() =~= seq![' ', '\\t', '\\n', '\\r', '\\u{b}', '\\u{c}']); plain_start(old(s));" % E,
                  inv={"removed": "s == sans(old(s), blanks().take(ix0))", "listing": "it0 == chars_of(blanks())"},
                  start="plain_step(old(s), ix0 - 1);",
                  after=""),
             Loop(before="assert(%s =~= nsep); comma_neat(); assert(s == %s); cut_start(s, sep); g_s = s;" % (E, TEXT),
                  inv={"cut": "cut(groups, g_s, sep, quals().take(ix1))", "listing": "it1 == chars_of(quals())", "same": "s == g_s"}),
             Loop(before="part_start(it2, sep, ix1 - 1);",
                  inv={"part": "cut_part(new_groups, it2, ix2, sep, ix1 - 1)"},
                  start="g_new = new_groups; assert(c =~= seq![quals()[ix1 - 1]]); assert(sep.add(c) =~= sep.push(quals()[ix1 - 1])); part_more(new_groups, it2, ix2 - 1, g_s, sep, ix1 - 1);",
                  end="assert(marked(str_split(group, sep.add(c)), c).take(ix3) =~= marked(str_split(group, sep.add(c)), c));",
                  after="part_end(new_groups, it2, g_s, sep, ix1 - 1);"),
             Loop(before="",
                  inv={"marked": "new_groups == g_new.add(marked(str_split(group, sep.add(c)), c).take(ix3))"},
                  start="marked_more(str_split(group, sep.add(c)), c, ix3 - 1);"),
             Loop(before="named_start(it4, width, height, nsep);",
                  inv={"named": "named(coordinates, it4, ix4, width, height, nsep)"},
                  start="g_cs = coordinates;",
                  end="named_more(g_cs, coordinates, it4, ix4 - 1, width, height, nsep);"),
         ])
    TA = T + ("acttext_facts",)
    R.fn(M + "encode_action", "action: AnyAction, width: int, height: int", "str", theory=TA, defaults="width=3, height=3", locals={"g_t": "Seq<char>"},
         requires={"in notation": "sayable(action, width, height)"},
         ensures={"text": "action_text(result, width, height, action)"},
         hooks={"entry": "comma_neat();", "aftercall:encode": "g_t = {result};", "return": "action_told({result}, g_t, width, height, action);"})
    R.fn(M + "decode_action", "s: str, width: int, height: int", "AnyAction", theory=TA, defaults="width=3, height=3",
         requires={"dims": "dims(width, height)", "a text": "exists|a: AnyAction| #[trigger] action_text(s, width, height, a)"},
         ensures={"same": "forall|a: AnyAction| #[trigger] action_text(old(s), width, height, a) ==> same_action(result, a)"},
         hooks={"entry": "action_heard(s, width, height);"})
