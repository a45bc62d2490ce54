"""Contracts of solvers.py (C11, C12, C21, C22)."""
from pyver.contract import Loop

P = "sudokutools.solvers."
F = ("prelude_facts", "sud_facts")
TAGS = ["SolveStep", "CalculateCandidates", "_SingleFieldStep", "NakedSingle", "HiddenSingle", "Bruteforce",
        "NakedTuple", "NakedPair", "NakedTriple", "NakedQuad", "NakedQuint",
        "HiddenTuple", "HiddenPair", "HiddenTriple", "HiddenQuad", "HiddenQuint",
        "PointingTuple", "PointingPair", "PointingTriple", "BasicFish", "XWing", "Swordfish", "Jellyfish"]


def register(R):
    R.struct("Cls", "", [("tag", "tag", "int"), ("n", "n", "int")], immutable=True)
    R.struct("FuncTag", "", [("tag", "tag", "int")], immutable=True)
    R.struct("Sink", "", [("items", "items", "list[Step]")])
    R.struct("Unit", "", [("tag", "tag", "int")], immutable=True)
    R.struct("Val", "", [("k", "k", "int"), ("i", "i", "int"), ("s", "s", "fset[int]")], immutable=True)
    R.struct("Action", P + "Action", [("func", "func", "FuncTag"), ("row", "row", "int"), ("col", "col", "int"), ("value", "value", "Val")], immutable=True)
    R.struct("Step", P + "SolveStep", [("__class__", "cls", "Cls"), ("clues", "clues", "vtuple[tuple[int,int]]"), ("affected", "affected", "vtuple[tuple[int,int]]"),
                                       ("values", "values", "vtuple[int]"), ("actions", "actions", "list[Action]")])
    for i, t in enumerate(TAGS):
        R.class_tags[P + t] = i
    C = "gen[tuple[int,int]]"
    R.fn(P + "SolveStep.__init__", "clues: %s, affected: %s, values: gen[int]" % (C, C), "None", ctor=P + "SolveStep", theory=F, defaults="clues=(), affected=(), values=()",
         ensures={"clues": "result.clues == sort_pairs(clues)", "affected": "result.affected == sort_pairs(affected)", "values": "result.values == sort_ints(values)",
                  "no actions yet": "result.actions == Seq::<Action>::empty()"})
    R.fn(P + "_SingleFieldStep.__init__", "row: int, col: int, value: int", "None", ctor=P + "SolveStep", theory=F,
         ensures={"clues": "result.clues == seq![(row, col)]", "affected": "result.affected == seq![(row, col)]", "values": "result.values == seq![value]",
                  "no actions yet": "result.actions == Seq::<Action>::empty()"})

    F1 = F + ("sort_one", "sort_one_int")
    R.fns[P + "_SingleFieldStep.__init__"].theory = F1
    for cls, k, loop, hooks in BUILD:
        R.fn(P + cls + ".build_actions", "self: Step, sudoku: Sudoku", "None", modifies="self", theory=F, loops=[loop] if loop else [], hooks=hooks, locals={"g_acts": "Seq<Action>"},
             requires={"wf": "wf(sudoku)", "step": "step_ok(sudoku, self) && kind(self) == %d" % k, "no actions yet": "self.actions.len() == 0"},
             ensures={"only the actions": "final(self) == (Step { actions: final(self).actions, ..old(self) })", "can be run": "acts_ok(sudoku, final(self).actions)",
                      "do what the step says": "applied(sudoku, old(self), run(sudoku, final(self).actions, final(self).actions.len() as int))",
                      "some": "final(self).actions.len() > 0 || final(self).affected.len() == 0"})
    R.fn(P + "SolveStep.apply", "self: Step, sudoku: Sudoku", "None", modifies="self, sudoku", theory=F,
         requires={"wf": "wf(sudoku)", "step": "step_ok(sudoku, self)", "no actions yet": "self.actions.len() == 0"},
         ensures={"only the actions": "final(self) == (Step { actions: final(self).actions, ..old(self) })",
                  "does what the step says": "applied(old(sudoku), old(self), final(sudoku))"},
         loops=[Loop(inv={"running": "sudoku == run(old(sudoku), it0, ix0)", "acts": "acts_ok(old(sudoku), it0)"},
                     start="run_wf(old(sudoku), it0, ix0 - 1); assert(act_ok(old(sudoku), it0[ix0 - 1]));",
                     after="same_step(old(sudoku), self, old(self), sudoku);")])

    RELY = "live(sudoku, w, h, gs, false)"
    G = "w: int, h: int, gs: Grids"

    def find(cls, tags, ghosts=G, rely=RELY, more={}, **kw):
        R.fn(P + cls + ".find", "cls: Cls, sudoku: Sudoku", "gen[Step]", is_gen=True, variant="live", ghosts=ghosts, theory=kw.pop("theory", F),
             interfere=dict({"param": "sudoku", "rely": rely}, **kw.pop("interfere", {})), total=True,
             requires={"live": rely, "class": tags},
             yields=dict({"a sound and effective step": "good_step(sudoku, yielded, cls, gs)"}, **more), **kw)
    find("CalculateCandidates", "cls.tag == 1", ghosts=G + ", strict: bool", rely=RELY.replace("false", "true"),
         interfere={"step": "strict ==> filled_stay(was, sudoku)"},
         done={"every field without candidates was yielded": "strict ==> forall|q: (int, int)| at(sudoku, q) ==> (#[trigger] cand(sudoku, q)).len() != 0 || stepped(out, q)"},
         theory=F1, locals={"g_s": "Sudoku", "g_out": "Seq<Step>"},
         hooks={"yield": "g_s = sudoku; g_out = out; calc_step(sudoku, yielded, cls, (row, col), values, w, h, gs);", "return": "if strict { calculated_all(sudoku, out, it0); }"},
         loops=[Loop(inv={"fields": "forall|q: (int, int)| #[trigger] it0.contains(q) <==> ingrid(w, h, q)", "calculated": "strict ==> calculated(sudoku, out, it0, ix0)"},
                     start="g_out = out; assert(it0.contains(it0[ix0 - 1])); assert forall|j: int| 0 <= j < it0.len() implies at(sudoku, #[trigger] it0[j]) by { assert(it0.contains(it0[j])); }",
                     end="if strict { if out == g_out { calculated_skip(sudoku, out, it0, ix0 - 1); } else { calculated_next(g_s, sudoku, g_out, out.last(), it0, ix0 - 1); } }")])

    find("NakedSingle", "cls.tag == 3",
         hooks={"yield": "only_one(cand(sudoku, (row, col)), value); assert forall|g: Grid| #[trigger] inset(gs, g) implies gv(g, (row, col)) == value by { assert(compat(sudoku, g, false)); assert(cand(sudoku, (row, col)).contains(gv(g, (row, col)))); };"
                         "single_step(sudoku, yielded, cls, (row, col), value, gs);"},
         loops=[Loop()])
    REST = {"aftercall:%s" % f: "rest_%s(sudoku, (row, col), result);" % f for f in ("row_of", "column_of", "box_of")}
    STILL = {"still empty": "at(sudoku, (row, col)) && (!yielded_coords.contains((row, col)) ==> sudoku == g_t && num(g_t, (row, col)) == 0)"}
    find("HiddenSingle", "cls.tag == 4", locals={"g_t": "Sudoku"},
         hooks=dict(REST, **{"yield": "hidden_step(sudoku, yielded, cls, (row, col), value, it2, gs);"}),
         loops=[Loop(),
                Loop(inv={"still empty": "at(sudoku, (row, col)) && (!yielded_coords.contains((row, col)) ==> num(sudoku, (row, col)) == 0)"}, start="g_t = sudoku;"),
                Loop(inv={"left": "forall|v: int| #[trigger] candidates.contains(v) ==> 1 <= v <= side(g_t) && lacking(g_t, it2, ix2, v)"},
                     start="assert(it2.contains(it2[ix2 - 1])); lacking_next(g_t, it2, ix2 - 1);"),
                Loop(inv=dict(STILL, rest="unit_rest(g_t, (row, col), it2)"),
                     start="assert(it3.contains(it3[ix3 - 1])); assert(candidates.contains(value)); if !yielded_coords.contains((row, col)) { assert(sudoku == g_t); assert(lacking(sudoku, it2, it2.len() as int, value)); }")])

    LIVE = "wf(sudoku) && sudoku.bw == w && sudoku.bh == h"
    R.fn(P + "Bruteforce.find", "cls: Cls, sudoku: Sudoku", "gen[Step]", is_gen=True, variant="live", ghosts="w: int, h: int", theory=F1, outs={"sol": "Grid"},
         interfere={"param": "sudoku", "rely": LIVE}, total=True,
         requires={"wf": LIVE, "class": "cls.tag == 5"},
         hooks={"aftercall:dlx": "if result.len() > 0 { assert(result.contains(result[0])); assert(solved_from(sudoku, result[0])); sol = result[0].nums; }"},
         loops=[Loop(inv={"solution": "solved_from(old(sudoku), solution) && sol == solution.nums", "one step per field": "out.len() == ix0"},
                     after="if out.len() == 0 { nums_ext(sudoku, solution); }")],
         yields={"a number of the solution": "brute_step(sudoku, yielded, cls, sol) && completes(old(sudoku), sol)"},
         done={"no step if complete or unsolvable": "out.len() == 0 ==> (forall|g: Grid| !#[trigger] completes(old(sudoku), g)) || completes(old(sudoku), old(sudoku).nums)"})
    tuples(R, find, G, RELY)
    singles(R)

    REAL = "1 <= cls.tag <= 22 && cls.tag != 2 && (cls.tag >= 6 ==> cls.n >= 1)"
    R.fn(P + "SolveStep.apply_all", "cls: Cls, sudoku: Sudoku", "None", modifies="sudoku", theory=F, ghosts=G,
         ghost_args={"find": {"strict": "false"}},
         requires={"live": "live(sudoku, w, h, gs, cls.tag == 1)", "class": REAL},
         ensures={"same size": "wf(final(sudoku)) && same_dims(old(sudoku), final(sudoku))",
                  "no completion is lost": "cls.tag != 5 ==> live(final(sudoku), w, h, gs, cls.tag == 1)"},
         loops=[Loop(inv={"live": "cls.tag != 5 ==> live(sudoku, w, h, gs, cls.tag == 1)"}, start="g_s = sudoku; g_st = step;",
                     end="if cls.tag != 5 { live_applied(g_s, g_st, cls, sudoku, w, h, gs, cls.tag == 1); }")], locals={"g_s": "Sudoku", "g_st": "Step"})

    R.fn(P + "hints", "sudoku: Sudoku", "gen[Step]", is_gen=True, variant="live", ghosts=G, theory=F, total=True, ghost_args={"find": {"strict": "false"}},
         interfere={"param": "sudoku", "rely": RELY}, requires={"live": RELY},
         yields={"a sound and effective step": "good_step(sudoku, yielded, yielded.cls, gs) && yielded.cls.tag != 5"},
         loops=[Loop(), Loop()])

    LOG = {"log": "bare(sudoku, g_s0) && follows(g_s0, g_log, solution) && report.items == old(report).items + g_log && plain(g_log)"}
    R.fn(P + "solve", "sudoku: Sudoku, report: Sink", "Sudoku", modifies="report", theory=F, requires={"wf": "wf(sudoku)"}, defaults="report=lambda step: None",
         ghost_args={"find": {"strict": "true", "gs": "g_gs", "w": "solution.bw", "h": "solution.bh"}},
         ensures={"size": "wf(result) && same_dims(sudoku, result)", "numbers are kept": "keeps_nums(sudoku, result)",
                  "a completion if there is one": "solvable(sudoku) ==> completes(sudoku, result.nums)",
                  "the completion if it is unique": "solvable(sudoku) ==> solvable(result)",
                  "every step is reported": "reported(sudoku, old(report).items, final(report).items, result)"},
         locals={"g_s0": "Sudoku", "g_log": "Seq<Step>", "g_r": "Sudoku", "g_c": "bool", "g_gs": "Grids", "g_s": "Sudoku", "g_st": "Step"},
         hooks={"return": "finished_all(sudoku, solution);"},
         loops=[Loop(inv=dict(LOG, state="going(sudoku, solution, !calculated)", done="brk0 ==> calculated && finished(solution)"),
                     before="assert forall|q: (int, int)| at(sudoku, q) implies #[trigger] cand(solution, q) == (if num(sudoku, q) != 0 { set![num(sudoku, q)] } else { Set::<int>::empty() }) by { assert(num(solution, q) == num(sudoku, q)); assert(cand(solution, q) =~= (if num(sudoku, q) != 0 { set![num(sudoku, q)] } else { Set::<int>::empty() })); }"
                            " assert forall|q: (int, int)| at(sudoku, q) implies #[trigger] num(sudoku, q) == num(solution, q) by { }"
                            " g_s0 = solution; g_log = Seq::empty(); bare_going(sudoku, solution);",
                     start="g_r = solution; g_c = calculated;", end="ncands_nonneg(solution); ncands_nonneg(g_r);",
                     decreases="if brk0 { 0int } else { 1 }, if calculated { 0int } else { 1 }, nempty(solution), ncands(solution)"),
                Loop(inv=dict(LOG, state="going(sudoku, solution, !calculated)", calculated="(ix1 > 0 ==> calculated) && (g_c ==> calculated)", same="!brk1 ==> solution == g_r",
                              finished="!brk1 ==> forall|k: int| 0 <= k < ix1 && (#[trigger] cs1[k]).tag == 5 ==> finished(solution)",
                              progress="brk1 ==> less(solution, g_r) || g_c != calculated"),
                     start="g_gs = comps_of(solution); assert(all_in(solution, g_gs)) by { assert forall|g: Grid| #[trigger] completes(solution, g) implies inset(g_gs, g) by { } }",
                     after="if !brk1 { assert(has_tag(cs1, 5)) by { %s } }" % " ".join("if %d < cs1.len() { assert(cs1[%d].tag >= 0); }" % (i, i) for i in range(24))),
                Loop(inv=dict(LOG, same="ix2 == 0 ==> solution == g_r", progress="ix2 > 0 && cs1[ix1 - 1].tag != 1 ==> less(solution, g_r)",
                              state="going(sudoku, solution, cs1[ix1 - 1].tag == 1) && (cs1[ix1 - 1].tag != 5 ==> all_in(solution, g_gs))",
                              brute="cs1[ix1 - 1].tag == 5 && ix2 > 0 ==> completes(solution, o2_sol)",
                              covered="cs1[ix1 - 1].tag == 1 ==> filled_by(solution, g_gs, it2, ix2) && forall|k: int| 0 <= k < ix2 ==> at(solution, (#[trigger] it2[k]).affected[0])"),
                     start="g_s = solution; g_st = step;",
                     end="follows_next(g_s0, g_log, g_s, g_st, solution); g_log = g_log.push(g_st);"
                         "if cs1[ix1 - 1].tag == 5 { going_brute(sudoku, g_s, g_st, cs1[ix1 - 1], solution, o2_sol); } else { going_good(sudoku, g_s, g_st, cs1[ix1 - 1], solution, g_gs, cs1[ix1 - 1].tag == 1); }"
                         "if cs1[ix1 - 1].tag == 1 { covered_next(g_s, g_st, solution, cs1[ix1 - 1], g_gs, it2, ix2 - 1, sudoku); }",
                     after="if cs1[ix1 - 1].tag == 1 { covered_all(sudoku, solution, g_gs, it2); }")])


REMOVES = Loop(inv={"removes": "removes(sudoku, self, self.actions, it0, ix0)", "same": "self == (Step { actions: self.actions, ..old(self) }) && it0 == self.affected"},
               start="assert(at(sudoku, it0[ix0 - 1])); g_acts = self.actions;", end="removes_next(sudoku, self, g_acts, self.actions, it0, ix0 - 1);", after="removes_applied(sudoku, self, self.actions);")
BUILD = [("CalculateCandidates", 1, None, {"return": "calc_applied(sudoku, self, self.actions);"}),
         ("_SingleFieldStep", 2, Loop(inv={"sets": "sets(sudoku, self, self.actions, it0, ix0)", "same": "self == (Step { actions: self.actions, ..old(self) })"},
                                      start="assert(it0.contains(it0[ix0 - 1])); g_acts = self.actions;", after="sets_applied(sudoku, self, self.actions, it0);",
                                      end="sets_next(sudoku, self, g_acts, self.actions, it0, ix0 - 1);"),
          {}),
         ("NakedTuple", 3, REMOVES, {}), ("HiddenTuple", 4, REMOVES, {}), ("PointingTuple", 3, REMOVES, {}), ("BasicFish", 3, REMOVES, {})]


def tuples(R, find, G, RELY):
    UNIT = "unit_list(w, h, coords)"
    FF = F + ("comp_nodup",)
    R.fn(P + "NakedTuple.__find_at", "cls: Cls, sudoku: Sudoku, coords: list[tuple[int,int]]", "gen[Step]", is_gen=True, variant="live", ghosts=G, theory=FF,
         interfere={"param": "sudoku", "rely": RELY}, total=True,
         requires={"live": RELY, "class": "6 <= cls.tag <= 10 && cls.n >= 1", "unit": UNIT},
         yields={"a sound and effective step": "good_step(sudoku, yielded, cls, gs)"},
         hooks={"yield": "naked_step(sudoku, yielded, cls, w, h, coords, fields, all_candidates, gs);"},
         loops=[Loop(start="assert(it0.contains(it0[ix0 - 1])); subsequence_facts(fields, n_candidates);"),
                Loop(inv={"union": "covers_cands(sudoku, fields, ix1, all_candidates)"}, start="assert(it1.contains(it1[ix1 - 1]));")])
    UNITS = {"entry": "dims_pos(sudoku.bw, sudoku.bh);", "aftercall:row_of": "row_unit(w, h, (row, col), result);", "aftercall:column_of": "column_unit(w, h, (row, col), result);",
             "aftercall:box_of": "box_unit(w, h, (row, col), result);"}
    find("NakedTuple", "6 <= cls.tag <= 10 && cls.n >= 1", hooks=UNITS,
         loops=[Loop(), Loop(inv={"units": "forall|k: int| 0 <= k < clist.len() ==> unit_list(w, h, #[trigger] clist[k])"}, start="assert(it1.contains(it1[ix1 - 1]));"), Loop(), Loop()])
    R.fn(P + "HiddenTuple.__find_at", "cls: Cls, sudoku: Sudoku, coords: list[tuple[int,int]]", "gen[Step]", is_gen=True, variant="live", ghosts=G, theory=FF,
         interfere={"param": "sudoku", "rely": RELY}, total=True,
         requires={"live": RELY, "class": "11 <= cls.tag <= 15 && cls.n >= 1", "unit": UNIT}, locals={"g_m": "Places"},
         yields={"a sound and effective step": "good_step(sudoku, yielded, cls, gs)"},
         hooks={"yield": "hidden_tuple_step(sudoku, yielded, cls, w, h, coords, cand_coords, numbers, max_set, gs);"},
         loops=[Loop(inv={"recorded": "all_recorded(sudoku, cand_coords, it0, ix0, coords) && within(cand_coords, coords)"}, after="held_all(sudoku, w, h, gs, cand_coords, coords);"),
                Loop(inv={"recorded": "all_recorded(sudoku, cand_coords, it0, ix0 - 1, coords) && recorded(sudoku, cand_coords, cand, coords, ix1) && within(cand_coords, coords)"},
                     start="assert(it1.contains(it1[ix1 - 1])); g_m = cand_coords;", end="recorded_next(sudoku, g_m, cand_coords, it0, ix0 - 1, coords, ix1 - 1);"),
                Loop(inv={"held": "held(gs, coords, cand_coords) && within(cand_coords, coords)"}, start="assert(it2.contains(it2[ix2 - 1])); subsequence_facts(numbers, n_times);"),
                Loop(inv={"held": "held(gs, coords, cand_coords) && within(cand_coords, coords)",
                          "union": "all_places(cand_coords, it3, ix3, max_set) && forall|q: (int, int)| #[trigger] max_set.contains(q) ==> coords.contains(q)"},
                     start="pos_touch(cand_coords, it3[ix3 - 1], gs, coords); places_next(cand_coords, it3, ix3 - 1, max_set, coords);"),
                Loop(start="assert(it4.contains(it4[ix4 - 1]));")])
    find("HiddenTuple", "11 <= cls.tag <= 15 && cls.n >= 1", hooks=UNITS,
         loops=[Loop(), Loop(inv={"units": "forall|k: int| 0 <= k < clist.len() ==> unit_list(w, h, #[trigger] clist[k])"}, start="assert(it1.contains(it1[ix1 - 1]));"), Loop(), Loop()])
    POINT = "16 <= cls.tag <= 18 && cls.n >= 1"
    CL = {"assign:clues": "if clues.len() > 0 { assert(clues.contains(clues[0])); }"}
    STEP = "pointing_step(sudoku, yielded, cls, w, h, %s, clues, candidate, gs);"
    ROWCOL = dict(CL, **{"entry": "dims_pos(sudoku.bw, sudoku.bh);", "aftercall:row_of": "row_unit(w, h, (x, x), result);", "aftercall:column_of": "column_unit(w, h, (x, x), result);",
                         "yield": "box_sees(w, h, clues, yielded.affected); " + STEP % "coords"})
    BOX = dict(CL, **{"entry": "dims_pos(sudoku.bw, sudoku.bh); the_box_facts(w, h, box);", "aftercall:box_of": "box_unit(w, h, (row, col), result);", "yield": STEP % "box_coords"})
    for name, arg, hooks, loops in (("__find_in_row_and_column", "x", ROWCOL, [Loop(start="assert(it0.contains(it0[ix0 - 1]));"), Loop(start="assert(it1.contains(it1[ix1 - 1]));")]),
                                    ("__find_in_box", "box", BOX, [Loop(start="assert(it0.contains(it0[ix0 - 1]));")])):
        R.fn(P + "PointingTuple." + name, "cls: Cls, sudoku: Sudoku, %s: int" % arg, "gen[Step]", is_gen=True, variant="live", ghosts=G, theory=F + ("comp_one", "sort_one_int"),
             interfere={"param": "sudoku", "rely": RELY}, total=True,
             requires={"live": RELY, "class": POINT, "unit": "0 <= %s < w * h" % arg},
             yields={"a sound and effective step": "good_step(sudoku, yielded, cls, gs)"}, hooks=hooks, loops=loops)
    find("PointingTuple", POINT, hooks={"entry": "dims_pos(sudoku.bw, sudoku.bh);"}, loops=[Loop(start="assert(it0.contains(it0[ix0 - 1]));"), Loop(), Loop(start="assert(it2.contains(it2[ix2 - 1]));"), Loop()])
    FISH = "19 <= cls.tag <= 22 && cls.n >= 1"
    R.fn(P + "BasicFish.__find_for_candidate", "cls: Cls, sudoku: Sudoku, candidate: int, offset: int, base_func: Unit, cover_func: Unit", "gen[Step]", is_gen=True, variant="live", ghosts=G, theory=F + ("sort_one_int", "comp_self"),
         interfere={"param": "sudoku", "rely": RELY}, total=True,
         requires={"live": RELY, "class": FISH, "number": "1 <= candidate <= w * h", "lines": "0 <= offset <= 1 && base_func.tag == offset && cover_func.tag == 1 - offset"},
         yields={"a sound and effective step": "good_step(sudoku, yielded, cls, gs)"}, locals={"g_f": "Lines", "g_b": "Seq<(int, int)>"},
         hooks={"entry": "dims_pos(sudoku.bw, sudoku.bh);",
                "yield": "fish_step(sudoku, yielded, cls, w, h, offset, candidate, fields, indices, base_fields, other_counts.dom(), gs);"},
         loops=[Loop(inv={"recorded": "lines_of(sudoku, offset, candidate, fields, ix0) && it0 == irange(0, w * h)"}, start="assert(it0[ix0 - 1] == ix0 - 1); g_f = fields;",
                     end="lines_next(sudoku, offset, candidate, g_f, ix0 - 1, fields[ix0 - 1]);", after="lines_hold(sudoku, gs, w, h, offset, candidate, fields);"),
                Loop(start="assert(it1.contains(it1[ix1 - 1])); subsequence_facts(indices, valid_indices);"),
                Loop(inv={"base": "base_of(w, h, offset, fields, it2, ix2, base_fields)"},
                     start="assert(it2.contains(it2[ix2 - 1])); base_next(gs, candidate, w, h, offset, fields, it2, ix2 - 1, base_fields);"),
                Loop(inv={"counted": "counted(w, h, offset, it3, ix3, other_counts)"}, start="assert(it3.contains(it3[ix3 - 1]));", after="counted_all(w, h, offset, base_fields, other_counts);"),
                Loop(inv={"covered": "forall|q: (int, int)| #[trigger] covered.contains(q) ==> ingrid(w, h, q) && other_counts.dom().contains(line(1 - offset, q))"},
                     start="assert(it4.contains(it4[ix4 - 1]));")])
    find("BasicFish", FISH, hooks={"entry": "dims_pos(sudoku.bw, sudoku.bh);"}, loops=[Loop(start="assert(it0.contains(it0[ix0 - 1]));"), Loop()])


def singles(R):
    WF = {"wf": "wf(sudoku)"}
    NS = {"naked singles": "forall|k: int| 0 <= k < out.len() ==> naked_of(sudoku, #[trigger] out[k], cls)", "order": "ordered(out) && ahead(out, it0, ix0)",
          "complete": "naked_done(sudoku, out, it0, ix0)"}
    R.fn(P + "NakedSingle.find", "cls: Cls, sudoku: Sudoku", "gen[Step]", is_gen=True, theory=F, requires=dict(WF, **{"class": "cls.tag == 3"}), locals={"g_out": "Seq<Step>"},
         ensures={"only naked singles": "forall|k: int| 0 <= k < result.len() ==> naked_of(sudoku, #[trigger] result[k], cls)", "in order, each once": "ordered(result)",
                  "every naked single": "forall|q: (int, int)| naked_at(sudoku, q) ==> #[trigger] stepped(result, q)"},
         hooks={"yield": "only_one(cand(sudoku, (row, col)), yielded.values[0]);", "afteryield": "stepped_push(g_out, out.last()); ordered_push(g_out, out.last(), it0, ix0 - 1);",
                "return": "assert forall|q: (int, int)| naked_at(sudoku, q) implies #[trigger] stepped(out, q) by { assert(it0.contains(q)); let j = choose|j: int| 0 <= j < it0.len() && it0[j] == q; assert(naked_at(sudoku, it0[j])); }"},
         loops=[Loop(inv=NS, start="g_out = out; assert(it0.contains(it0[ix0 - 1])); ahead_next(out, it0, ix0 - 1);"),
                ])
    REST = {"aftercall:%s" % f: "rest_%s(sudoku, (row, col), result);" % f for f in ("row_of", "column_of", "box_of")}
    HS = {"hidden singles": "forall|k: int| 0 <= k < out.len() ==> hidden_of(sudoku, #[trigger] out[k], cls)", "remembered": "forall|q: (int, int)| #[trigger] stepped(out, q) <==> yielded_coords.contains(q)",
          "order": "ordered(out) && ahead(out, it0, ix0)"}
    IN = dict(HS, here="upto(out, (row, col)) && hidden_done(sudoku, out, it0, ix0 - 1)")
    R.fn(P + "HiddenSingle.find", "cls: Cls, sudoku: Sudoku", "gen[Step]", is_gen=True, theory=F + ("push_has_b",), requires=dict(WF, **{"class": "cls.tag == 4"}), locals={"g_out": "Seq<Step>", "g_y": "spec_fn((int, int)) -> bool"},
         ensures={"only hidden singles": "forall|k: int| 0 <= k < result.len() ==> hidden_of(sudoku, #[trigger] result[k], cls)", "in order, each once": "ordered(result)",
                  "every hidden single": "forall|q: (int, int), v: int| #[trigger] hidden_at(sudoku, q, v) ==> stepped(result, q)"},
         hooks=dict(REST, **{"return": "assert forall|q: (int, int), v: int| #[trigger] hidden_at(sudoku, q, v) implies stepped(out, q) by { assert(it0.contains(q)); let j = choose|j: int| 0 <= j < it0.len() && it0[j] == q; assert(hidden_at(sudoku, it0[j], v)); }"}),
         loops=[Loop(inv=dict(HS, complete="hidden_done(sudoku, out, it0, ix0)"), start="assert(it0.contains(it0[ix0 - 1])); ahead_next(out, it0, ix0 - 1);"),
                Loop(inv=dict(IN, units="units_done(sudoku, out, us1, ix1, (row, col))", found="brk1 ==> stepped(out, (row, col))"),
                     after="assert forall|v: int| #[trigger] hidden_at(sudoku, (row, col), v) implies stepped(out, (row, col)) by { assert(us1[0].tag >= 0 && us1[1].tag >= 0 && us1[2].tag >= 0); }"),
                Loop(inv={"left": "forall|v: int| #[trigger] candidates.contains(v) <==> 1 <= v <= side(sudoku) && lacking(sudoku, it2, ix2, v)"},
                     before="assert(rest_is(sudoku, us1[ix1 - 1].tag, (row, col), it2)); missing_is(sudoku, us1[ix1 - 1].tag, (row, col), it2);",
                     start="assert(it2.contains(it2[ix2 - 1])); lacking_next(sudoku, it2, ix2 - 1);"),
                Loop(inv=dict(IN, found="(ix3 > 0 || found_hidden_single) ==> stepped(out, (row, col))", units="units_done(sudoku, out, us1, ix1 - 1, (row, col))"),
                     end="if out != g_out { stepped_push(g_out, out.last()); ordered_push_at(g_out, out.last(), it0, ix0, (row, col)); assert forall|q: (int, int)| #[trigger] yielded_coords.contains(q) <==> (g_y(q) || q == (row, col)) by { }\n assert(out == g_out.push(out.last()));"
                         " assert forall|q: (int, int)| #[trigger] stepped(out, q) implies yielded_coords.contains(q) by { if q != (row, col) { assert(stepped(g_out, q)); } }"
                         " assert forall|q: (int, int)| yielded_coords.contains(q) implies #[trigger] stepped(out, q) by { if q != (row, col) { assert(stepped(g_out, q)); } } }",
                     start="g_out = out; g_y = |q: (int, int)| yielded_coords.contains(q); assert(it3.contains(it3[ix3 - 1])); assert(candidates.contains(value));",
                     after="assert forall|v: int| 1 <= v <= side(sudoku) && #[trigger] missing(sudoku, us1[ix1 - 1].tag, (row, col), v) implies stepped(out, (row, col)) by { assert(candidates.contains(v)); assert(it3.contains(v)); }")])
