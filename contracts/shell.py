"""Contracts of the shell's stack and loops (C19)."""
from pyver.contract import Loop
from pyver.trans import EXC

P = "sudokutools.shell."
S = P + "Shell."
F = ("prelude_facts", "sud_facts")
CALL = "tuple[Func,vtuple[str],vtuple[Opaque],Opaque]"

# the functions of the commands, numbered as in lib/shell.rs
FUNCS = [('Shell', 'exit_command'), ('Shell', 'loop_command'), ('Sudoku', ''), ('', 'generate'), ('', 'generate_from_template'), ('Sudoku', 'decode'), ('Sudoku', 'get_number'), ('Sudoku', 'set_number'), ('Sudoku', 'set_candidates'), ('Sudoku', 'get_candidates'), ('Sudoku', 'remove_candidates'), ('', 'init_candidates'), ('Sudoku', 'encode'), ('Sudoku', '__str__'), ('', 'clear'), ('', 'view'), ('Shell', 'solve_command'), ('Shell', 'stack_command'), ('Shell', 'push_command'), ('Shell', 'pop_command'), ('Shell', 'help_command')]


def register(R):
    R.struct("Func", "", [("tag", "tag", "int")], immutable=True)
    R.struct("Opaque", "", [("id", "id", "int")], immutable=True)
    R.struct("PyExc", "", [("id", "id", "int")], immutable=True)
    R.func_values.update({f: "(Func { tag: %d })" % i for i, f in enumerate(FUNCS)})
    R.struct("Keyword", P + "Keyword", [("name", "name", "str")], immutable=True)
    R.struct("Outcome", "", [("kind", "kind", "int"), ("sud", "sud", "Sudoku"), ("what", "what", "Opaque")])
    R.struct("Command", P + "Command", [("name", "name", "str")], immutable=True)
    R.struct("TextIn", "", [("(ghost) lines given", "given", "list[str]"), ("(ghost) at its end", "ended", "bool")], stream=True)
    R.struct("TextOut", "", [("(ghost) texts written", "written", "list[str]")], stream=True)
    R.struct("Shell", P + "Shell", [
        ("sudoku", "sudoku", "Sudoku"), ("running", "running", "bool"), ("_Shell__loop_n", "loop_n", "opt[int]"),
        ("_Shell__loop_command_list", "recorded", "list[%s]" % CALL), ("stack", "stack", "list[Sudoku]"),
        ("infile", "infile", "TextIn"), ("outfile", "outfile", "TextOut"), ("commands", "commands", "Opaque"), ("keywords", "keywords", "Opaque"), ("interactive", "interactive", "bool"), ("prompt", "prompt", "str"), ("command_prompt", "command_prompt", "str"),
        ("(ghost) calls made", "ran", "list[tuple[Func,vtuple[Opaque],Opaque]]")])

    def fn(name, params, returns="None", **kw):
        kw.setdefault("theory", F)
        R.fn(S + name, params, returns, **kw)

    WF = {"wf": "wf_shell(self)"}
    R.fn(P + "parse", "s: str", CALL, theory=F, raises={"KeyError": "?meaning(s) is None", "ValueError": "?meaning(s) is None"}, ensures={"meaning": "meaning(s) == Some(result)", "names": "call_ok(result)"},
         locals={"ws": "Seq<Seq<char>>"}, hooks={"entry": "ws = str_split(s, seq![' ']);"},
         kinds={"special_args": "list[str]", "args": "list[Opaque]", "kwargs": "dict[str,Opaque]"},
         loops=[Loop(inv={"words": "ws == str_split(s, seq![' ']) && it0 == ws.skip(1) && ws.len() > 0", "args": "args_of(it0.take(ix0)) == Some(args)", "named": "kwargs_of(it0.take(ix0)) == kwargs"},
                     before="assert(it0 =~= ws.skip(1)); assert(it0.take(0) =~= Seq::<Seq<char>>::empty());", start="word_read(it0, ix0 - 1);", after="assert(it0.take(it0.len() as int) =~= it0);"),
                Loop(inv={"names": "special_args == it1.take(ix1)", "known": "forall|j: int| 0 <= j < it1.len() ==> #[trigger] it1[j] == sp_sudoku() || it1[j] == sp_shell()", "all": "!brk1",
                          "entry": "command_entry(ws[0]) is Some && it1 == command_entry(ws[0])->Some_0.1"},
                     before="assert(command_entry(ws[0]) is Some); assert(it1 =~= command_entry(ws[0])->Some_0.1);",
                     start="assert(it1.take(ix1 - 1).push(it1[ix1 - 1]) =~= it1.take(ix1));", after="assert(it1.take(it1.len() as int) =~= it1);")])
    fn("error", "self: Shell, s: T", generics="T", requires={}, ensures={})
    R.fn("virtual.Func.__call__", "self: Func, shell: Shell, args: vtuple[Opaque], kwargs: Opaque", "Outcome", modifies="shell", requires={"wf": "wf_shell(shell)"}, theory=(),
         trusted="calling a function value runs that function with these arguments; it leaves the private loop state alone unless it is loop_command; a sudoku it returns is an object of its own",
         raises={x: "?true" for x in EXC if x != "KeyboardInterrupt"},
         ensures={"wf": "wf_shell(final(shell))", "input": "final(shell).infile == shell.infile", "called": "call_done(shell, final(shell), (self, args, kwargs), result)", "kind": "0 <= result.kind <= 2"},
         exc_ensures={"wf": "wf_shell(final(shell))", "input": "final(shell).infile == shell.infile", "called": "call_done(shell, final(shell), (self, args, kwargs), no_answer())"})
    C = "(func, special_args, args, kwargs)"
    fn("execute", "self: Shell, func: Func, special_args: vtuple[str], args: vtuple[Opaque], kwargs: Opaque", modifies="self", requires=dict(WF, names="call_ok(%s)" % C),
       theory=F + ("comp_each", "str_of_text"), kinds={"d": "dict[str,Opaque]"}, handles=True,
       locals={"a0": "Seq<Opaque>", "sp": "Seq<Seq<char>>"},
       hooks={"entry": "a0 = args; sp = special_args; special_names(%s, special_args);" % C,  "call:__call__": "assert(sp_sudoku().len() == 6 && sp_shell().len() == 5);\nassert forall|j: int| 0 <= j < sp.len() implies {args}[j] == #[trigger] handles(sp)[j] by { assert(sp.contains(sp[j])); };\nassert({args} =~= handles(sp).add(a0));"},
       ensures={"wf": "wf_shell(final(self))", "executed": "executed(self, final(self), %s)" % C, "input": "final(self).infile == self.infile"})
    fn("push_command", "self: Shell", modifies="self", requires=WF, hooks={"aftercall:copy": "assert(snapshot(old(self).sudoku, {result}));"}, ensures={"pushed": "pushed(self, final(self))", "wf": "wf_shell(final(self))"})
    fn("pop_command", "self: Shell, position: opt[int]", modifies="self", requires=WF, defaults="position=None",
       ensures={"popped": "popped(self, final(self), position)", "wf": "wf_shell(final(self))"})
    fn("stack_command", "self: Shell", "str", requires=WF, ensures={"count": "result == stack_text(self.stack.len() as int)"})
    fn("solve_command", "self: Shell, sudoku: Sudoku", "Sudoku", requires={"wf": "wf(sudoku)", "filled fields hold 1..N": "filled_ok(sudoku)"},
       raises={"StopIteration": "no_completion(sudoku)"}, ensures={"solution": "solved_from(sudoku, result)"},
       hooks={"aftercall:copy": "copy_completes(old(sudoku), {result});", "aftercall:bruteforce": "has_completion(sudoku, {result});", "aftercall:dlx": "has_completion(sudoku, {result});"})
    fn("exit_command", "self: Shell", modifies="self", requires=WF, ensures={"exit": "exited(self, final(self))"})
    fn("loop_command", "self: Shell, n: Keyword", variant="end", modifies="self", requires=dict(WF, end="n.name == seq!['e', 'n', 'd']"),
       ensures={"ended": "loop_ended(self, final(self))", "wf": "wf_shell(final(self))"},
       locals={"l0": "Seq<Call>", "n0": "int", "m0": "Shell"},
       loops=[Loop(before="n0 = old(self).loop_n->Some_0; l0 = old(self).recorded; round_ends(l0, 0); none_ran(old(self), self);",
                   inv={"wf": "wf_shell(self) && recording(old(self))", "count": "n0 > 0 && it0 == irange(0, n0)", "kept": "self.recorded == l0 && self.loop_n == Some(n0)", "all": "!brk0",
                        "rounds": "all_ran(old(self), self, seq_repeat(l0, ix0))"},
                   start="round_ends(l0, ix0 - 1); if ix0 > 1 { round_ends(l0, ix0 - 2); }"),
              Loop(inv={"wf": "wf_shell(self)", "listing": "it1 == l0", "kept": "self.recorded == l0 && self.loop_n == Some(n0)", "all": "!brk1",
                        "commands": "all_ran(old(self), self, so_far(l0, ix0 - 1, ix1))"},
                   start="m0 = self;", end="round_next(l0, ix0 - 1, ix1 - 1); one_ran(old(self), m0, self, so_far(l0, ix0 - 1, ix1 - 1), l0[ix1 - 1]);")])
    fn("loop_command", "self: Shell, n: int", variant="count", modifies="self", requires=WF,
       ensures={"defined": "loop_defined(self, final(self), n)", "wf": "wf_shell(final(self))"})
    fn("execute_line", "self: Shell, line: str", modifies="self", requires=WF,
       ensures={"pieces": "pieces_done(self, final(self), str_split(line, seq![';']))", "wf": "wf_shell(final(self))", "input": "final(self).infile == self.infile"},
       locals={"m0": "Shell", "ps": "Seq<Seq<char>>"},
       loops=[Loop(before="ps = it0; assert(ps.take(0) =~= Seq::<Seq<char>>::empty());",
                   inv={"wf": "wf_shell(self)", "input": "self.infile == old(self).infile", "listing": "it0 == ps", "pieces": "pieces_done(old(self), self, ps.take(ix0))", "all": "!brk0"},
                   start="m0 = self;", end="piece_next(old(self), m0, self, ps, ix0 - 1);", after="assert(ps.take(ps.len() as int) =~= ps);")])
    R.fn("virtual.TextIn.readline", "self: TextIn", "str", modifies="self", raises={"KeyboardInterrupt": "?true"}, trusted="readline gives the lines of the input one after another", theory=(),
         ensures={"given": "text_given(self, final(self), result)"}, exc_ensures={"interrupted": "text_given(self, final(self), seq!['\\n'])"})
    R.fn("virtual.TextOut.write", "self: TextOut, s: str", "None", modifies="self", trusted="write appends the text to the output", theory=(), ensures={"written": "final(self).written == self.written.push(s)"})
    R.fn("virtual.TextOut.flush", "self: TextOut", "None", trusted="flush changes nothing", theory=())
    fn("_print", "self: Shell, s: T, end: str", generics="T", modifies="self", defaults="end='\\n'",
       ensures={"printed": "wrote(self, final(self), any_str(s).add(end))"})
    fn("run", "self: Shell", modifies="self", requires=WF, locals={"m0": "Shell"},
       ensures={"lines": "more_given(self, final(self)) && lines_done(self, final(self), lines_given(self, final(self)))", "end": "!final(self).running || final(self).infile.ended", "wf": "wf_shell(final(self))"},
       loops=[Loop(before="lines_start(old(self), self);", start="m0 = self;",
                   end="if self.infile.given.len() > m0.infile.given.len() {\nline_read(self.infile.given.last()); let c = pending(lines_given(old(self), m0)).add(line_text(self.infile.given.last()));\nline_next(old(self), m0, self, self.infile.given.last(), c);\n} else { lines_stop(old(self), m0, self); }",
                   inv={"wf": "wf_shell(self)", "input": "more_given(old(self), self)", "pending": "!brk0 ==> lines == pending(lines_given(old(self), self))",
                        "done": "lines_done(old(self), self, lines_given(old(self), self))", "ended": "brk0 ==> self.infile.ended"})])
    R.fn("virtual.TextIn.isatty", "self: TextIn", "bool", trusted="isatty tells whether the input is a terminal", theory=())
    fn("__init__", "interactive: opt[bool], infile: TextIn, outfile: TextOut, commands: opt[Opaque], keywords: opt[Opaque]", ctor=P + "Shell", defaults="interactive=None, commands=None, keywords=None",
       ensures={"wf": "wf_shell(result)", "fresh": "result.stack.len() == 0 && !recording(result) && result.running && result.infile == infile && blank(result.sudoku)",
                "interactive": "interactive is Some ==> result.interactive == interactive->Some_0"})
