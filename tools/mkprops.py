"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     hook_needed=None)))

D, S, A, G, C, N, SV, SH, AC = ("sudokutools/dlx.py", "sudokutools/solve.py", "sudokutools/analyze.py",
    "sudokutools/generate.py", "sudokutools/coordinates.py", "sudokutools/notation.py",
    "sudokutools/solvers.py", "sudokutools/shell.py", "sudokutools/actions.py")
SU = "sudokutools/sudoku.py"

p("C01", "The dlx solver enumerates exactly the completions of a sudoku",
  "For every sudoku of any box size, the dlx solver yields every valid completion of the given numbers exactly once and yields nothing else; for givens that conflict or lie outside 1..N it yields nothing. The sudoku passed in is left unmodified and every yielded sudoku is an independent object.",
  "all box widths and heights >= 1, all assignments of numbers to fields (solvable, ambiguous, conflicting, out of range)",
  "The tests solve a handful of fixed 9x9 sudokus and compare with one stored solution; they cannot reach all grids, all box shapes, nor completeness and uniqueness of the enumeration.",
  [S, D, SU], [("dlx", S + ": dlx"), ("exact cover encoding", D + ": do_dlx, exact_cover"), ("algorithm X", D + ": solve, select, deselect")],
  observe=["sequence of sudokus yielded by sudokutools.solve.dlx", "the argument after the call"],
  state=[("X, Y", "remaining constraints with their rows / rows with their constraints", D)])
p("C02", "The bruteforce solver enumerates exactly the completions of a sudoku",
  "For every sudoku of any box size whose filled fields hold numbers 1..N, the brute-force solver yields every valid completion exactly once and nothing else, and yields nothing if the filled fields conflict. The sudoku passed in is left unmodified (numbers and candidates) and every yielded sudoku is an independent object.",
  "all box widths and heights >= 1, all partial fillings with numbers 1..N, all prior candidate sets",
  "The tests run it on a few fixed 9x9 sudokus; exhaustiveness, absence of duplicates and correct backtracking hold only if proved for every grid.",
  [S, SU], [("bruteforce", S + ": bruteforce, _do_bruteforce"), ("candidate bookkeeping", S + ": init_candidates, calc_candidates")],
  observe=["sequence of sudokus yielded by sudokutools.solve.bruteforce", "the argument after the call"])
p("C03", "is_unique is true exactly for sudokus with one completion",
  "is_unique(sudoku) returns True if and only if the sudoku has exactly one valid completion; it returns False for sudokus with none and with several, and never modifies the sudoku.",
  "all box sizes and all assignments of numbers to fields",
  "Tests check a few unique and non-unique samples; the equivalence with the number of completions cannot be sampled.",
  [A, S, D], [("is_unique", A + ": is_unique"), ("enumeration", S + ": dlx")], observe=["return value", "argument after the call"])
p("C04", "find_conflicts and is_solved report conflicts exactly",
  "find_conflicts yields ((r,c),(i,j),v) exactly once for every ordered pair of different fields in a common row, column or box that hold the same non-empty number v, with (r,c) among the requested coordinates (all fields if none are requested), and nothing else. is_solved is True exactly if no field is empty and no such pair exists.",
  "all box sizes, all fillings, all lists of requested coordinates",
  "Tests use one solved and a few conflicting grids; soundness and completeness quantify over all grids and coordinates.",
  [A, SU], [("find_conflicts", A + ": find_conflicts"), ("is_solved", A + ": is_solved"), ("surrounding_of", SU + ": Sudoku.surrounding_of")])
p("C05", "Candidate calculation returns exactly the values not blocked by peers",
  "calc_candidates of an empty field is exactly the set of numbers 1..N that occur in no other field of its row, column or box; of a filled field it is the singleton of its number. init_candidates stores exactly these sets (for filled fields only, if so requested, leaving all other candidate sets alone) and changes no number.",
  "all box sizes, all fillings, all prior candidates, both modes",
  "Tests compare one 9x9 grid with a stored candidate table.",
  [S, SU], [("calc_candidates", S + ": calc_candidates"), ("init_candidates", S + ": init_candidates")])
p("C06", "Field geometry of a Sudoku object is exact for every box size",
  "For every box width and height, iterating a sudoku visits every field exactly once in row-major order, and its row, column and box queries list exactly the fields of that row, column or box, each once, with the asked field omitted on request. The surrounding query lists every field sharing a row, column or box with the given field exactly once (the field itself once if included, else not at all), and two fields have the same box index exactly if they lie in the same box.",
  "all box widths and heights >= 1, all fields, include on and off",
  "Tests check 9x9 plus one or two fields; nothing covers all rectangular box shapes.",
  [SU], [("row_of, column_of, box_of", SU), ("surrounding_of", SU), ("box_at, __iter__, __len__", SU)])
p("C07", "Coordinate functions agree with the grid geometry for every size",
  "For every box width and height, the coordinate functions for a field list exactly the fields of its row, column, box or surrounding, each once, and box_at numbers boxes 0..N-1 row-major. The functions for a numbered row, column, box or part list exactly the fields with that row, column, box index or part index, each once, and raise ValueError exactly for numbers outside 0..N-1.",
  "all box widths and heights >= 1, all fields and all integer row/column/box/part numbers",
  "Tests check a few 9x9 and 8x8 examples.",
  [C], [("box_of, row_of, column_of, surrounding_of, box_at", C), ("the_row, the_column, the_box, the_part", C)])
p("C08", "generate returns a unique sudoku with the promised count and symmetry",
  "For every random outcome, generate returns a sudoku of the requested box size that has exactly one completion and at least min_count filled fields, and whose set of filled fields is closed under the requested symmetry. It raises ValueError exactly if min_count exceeds the number of fields or the symmetry name is unknown.",
  "all box sizes, all min_count values, all symmetry names, all random choices",
  "Tests run a few random generations of 9x9; symmetry and uniqueness must hold for every shuffle.",
  [G, A, S], [("generate", G + ": generate"), ("SYMMETRY", G), ("is_unique", A)], over=("inputs", "schedules"))
p("C09", "generate_from_template returns a unique sudoku matching the template",
  "If generate_from_template returns, the result has the template's box size, is filled exactly where the template is non-empty, and has exactly one completion; if tries is non-negative and no such sudoku is found within that many attempts it raises RuntimeError. The template is not modified.",
  "all templates, all values of tries, all random choices",
  "Tests use one template with a few random runs.",
  [G, A], [("generate_from_template", G)], over=("inputs", "schedules"))
p("C10", "create_solution always returns a complete, conflict-free sudoku",
  "For every box size and every random outcome, create_solution returns (it never raises) a sudoku of the requested size in which every field holds a number 1..N and no row, column or box contains a number twice.",
  "all box widths and heights >= 1, all random choices",
  "Tests create a few random 9x9 grids.",
  [G, S, D], [("create_solution", G)], over=("inputs", "schedules"))
p("C11", "Every solve step found is sound for every completion",
  "Let a sudoku and its candidate sets be compatible with a valid completion (every filled field agrees with it and every field's candidates contain its number, or are still uncalculated for the candidate calculation step). Then every step found by any solving technique other than brute force agrees with that completion: a number it sets is the completion's number, and a candidate it removes is never the completion's number for that field; applying the step keeps the sudoku compatible, also when steps are applied while the search is still running.",
  "all box sizes, all sudokus and candidate states, all completions, all techniques and tuple sizes, all interleavings of finding and applying",
  "Tests check one hand-made example per technique; soundness quantifies over all candidate states.",
  [SV, SU], [("find methods", SV), ("build_actions / apply", SV)], over=("inputs", "histories"))
p("C12", "The step-by-step solver returns a completion and leaves its input alone",
  "For every sudoku that has a completion, the step-by-step solver terminates and returns a valid completion of it (the completion if it is unique); for a sudoku without completion it terminates too. The sudoku passed in is not modified, and every step performed is reported once, before it is applied.",
  "all box sizes, all fillings",
  "Tests solve a few 9x9 sudokus.",
  [SV, S], [("solve", SV + ": solve"), ("SOLVERS", SV)])
p("C13", "Ratings and scores are bounded and consistent",
  "rate returns an integer between 0 and 10, score one that is never negative; each is 0 exactly if the step-by-step solver performed no step other than candidate calculations on the sudoku. Neither modifies the sudoku, and both return for every sudoku, whether it has completions or not.",
  "all box sizes, all sudokus",
  "Tests rate a handful of fixed sudokus.",
  [A, SV], [("rate, score, RATINGS", A)])
p("C14", "Field storage: writes are read back, isolated, and copies are independent",
  "Writing a number or candidate set to a field is read back from this field and changes no other number or candidate set; removing candidates removes exactly those from exactly that field; empty, filled and count partition the fields by whether their number is non-zero. A copy has the same size and numbers (and candidates on request, else none), and no later change to either object is visible in the other; stored candidate sets do not alias the caller's collections.",
  "all box sizes, all sequences of reads and writes, all iterables given as candidates",
  "Tests check single writes on 9x9; isolation and independence are frame properties over all fields and histories.",
  [SU], [("__getitem__, __setitem__, set_candidates, remove_candidates", SU), ("copy", SU), ("empty, filled, count", SU)],
  over=("inputs", "histories"))
p("C15", "Comparison of sudokus is exact field-wise comparison",
  "Two sudokus of the same size compare equal exactly if all their numbers agree, whatever their candidates; diff yields exactly the fields whose numbers differ, once each in row-major order; equals additionally compares candidates on request. Comparison never modifies either sudoku.",
  "all pairs of sudokus of one size and their candidates",
  "Tests compare a few pairs.",
  [SU], [("__eq__, diff, equals", SU)])
p("C16", "Sudoku text encoding and decoding are inverse",
  "For every sudoku whose numbers (and, if they are included, candidates) have one digit: decode applied to what encode writes, with any white space as row and column separators and any further white space inserted, gives a sudoku of the same size with the same numbers and exactly the included candidates; the box size has to be given unless box width equals height. With a number separator (no digit, no '|') that is also encode's column separator, and row separator unless that is one character of white space, the same holds for numbers of any length (without candidates). Texts with another mark for empty fields or other separators are read in the same way.",
  "all sudokus, all box sizes, with and without candidates, all separators in the stated classes, all white space insertions",
  "Tests round-trip a few fixed strings.",
  [SU], [("encode", SU), ("decode", SU)])
p("C17", "Coordinate notation round-trips for every set of fields",
  "For every box size, every non-empty collection of its fields and every group separator (non-empty, without digits and qualifiers) and number separator (empty or one character that is neither a digit nor a qualifier), decoding the encoding of the fields in row/column, box/part or automatic notation gives exactly the sorted tuple of these fields, each once; encoding fields outside the sudoku and invalid box sizes raise ValueError. Decoding any text gives exactly the sorted fields lying, for one of its groups, in one of the named rows, one of the named columns, boxes and parts of that group, white space being ignored unless a separator holds some; it raises ValueError for all texts that are not such groups of distinct qualifiers with numbers in range, and only for those.",
  "all box sizes, all non-empty coordinate collections, all notations and separators as stated, all well-formed and malformed strings",
  "Tests check about twenty fixed strings.",
  [N, C], [("encode, _join_keys, _dict_to_str", N), ("decode, _decode_single", N)])
p("C18", "Actions change exactly the fields they name, and their notation round-trips",
  "Executing a set-number action writes its number and the singleton candidate set to each named field and changes nothing else; executing a remove-candidates action removes exactly its candidates from each named field and changes nothing else. For every box size, every non-empty collection of its fields, every number from 0 and every set of one-digit candidates (the empty set included), decoding (decode_action) the text (encode_action) of an action gives an action of the same kind with the same fields and the same number or candidates.",
  "all sudokus, all coordinate lists, all numbers and candidate sets, all box sizes; for the notation fields within the grid and candidates of one digit",
  "There is no test that executes or encodes actions over arbitrary inputs.",
  [AC, N], [("SetNumber, RemoveCandidates", AC), ("encode_action, decode_action", N)])
p("C19", "The shell's stack and loops behave as specified",
  "In the command shell, push puts an independent snapshot (numbers and candidates) of the current sudoku on the stack and leaves the current sudoku alone; pop makes exactly the last snapshot, or with an integer position p from 0 to the size of the stack minus 1 exactly snapshot p, the current sudoku and removes only it; on an empty stack or for any other integer position it reports an error and changes nothing. loop n with a positive integer n starts recording if nothing is being recorded; from then on every command except loop and exit is recorded in order and not executed; loop end executes the recorded commands in their order exactly n times and ends the recording, so that later commands are executed at once and a later loop starts with nothing recorded. Commands separated by semicolons are treated one after the other; stack tells the number of snapshots on the stack. Other uses of loop with integers, and commands that cannot be read, report an error and change nothing. (An error ends a shell that is not interactive.)",
  "all histories of shell commands, all positions and loop counts",
  "Tests only run short fixed scripts.",
  [SH], [("push_command, pop_command", SH), ("loop_command, execute_line", SH)], over=("histories", "inputs"))
p("C20", "The printed view shows every field in its place",
  "For every sudoku with numbers from 0 to its side length and arbitrary candidates, view returns one line per row, top to bottom, plus one rule line between each two rows of boxes and nothing else, separated by line breaks. Each row line shows the row's fields in column order, separated by single blanks, with a bar exactly between neighbouring boxes; a rule line is made of dashes and has its plus signs exactly below the bars. All fields have the same width and nothing is cut off: a field shows its number, or if it is empty nothing, or if candidates are included (the default) candidate_prefix (default '*') followed by its candidates in ascending order separated by number_sep (by default ',' if the side length is above 9 and the empty text otherwise), aligned to the right (the default) or to the left as asked for. str(sudoku) is the view without candidates. The sudoku is not changed.",
  "all box sizes, all fillings and candidates, all formatting options",
  "Tests compare one fixed picture.",
  [SU], [("view, __str__", SU)])
p("C21", "Reported steps always change something; searching changes nothing",
  "Every step reported by a technique (except a candidate calculation that finds no possible number for its field), applied to the sudoku it was found in, changes a number or candidate set of each field it lists as affected and of no field outside the affected fields and, for steps that set a number, their surroundings; numbers are changed only by steps that set a number. Searching for steps or hints never changes the sudoku.",
  "all box sizes, all sudoku and candidate states, all techniques",
  "Tests check one example per technique.",
  [SV], [("find / build_actions / apply", SV), ("hints", SV)])
p("C22", "Searching for singles is complete",
  "On every sudoku, the naked-single search reports exactly the empty fields with one candidate, once each and in row-major order, with that candidate. The hidden-single search reports every empty field for which some number is missing from the candidates of all other fields of one of its row, column or box, and reports only such numbers.",
  "all box sizes, all numbers and candidate states",
  "Tests check one or two examples.",
  [SV], [("NakedSingle.find", SV), ("HiddenSingle.find", SV)])
p("C23", "The game shell's undo and redo restore earlier states",
  "Let the current sudoku of a running GameShell be the one it shows before each prompt (numbers and candidates). The first word of a line 'undo' makes the state before the latest "
  "change that is not undone the current one, and does nothing at the start of the history; 'redo' makes the state that the latest undo left the current one again, and does nothing if "
  "there is none. Every other line that changes a number or a candidate (an action and what is filled in automatically after it, or 'candidates') adds exactly one state after the "
  "current one, makes it the current one and discards the undone states; 'hint', 'conflicts', 'settings', 'check', empty lines and lines that are no command change nothing. "
  "States of the history are never changed by what happens later, and no line ends the shell with an IndexError, KeyError, ValueError or TypeError from the history or the commands.",
  "all histories of lines entered in the game shell",
  "There is no test for the game shell.",
  [SH], [("GameShell.run", SH), ("GameShell.new_sudoku", SH), ("GameShell.autofill", SH)], over=("histories",))
p("C24", "The shell executes the command lines of its input in order",
  "A new shell has an empty sudoku with 3x3 boxes, an empty stack, records no loop and runs. Shell.run reads its input line by line. Of every line the text from the first '#' on and the "
  "blanks around the rest are dropped. A line that then ends with a backslash is continued: without the backslash it is put in front of the next line (dealt with in the same way), and so on; "
  "every other line completes a command line, which is executed before anything further is read, unless it is empty. Nothing else is executed: what waits for its rest at the end of the input is not. "
  "Reading stops when the input ends or when an executed command line has ended the shell (exit), and nothing is read after that. An interrupt at the prompt counts as an empty line "
  "if the shell is interactive and ends the program otherwise. (An error ends a shell that is not interactive.)",
  "all inputs: any sequence of lines, any comments and continuations, interactive or not",
  "There is one test with a fixed line.",
  [SH], [("Shell.run", SH), ("Shell.__init__", SH), ("Shell.execute_line", SH)], over=("inputs", "histories"))
p("C25", "A command line calls the function of its command with its arguments",
  "A command (a line, or a part of it between semicolons, without the blanks around it) consists of the words between its single blanks (two blanks in a row enclose an empty word, which is no literal). shell.parse reads it: the first word names the command, and the table of "
  "commands says which function it calls and whether the shell and the current sudoku come first. Every other word with '=' is an argument by name: the name is what precedes the first '=', the value is the Python "
  "literal that follows; the last value given to a name counts. The remaining words are the arguments by position, in their order: the name of a command stands for that command (a Command with this name), "
  "the word end for the keyword (a Keyword), everything else for the Python literal it spells. parse returns the function, what comes first, the arguments by position and the arguments by name. A text that "
  "names no command, or with a word that is none of these, gives KeyError or ValueError and nothing else (whatever the word is). Shell.execute calls the function once, with the current sudoku and/or the shell where the command "
  "wants them, in the order of the table, then the arguments by position in their order, and with the arguments by name. If it returns a Sudoku, this becomes the current sudoku; otherwise nothing but the function "
  "changes the shell; a result that is neither a Sudoku nor None is written to the output, as str gives it, with an end of line. An exception of the function is reported and does not "
  "leave execute (an error ends a shell that is not interactive), and a faulty command is reported and changes nothing.",
  "all inputs: any text, any function, any arguments, results and exceptions",
  "The tests know a few well-formed lines.",
  [SH], [("parse", SH), ("Shell.execute", SH), ("Shell.execute_line", SH), ("Shell._print", SH)], over=("inputs",))
p("C26", "The solve command of the shell gives a solution of the sudoku it is called with",
  "Shell.solve_command (the command solve, called with the shell and its current sudoku) returns, for every sudoku of any box size whose filled fields hold 1..N, a new Sudoku with the same box size whose "
  "fields are all filled, which has every number that the given sudoku has at the same place, and in which no value occurs twice in a row, a column or a box. If there is no such grid (also if the given numbers "
  "already contradict each other) it raises StopIteration, and otherwise it does not raise. The given sudoku, its candidates included, is left as it was, and neither sudoku is changed by a later change of the other. What the shell's own state is "
  "and which candidates the sudoku has make no difference to whether there is an answer; which of several solutions is returned is left open.",
  "all inputs: any sudoku with valid numbers, solvable or not, with any candidates",
  "No test calls the solve command; solutions of more than a few puzzles cannot be sampled.",
  [SH, S], [("Shell.solve_command", SH), ("bruteforce", S)], over=("inputs",))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
