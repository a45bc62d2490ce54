"""Which contracts decide which property."""
P = "sudokutools."
S = P + "sudoku.Sudoku."


def names(prefix, text):
    return [prefix + f for f in text.split()]


COORD = names(P + "coordinates.", "box_at box_of column_of row_of surrounding_of the_box the_column the_part the_row")
DLX = ["geom", "sud", "solving", "cover", "comps", "rows"]
GEN = DLX + ["create", "strings", "gen"]
V = P + "solvers."
N = P + "notation."
A = P + "actions."
H = P + "shell.Shell."
FIND = [V + c + ".find@live" for c in "CalculateCandidates NakedSingle HiddenSingle NakedTuple HiddenTuple PointingTuple BasicFish".split()]
APPLY = names(V, "SolveStep.apply SolveStep.apply_all hints@live")
SOLVE = DLX + ["brute", "steps", "search", "tuples", "solver"]
GAME = SOLVE + ["create", "strings", "gen", "text", "notes", "cuts", "acts", "acttext", "shell", "game"]
PROPS = {
    "C01": dict(roots=[P + "solve.dlx"], theory=DLX, search=25),
    "C02": dict(roots=[P + "solve.bruteforce"], theory=["geom", "sud", "solving", "comps", "brute"], search=25),
    "C03": dict(roots=[P + "analyze.is_unique"], theory=DLX, search=20),
    "C04": dict(roots=[P + "analyze.find_conflicts", P + "analyze.is_solved"], theory=["geom", "sud", "solving"], search=20),
    "C05": dict(roots=[P + "solve.calc_candidates", P + "solve.init_candidates"], theory=["geom", "sud", "solving"], search=20),
    "C06": dict(roots=names(S, "__init__ __iter__ __len__ row_of column_of box_of surrounding_of box_at "
                               "_quad_without_row_and_column_of"), theory=["geom", "sud"], search=20),
    "C07": dict(roots=COORD, theory=["geom"], search=15),
    "C08": dict(roots=[P + "generate.generate"], theory=GEN, search=30),
    "C09": dict(roots=[P + "generate.generate_from_template", P + "generate.generate_from_template@bounded"], theory=GEN, search=25),
    "C10": dict(roots=[P + "generate.create_solution"], theory=DLX + ["create"], search=20),
    "C11": dict(roots=FIND + APPLY, theory=SOLVE, search=40),
    "C12": dict(roots=[V + "solve"], theory=SOLVE, search=25),
    "C13": dict(roots=[P + "analyze.rate", P + "analyze.score"], theory=SOLVE, search=20),
    "C14": dict(roots=names(S, "__init__ __getitem__ __setitem__ get_number set_number get_candidates set_candidates "
                               "remove_candidates empty filled count copy"), theory=["geom", "sud"], search=20),
    "C15": dict(roots=names(S, "__eq__ equals diff"), theory=["geom", "sud"], search=20),
    "C16": dict(roots=names(S, "encode decode"), theory=["geom", "sud", "strings", "text"], search=20),
    "C17": dict(roots=names(N, "encode decode"), theory=["geom", "sud", "strings", "text", "notes", "cuts"], search=20),
    "C18": dict(roots=[A + "SetNumber.__call__", A + "RemoveCandidates.__call__"] + names(N, "encode_action decode_action"),
                theory=["geom", "sud", "solving", "comps", "steps", "acts", "strings", "text", "notes", "cuts", "acttext"], search=20),
    "C19": dict(roots=names(H, "push_command pop_command stack_command exit_command error __init__ loop_command@end loop_command@count execute_line"),
                theory=["geom", "sud", "strings", "shell"], search=20,
                assume=["the functions of the commands other than loop leave the private state of loops alone"]),
    "C20": dict(roots=["sudokutools.sudoku.view", "sudokutools.sudoku.Sudoku.__str__"], theory=["geom", "sud", "strings", "text", "picture"], search=20),
    "C21": dict(roots=FIND + [V + "Bruteforce.find@live", V + "SolveStep.apply", V + "hints@live"], theory=SOLVE, search=30),
    "C23": dict(roots=names(H.replace("Shell.", "GameShell."), "run new_sudoku autofill") + ["sudokutools.sudoku.view@any", N + "decode_action@any"],
                theory=GAME, search=20,
                assume=["a stored generator of hints raises nothing but StopIteration when it is resumed and leaves the sudoku alone (C21)",
                        "input() gives any text or raises EOFError", "sudokutools.shell.GameShell.autofill may run forever (only reached with autoset on)"]),
    "C24": dict(roots=names(H, "run __init__ execute_line error _print"), theory=["geom", "sud", "strings", "shell"], search=20,
                assume=["readline gives the lines of the input one after another and the empty text at its end, or is interrupted; commands do not read the input"]),
    "C25": dict(roots=["sudokutools.shell.parse"] + names(H, "execute execute_line error _print"), theory=["geom", "sud", "strings", "shell"], search=20,
                assume=["ast.literal_eval gives the value of a literal or raises one of its five documented errors",
                        "calling a function value runs that function with these arguments; what a command other than loop does to the shell is the property of its function",
                        "no keyboard interrupt arrives while a command runs"]),
    "C26": dict(roots=names(H, "solve_command"), theory=DLX + ["strings", "shell", "brute"], search=20),
    "C22": dict(roots=[V + "NakedSingle.find", V + "HiddenSingle.find"], theory=["geom", "sud", "solving", "comps", "steps", "search", "singles"], search=20),
}
