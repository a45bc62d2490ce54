import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
V = """import io, sys
import sudokutools.shell as shell
from sudokutools.sudoku import Sudoku
def play(*lines):
    s = shell.Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())
    sys.stderr = io.StringIO()
    for l in lines:
        s.execute_line(l)
    told = sys.stderr.getvalue()
    sys.stderr = sys.__stderr__
    return s, s.outfile.getvalue(), told
"""
F = "shell.py"
bug("c25-equals", "C25", F, "item.split('=', 1)", "item.rsplit('=', 1)",
    "a named argument whose value contains '='", "the value is cut at its last '='",
    V + "s, out, told = play(\"encode row_sep='='\")\nassert told == '' and out.count('=') == 8\n")
bug("c25-twice", "C25", F, "                    kwargs[name] = literal_eval(value)\n", "                    kwargs.setdefault(name, literal_eval(value))\n",
    "a name that is given twice", "the first value counts",
    V + "s, out, told = play('set row=0 col=1 row=2 value=5')\nassert s.sudoku[2, 1] == 5\n")
bug("c25-zero", "C25", F, "            elif result is None:\n", "            elif not result and result != 0:\n",
    "a result that is empty, such as the candidates of a field without candidates or an empty text", "it is not printed",
    V + "s = shell.Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())\ns.execute(lambda: '', [], [], {})\nassert s.outfile.getvalue() == '\\n'\ns.execute(lambda: frozenset(), [], [], {})\nassert s.outfile.getvalue() == '\\nfrozenset()\\n'\n")
bug("c25-quoted", "C25", F, "                    if value in COMMANDS:\n", "                    if value.strip(\"'\\\"\") in COMMANDS:\n",
    "a text in quotes that spells the name of a command", "it is taken for the command (which then has quotes in its name)",
    V + "f, special, args, kw = shell.parse(\"decode 'set'\")\nassert args == ['set']\n")
bug("c25-raise", "C25", F, "        except Exception as e:\n            self.error(str(e))\n            # raise\n", "        except (LookupError, ValueError, TypeError, AttributeError,\n                ArithmeticError, RuntimeError) as e:\n            self.error(str(e))\n            # raise\n",
    "a command that raises an exception of another kind, such as StopIteration or OSError", "it leaves the shell",
    V + "def f():\n    raise StopIteration('no sudoku found')\ns = shell.Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())\ns.execute(f, [], [], {})\n")
bug("c25-prepend", "C25", F, "        all_args = [d[name] for name in special_args]\n        all_args.extend(args)\n", "        all_args = args\n        all_args[:0] = [d[name] for name in special_args]\n",
    "a command inside of a loop that runs more than once", "from the second round on the arguments of the round before are given once more",
    V + "s, out, told = play('loop 2', 'set 0 0 1', 'pop', 'loop end')\nassert told.count('Error') == 2, told\nassert s.sudoku[0, 0] == 1\ns, out, told = play('loop 3', 'push', 'loop end')\nassert len(s.stack) == 3\n")
bug("c25-object", "C25", F, "                self.sudoku = result\n", "                self.sudoku = result.copy()\n",
    "a command that returns a sudoku with candidates", "the candidates are lost",
    V + "t = Sudoku()\nt.set_candidates(0, 0, {1, 2})\ns = shell.Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())\ns.execute(lambda: t, [], [], {})\nassert set(s.sudoku.get_candidates(0, 0)) == {1, 2}\n")
bug("c25-end", "C25", F, "                    elif value in SHELL_KEYWORDS:\n", "                    elif value.lower() in SHELL_KEYWORDS:\n",
    "a word that is 'end' but for the case of its letters", "it is taken for a keyword instead of being reported",
    V + "try:\n    shell.parse('loop End')\nexcept ValueError:\n    pass\nelse:\n    raise AssertionError\n")
