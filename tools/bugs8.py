import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
V = """import io, sys
import sudokutools.shell as shell
def play(text, interactive=True):
    f = io.StringIO(text)
    s = shell.Shell(interactive=interactive, infile=f, outfile=io.StringIO())
    sys.stderr = io.StringIO()
    s.run()
    sys.stderr = sys.__stderr__
    return s, f.read()
"""
bug("c24-comment", "C24", "shell.py", "                idx = line.find('#')\n                if idx >= 0:\n                    line = line[:idx]\n\n                # remove whitespace\n                line = line.strip()\n",
    "                line = line.strip()\n                idx = line.find('#')\n                if idx >= 0:\n                    line = line[:idx]\n",
    "a line that ends with a backslash, a blank and a comment", "the line is not continued",
    V + "s, _ = play('set 1 \\\\ # the row\\n 2 5\\n')\nassert s.sudoku[1, 2] == 5\n")
bug("c24-blank", "C24", "shell.py", "                line = line.strip()\n\n", "                line = line.strip()\n                if lines and not line:\n                    continue\n\n",
    "a blank line (or a line with nothing but a comment) after a line that ends with a backslash", "what waits is put in front of a later line instead of being executed",
    V + "s, _ = play('push\\\\\\n\\npush\\n')\nassert len(s.stack) == 2\n")
bug("c24-rest", "C24", "shell.py", "                if not line:\n", "                if not line:\n                    if lines:\n                        self.execute_line(lines)\n",
    "an input that ends while a command line waits for its rest", "the unfinished command line is executed",
    V + "s, _ = play('push\\npush \\\\\\n')\nassert len(s.stack) == 1\n")
bug("c24-slashes", "C24", "shell.py", "                    lines += line[:-1]\n", "                    lines += line.rstrip(\"\\\\\")\n",
    "a line that ends with two backslashes", "both are dropped, a faulty command is executed",
    V + "s, _ = play('push \\\\\\\\\\n\\n')\nassert len(s.stack) == 0\n")
bug("c24-exit", "C24", "shell.py", "        lines = \"\"\n        while self.running:\n", "        lines = \"\"\n        while self.running or self.stack:\n",
    "exit with sudokus left on the stack", "the shell goes on reading and executing commands",
    V + "s, rest = play('push\\nexit\\npush\\n')\nassert len(s.stack) == 1 and rest == 'push\\n'\n")
