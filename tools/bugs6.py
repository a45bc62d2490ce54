import runpy, os
_n = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
bug = _n["bug"]
BUGS = _n["BUGS"]
BUGS.clear()
V = """import io
from sudokutools.shell import Shell
def shell():
    return Shell(interactive=True, infile=io.StringIO(), outfile=io.StringIO())
s = shell()
"""
bug("c19-push", "C19", "shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))\n", "        self.stack.append(self.sudoku.copy(include_candidates=not self.stack))\n",
    "pushing a sudoku with candidates onto a stack that is not empty", "the candidates of the second snapshot are lost", V + """s.execute_line("set_candidates 0 0 (1,2)")
s.execute_line("push")
s.execute_line("push")
s.execute_line("pop")
assert s.sudoku.get_candidates(0, 0) == {1, 2}
s.execute_line("pop")
assert s.sudoku.get_candidates(0, 0) == {1, 2}
""")
bug("c19-live", "C19", "shell.py", "        self.sudoku = self.stack.pop(position)\n", "        self.sudoku = self.stack.pop(position)\n        if self.stack and position < len(self.stack):\n            self.sudoku = self.stack[position]\n",
    "popping from the middle of the stack", "the neighbour of the snapshot becomes current and stays on the stack", V + """for i in range(1, 5):
    s.execute_line("set 0 0 %d" % i)
    s.execute_line("push")
s.execute_line("pop 1")
assert s.sudoku[0, 0] == 2 and [x[0, 0] for x in s.stack] == [1, 3, 4]
""")
bug("c19-position", "C19", "shell.py", "                assert 0 <= position < len(self.stack)\n", "                assert -len(self.stack) < position < len(self.stack)\n",
    "a negative position on a stack of at least two", "a snapshot is popped instead of an error being reported", V + """for i in range(1, 5):
    s.execute_line("set 0 0 %d" % i)
    s.execute_line("push")
s.execute_line("pop -2")
assert s.sudoku[0, 0] == 4 and len(s.stack) == 4
""")
bug("c19-cleared", "C19", "shell.py", "            for _ in range(self.__loop_n):\n                for command in self.__loop_command_list:\n                    self.execute(*command)\n\n            self.__loop_n = None\n            self.__loop_command_list = []\n",
    "            commands = self.__loop_command_list\n            for _ in range(self.__loop_n):\n                for command in commands:\n                    self.execute(*command)\n\n            self.__loop_n = None\n            if len(commands) > 1:\n                self.__loop_command_list = []\n",
    "a second loop after a loop over a single command", "the second loop runs the first one's command again", V + """s.execute_line("loop 2;push;loop end")
assert len(s.stack) == 2
s.execute_line("loop 2;set 0 0 5;stack;loop end")
assert len(s.stack) == 2, s.stack
""")
bug("c19-rounds", "C19", "shell.py", "            for _ in range(self.__loop_n):\n                for command in self.__loop_command_list:\n                    self.execute(*command)\n",
    "            for command in self.__loop_command_list:\n                for _ in range(self.__loop_n):\n                    self.execute(*command)\n",
    "a loop over two commands with different effects", "each command is repeated before the next is run", V + """s.execute_line("loop 2;push;pop;loop end")
assert len(s.stack) == 0
s.execute_line("set 0 0 1;push;push;loop 2;set 0 0 4;pop;loop end")
assert s.sudoku[0, 0] == 1 and len(s.stack) == 0
s.execute_line("set 0 0 1;push;loop 2;push;set 0 0 7;loop end")
assert [x[0, 0] for x in s.stack] == [1, 1, 7]
""")
bug("c19-once", "C19", "shell.py", "                elif self.__loop_n and command[0] != Shell.loop_command:\n", "                elif self.__loop_n and command[0] != Shell.loop_command and command not in self.__loop_command_list[-1:]:\n",
    "recording the same command twice in a row", "the second is executed at once instead of recorded", V + """s.execute_line("loop 2;push;push;loop end")
assert len(s.stack) == 4, len(s.stack)
""")
bug("c19-pieces", "C19", "shell.py", "        for s in line.split(';'):\n", "        for s in line.split(';', 3):\n",
    "five or more commands in a line", "the last ones are taken for one command", V + """s.execute_line("push;push;push;push;push;push")
assert len(s.stack) == 6, len(s.stack)
""")
