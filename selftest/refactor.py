"""Edits that change no behaviour: the checks have to stay quiet on each.
   python3 selftest/refactor.py [NAME…]     prints ok / ALARM per edit and check.
Every edit is a list of (old, new) on the source without comments and docstrings (as ast.unparse writes it)."""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EDITS = []


def edit(name, props, file, *pairs):
    EDITS.append((name, props.split(), file, pairs))


def plain(path):
    t = ast.parse(open(path).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t) + "\n"


# --- coordinates, sudoku
edit("coord-names", "C07 C17", "coordinates.py",
     ("grid_x = col - col % width\n    grid_y = row - row % height\n    coords = [(grid_y + i, grid_x + j) for i in range(height) for j in range(width)]",
      "left = col // width * width\n    top = row // height * height\n    coords = []\n    for i in range(height):\n        for j in range(width):\n            coords.append((top + i, left + j))"))
edit("coord-check", "C07 C17", "coordinates.py",
     ("def the_box(box, width=3, height=3):\n    if not 0 <= box < width * height:\n        raise ValueError('box must be less equal 0 and less than %d' % width * height)",
      "def _check(value, name, width, height):\n    if value < 0 or value >= width * height:\n        raise ValueError('%s is not a valid value for %s' % (value, name))\n\n\ndef the_box(box, width=3, height=3):\n    _check(box, 'box', width, height)"),
     ("    if not 0 <= row < width * height:\n        raise ValueError('row must be less equal 0 and less than %d' % width * height)\n", "    _check(row, 'row', width, height)\n"))
edit("coord-surround", "C07", "coordinates.py",
     ("    coords.extend(column_of(row, col, width, height, include))\n    coords.extend(_box_without_row_and_column_of(row, col, width, height))\n    if include:\n        coords.remove((row, col))\n    return coords",
      "    coords += column_of(row, col, width, height, include)\n    coords += _box_without_row_and_column_of(row, col, width, height)\n    if not include:\n        return coords\n    coords.remove((row, col))\n    return coords"))
edit("sudoku-field", "C04 C06 C14 C15", "sudoku.py", ("self.__numbers", "self._grid"))
edit("sudoku-empty", "C02 C04 C06 C14", "sudoku.py",
     ("    def empty(self):\n        for row, col in self:\n            if not self.__numbers[row][col]:\n                yield (row, col)", "    def empty(self):\n        return ((row, col) for row, col in self if self[row, col] == 0)"))
edit("sudoku-empty2", "C02 C04 C11", "sudoku.py",
     ("    def empty(self):\n        for row, col in self:\n            if not self.__numbers[row][col]:\n                yield (row, col)", "    def empty(self):\n        for coord in self:\n            if self[coord]:\n                continue\n            yield coord"))
edit("sudoku-iter", "C06 C14 C15", "sudoku.py",
     ("        for row, col in product(self.indices, repeat=2):\n            yield (row, col)", "        for row in self.indices:\n            for col in self.indices:\n                yield (row, col)"))
edit("sudoku-copy", "C14 C12", "sudoku.py",
     ("        for row, col in self:\n            sudoku[row, col] = self[row, col]\n        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)\n",
      "        for row, col in self:\n            sudoku.set_number(row, col, self.get_number(row, col))\n            if include_candidates:\n                sudoku.set_candidates(row, col, self.get_candidates(row, col))\n"))
edit("sudoku-eq", "C15", "sudoku.py",
     ("            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False\n            return True\n", "            return not any((self[row, col] != other[row, col] for row, col in self))\n"))
edit("sudoku-equals", "C15 C23", "sudoku.py",
     ("            if candidates and self.get_candidates(row, col) != other.get_candidates(row, col):\n                return False\n        return True",
      "            if candidates:\n                mine = self.get_candidates(row, col)\n                theirs = other.get_candidates(row, col)\n                if mine != theirs:\n                    return False\n        return True"))
edit("sudoku-encode", "C16", "sudoku.py",
     ("        rows = []\n        for row in self.indices:\n            numbers = [str(self[row, col]) for col in self.indices]\n            rows.append(col_sep.join(numbers))\n        s = row_sep.join(rows)",
      "        s = row_sep.join([col_sep.join([str(self[row, col]) for col in self.indices]) for row in self.indices])"))
edit("sudoku-encode2", "C16", "sudoku.py",
     ("            all_candidates = []\n            for row, col in self:\n                clist = list(self.get_candidates(row, col))\n                cstr = ''.join([str(i) for i in sorted(clist)])\n                all_candidates.append(cstr)\n            s += '|' + ','.join(all_candidates)\n        return s",
      "            s = s + '|' + ','.join((self._candidate_str(row, col) for row, col in self))\n        return s\n\n    def _candidate_str(self, row, col):\n        return ''.join((str(i) for i in sorted(self.get_candidates(row, col))))"))
edit("sudoku-decode", "C16", "sudoku.py",
     ("        if number_sep is None:\n            special = empty + sudoku_sep + candidate_sep\n        else:\n            special = empty + sudoku_sep + candidate_sep + number_sep\n", "        special = empty + sudoku_sep + candidate_sep + (number_sep or '')\n"))
edit("sudoku-decode2", "C16", "sudoku.py",
     ("            col += 1\n            if col >= sudoku.box_width * sudoku.box_height:\n                row += 1\n                col = 0\n            if row >= sudoku.box_width * sudoku.box_height:\n                break\n",
      "            col += 1\n            if col >= len(sudoku.indices):\n                row, col = (row + 1, 0)\n                if row >= len(sudoku.indices):\n                    break\n"))
edit("sudoku-geometry", "C06 C02", "sudoku.py",
     ("        coords = self.row_of(row, col, include=include)\n        coords.extend(self.column_of(row, col, include=include))\n        coords.extend(self._quad_without_row_and_column_of(row, col))\n        if include:\n            coords.remove((row, col))\n        return coords",
      "        coords = self.row_of(row, col, include) + self.column_of(row, col, include) + self._quad_without_row_and_column_of(row, col)\n        if include:\n            coords.remove((row, col))\n        return coords"))
edit("view-cell", "C20", "sudoku.py",
     ("            if sudoku[row, col]:\n                val = str(sudoku[row, col])\n            elif not include_candidates:\n                val = ''\n            else:\n                val = candidate_prefix + number_sep.join([str(x) for x in sorted(sudoku.get_candidates(row, col))])\n", "            val = _cell(sudoku, row, col, include_candidates, number_sep, candidate_prefix)\n"),
     ("def view(sudoku,", "def _cell(sudoku, row, col, include_candidates, number_sep, candidate_prefix):\n    if sudoku[row, col]:\n        return str(sudoku[row, col])\n    if not include_candidates:\n        return ''\n    return candidate_prefix + number_sep.join([str(x) for x in sorted(sudoku.get_candidates(row, col))])\n\n\ndef view(sudoku,"))
edit("view-max", "C20", "sudoku.py",
     ("            length = len(number_sep.join([str(n) for n in sudoku.get_candidates(row, col)]))\n            length += len(candidate_prefix)\n            if length > max_field_length:\n                max_field_length = length\n",
      "            texts = [str(n) for n in sudoku.get_candidates(row, col)]\n            max_field_length = max(max_field_length, len(candidate_prefix) + len(number_sep.join(texts)))\n"))
# --- solve, dlx, analyze
edit("calc-minus", "C05 C11", "solve.py",
     ("    candidates = set(sudoku.numbers)\n    for i, j in sudoku.surrounding_of(row, col, include=False):\n        candidates.discard(sudoku[i, j])\n    return candidates", "    used = {sudoku[i, j] for i, j in sudoku.surrounding_of(row, col, include=False)}\n    return set(sudoku.numbers) - used"))
edit("calc-value", "C05 C11", "solve.py", ("    if sudoku[row, col]:\n        return {sudoku[row, col]}\n", "    value = sudoku[row, col]\n    if value != 0:\n        return set([value])\n"))
edit("brute-check", "C02 C19", "solve.py",
     ("    for row, col in sudoku:\n        value = sudoku[row, col]\n        if value:\n            for i, j in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    return\n", "    if _conflicting(sudoku):\n        return\n"),
     ("def bruteforce(sudoku):", "def _conflicting(sudoku):\n    for row, col in sudoku.filled():\n        value = sudoku[row, col]\n        if any((sudoku[i, j] == value for i, j in sudoku.surrounding_of(row, col, include=False))):\n            return True\n    return False\n\n\ndef bruteforce(sudoku):"))
edit("brute-min", "C02", "solve.py",
     ("    sorted_empty = sorted(list(sudoku.empty()), key=lambda c: len(sudoku.get_candidates(*c)))\n    try:\n        row, col = sorted_empty[0]\n    except IndexError:\n        yield sudoku\n        return\n",
      "    empty = list(sudoku.empty())\n    if not empty:\n        yield sudoku\n        return\n    row, col = min(empty, key=lambda c: len(sudoku.get_candidates(*c)))\n"))
edit("brute-saved", "C02", "solve.py",
     ("        for (i, j), value in saved_candidates.items():\n            sudoku.set_candidates(i, j, value)\n        sudoku[row, col] = 0", "        sudoku[row, col] = 0\n        for coord in saved_candidates:\n            sudoku.set_candidates(coord[0], coord[1], saved_candidates[coord])"))
edit("dlx-copy", "C01 C03", "solve.py", ("    solution = sudoku.copy()\n    for solution in do_dlx(solution):\n        yield solution.copy()", "    work = sudoku.copy()\n    for found in do_dlx(work):\n        yield found.copy()"))
edit("dlx-box", "C01 C03", "dlx.py", ("        b = r // R * R + c // C\n        Y[r, c, n] = [('rc', (r, c)), ('rn', (r, n)), ('cn', (c, n)), ('bn', (b, n))]", "        b = r - r % R + c // C\n        Y[(r, c, n)] = [('rc', (r, c)), ('rn', (r, n)), ('cn', (c, n)), ('bn', (b, n))]"))
edit("dlx-empty", "C01", "dlx.py",
     ("    if not X:\n        yield list(solution)\n    else:\n        c = min(X, key=lambda c: len(X[c]))\n        for r in list(X[c]):\n            solution.append(r)\n            cols = select(X, Y, r)\n            for s in solve(X, Y, solution):\n                yield s\n            deselect(X, Y, r, cols)\n            solution.pop()",
      "    if len(X) == 0:\n        yield solution[:]\n        return\n    column = min(X, key=lambda c: len(X[c]))\n    for r in list(X[column]):\n        solution.append(r)\n        cols = select(X, Y, r)\n        for s in solve(X, Y, solution):\n            yield s\n        deselect(X, Y, r, cols)\n        solution.pop()"))
edit("dlx-cover", "C01", "dlx.py", ("    X = {j: set() for j in X}\n    for i, row in Y.items():\n        for j in row:\n            X[j].add(i)\n    return (X, Y)", "    cover = {}\n    for j in X:\n        cover[j] = set()\n    for i in Y:\n        for j in Y[i]:\n            cover[j].add(i)\n    return (cover, Y)"))
edit("unique-list", "C03 C08", "analyze.py", ("    solutions = dlx(sudoku)\n    try:\n        next(solutions)\n    except StopIteration:\n        return False\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True", "    found = 0\n    for _ in dlx(sudoku):\n        found += 1\n        if found > 1:\n            return False\n    return found == 1"))
edit("unique-default", "C03", "analyze.py", ("    try:\n        next(solutions)\n    except StopIteration:\n        return False\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True", "    if next(solutions, None) is None:\n        return False\n    return next(solutions, None) is None"))
edit("conflicts-flat", "C04 C19 C23", "analyze.py", ("        if not value:\n            continue\n        else:\n            for i, j in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    yield ((row, col), (i, j), value)", "        if value:\n            for i, j in sudoku.surrounding_of(row, col, include=False):\n                if value == sudoku[i, j]:\n                    yield ((row, col), (i, j), value)"))
edit("solved-any", "C04", "analyze.py", ("    return not list(sudoku.empty()) and (not list(find_conflicts(sudoku)))", "    for _ in sudoku.empty():\n        return False\n    return len(list(find_conflicts(sudoku))) == 0"))
edit("rate-helper", "C13", "analyze.py", ("    steps = []\n    solve(sudoku, steps.append)\n    try:\n        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:\n        return 0", "    ratings = _ratings(sudoku)\n    if not ratings:\n        return 0\n    return max(ratings)"),
     ("    steps = []\n    solve(sudoku, steps.append)\n    return sum([RATINGS[step.__class__] for step in steps])", "    return sum(_ratings(sudoku))"),
     ("def rate(sudoku):", "def _ratings(sudoku):\n    steps = []\n    solve(sudoku, steps.append)\n    return [RATINGS[step.__class__] for step in steps]\n\n\ndef rate(sudoku):"))
# --- generate
edit("gen-undo", "C08", "generate.py", ("        for row, col in step_coords:\n            sudoku[row, col] = 0\n            count -= 1\n        if not is_unique(sudoku):\n            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n                count += 1", "        for row, col in step_coords:\n            sudoku[row, col] = 0\n        if is_unique(sudoku):\n            count -= len(step_coords)\n        else:\n            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]"))
edit("gen-first", "C08", "generate.py", ("        step_coords = set(symmetry_func(sudoku.box_width, sudoku.box_height, *coords[0]))", "        row, col = coords[0]\n        step_coords = set(symmetry_func(sudoku.box_width, sudoku.box_height, row, col))"))
edit("gen-template", "C09", "generate.py", ("    t = 0\n    while t < tries or tries < 0:\n", "    t = 0\n    while tries < 0 or t < tries:\n"), ("        if is_unique(sudoku):\n            return sudoku\n        else:\n            t += 1\n", "        if is_unique(sudoku):\n            return sudoku\n        t = t + 1\n"))
edit("gen-template2", "C09", "generate.py", ("        sudoku = solution.copy()\n        for row, col in template:\n            if not template[row, col]:\n                sudoku[row, col] = 0\n        if", "        sudoku = _masked(solution, template)\n        if"), ("def generate_from_template(", "def _masked(solution, template):\n    sudoku = solution.copy()\n    for row, col in template.empty():\n        sudoku[row, col] = 0\n    return sudoku\n\n\ndef generate_from_template("))
edit("gen-create", "C10", "generate.py", ("    numbers = list(sudoku.numbers)\n    shuffle(numbers)\n    for i, j in sudoku.box_of(row, col, include=True):\n        sudoku[i, j] = numbers.pop()\n", "    numbers = list(sudoku.numbers)\n    shuffle(numbers)\n    for (i, j), number in zip(sudoku.box_of(row, col), numbers):\n        sudoku[i, j] = number\n"))
# --- solvers
edit("step-apply", "C11 C12", "solvers.py", ("        if not self.actions:\n            self.build_actions(sudoku)\n        for action in self.actions:\n            action.func(sudoku, action.row, action.col, action.value)", "        if len(self.actions) == 0:\n            self.build_actions(sudoku)\n        for func, row, col, value in self.actions:\n            func(sudoku, row, col, value)"))
edit("naked-single", "C11 C21 C22", "solvers.py", ("            if len(candidates) == 1:\n                for value in candidates:\n                    break\n                yield cls(row, col, value)", "            if len(candidates) == 1:\n                value = list(candidates)[0]\n                yield cls(row, col, value)"))
edit("hidden-single", "C11 C21 C22", "solvers.py", ("        yielded_coords = []\n        for row, col in sudoku.empty():\n            for f in", "        yielded_coords = set()\n        for row, col in sudoku.empty():\n            for f in"), ("                    if (row, col) not in yielded_coords:\n                        yielded_coords.append((row, col))\n                        yield cls(row, col, value)\n                        found", "                    if (row, col) not in yielded_coords:\n                        yielded_coords.add((row, col))\n                        yield cls(row, col, value)\n                        found"))
edit("pointing-helper", "C11 C21", "solvers.py", ("                affected = [(r, c) for r, c in sudoku.row_of(*clues[0]) if (r, c) not in clues and candidate in sudoku.get_candidates(r, c)]\n            elif", "                affected = _having(sudoku, sudoku.row_of(*clues[0]), clues, candidate)\n            elif"),
     ("class PointingTuple(SolveStep):", "def _having(sudoku, coords, clues, candidate):\n    return [(r, c) for r, c in coords if (r, c) not in clues and candidate in sudoku.get_candidates(r, c)]\n\n\nclass PointingTuple(SolveStep):"))
edit("fish-count", "C11 C21", "solvers.py", ("            if min(other_counts.values()) < 2:\n                continue\n            if len(other_counts) > cls.n:\n                continue\n", "            if min(other_counts.values()) < 2 or len(other_counts) > cls.n:\n                continue\n"))
edit("tuple-affected", "C11 C21", "solvers.py", ("                affected = [(r, c) for r, c in coords if (r, c) not in fields and set(all_candidates) & sudoku.get_candidates(r, c)]\n                if affected:\n                    step = cls(clues=fields, affected=affected, values=all_candidates)\n                    yield step", "                affected = []\n                for r, c in coords:\n                    if (r, c) in fields:\n                        continue\n                    if all_candidates & sudoku.get_candidates(r, c):\n                        affected.append((r, c))\n                if affected:\n                    yield cls(clues=fields, affected=affected, values=all_candidates)"))
edit("solve-loop", "C12 C13", "solvers.py", ("            count = 0\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                count += 1\n            if count > 0:\n                break", "            found = False\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                found = True\n            if found:\n                break"))
edit("hints-from", "C21 C19 C23", "solvers.py", ("        if solver == Bruteforce:\n            continue\n        for step in solver.find(sudoku):\n            yield step", "        if solver != Bruteforce:\n            for step in solver.find(sudoku):\n                yield step"))
edit("single-actions", "C11 C21", "solvers.py", ("        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in sudoku.get_candidates(i, j):\n                self.actions.append(Action(Sudoku.remove_candidates, i, j, {value}))", "        peers = sudoku.surrounding_of(row, col, include=False)\n        self.actions.extend([Action(Sudoku.remove_candidates, i, j, {value}) for i, j in peers if value in sudoku.get_candidates(i, j)])"))
# --- notation, actions
edit("not-size", "C17 C18", "notation.py", ("    length = width * height\n    if not nsep:\n        if length > 9:\n            nsep = ','\n        else:\n            nsep = ''\n    if not any", "    nsep = nsep or (',' if width * height > 9 else '')\n    if not any"))
edit("not-groups", "C17 C18", "notation.py", ("            for i, g in enumerate(group.split(sep + c)):\n                if i > 0:\n                    new_groups.append(c + g)\n                else:\n                    new_groups.append(g)\n", "            parts = group.split(sep + c)\n            new_groups.append(parts[0])\n            for g in parts[1:]:\n                new_groups.append(c + g)\n"))
edit("not-numbers", "C17 C18", "notation.py", ("            if current:\n                if not nsep:\n                    numbers = [int(n) - 1 for n in number_str]\n                else:\n                    numbers = [int(n) - 1 for n in number_str.split(nsep)]\n                if not numbers:", "            if current:\n                numbers = _numbers(number_str, nsep)\n                if not numbers:"), ("def _decode_single(", "def _numbers(number_str, nsep):\n    if not nsep:\n        return [int(n) - 1 for n in number_str]\n    return [int(n) - 1 for n in number_str.split(nsep)]\n\n\ndef _decode_single("))
edit("not-shorter", "C17 C18", "notation.py", ("        if len(box_str) < len(row_str):\n            return box_str\n        else:\n            return row_str\n", "        return box_str if len(box_str) < len(row_str) else row_str\n"))
edit("act-encode", "C18", "notation.py", ("        s = encode(action.coordinates, width=width, height=height)\n        s += '=' + str(action.number)\n        return s\n", "        return encode(action.coordinates, width, height) + '=' + str(action.number)\n"))
edit("act-number", "C18", "actions.py", ("        for row, col in self.coordinates:\n            sudoku.set_number(row, col, self.number)\n            sudoku.set_candidates(row, col, {self.number})", "        number = self.number\n        for coord in self.coordinates:\n            sudoku[coord] = number\n            sudoku.set_candidates(coord[0], coord[1], [number])"))
# --- shell
edit("shell-end", "C19", "shell.py", ("class Shell(object):", "class Shell(object):  # the shell"))
edit("game-rename", "C23", "shell.py", ("            splitted = line.split()\n            command = splitted[0] if splitted else ''\n", "            words = line.split()\n            command = words[0] if words else ''\n"))
edit("game-record", "C23", "shell.py", ("                if not sudoku.equals(self.sudokus[self.index], candidates=True):\n                    self.sudokus = self.sudokus[:self.index + 1]\n                    self.sudokus.append(sudoku)\n                    self.index += 1", "                self._record(sudoku)"), ("    def autofill(self,", "    def _record(self, sudoku):\n        if sudoku.equals(self.sudokus[self.index], candidates=True):\n            return\n        del self.sudokus[self.index + 1:]\n        self.sudokus.append(sudoku)\n        self.index += 1\n\n    def autofill(self,"))
edit("game-step", "C23", "shell.py", ("                if self.index == 0:\n                    print('Nothing to undo.')\n                else:\n                    self.index -= 1", "                if self.index > 0:\n                    self.index -= 1\n                else:\n                    print('Nothing to undo.')"))
edit("game-autofill", "C23", "shell.py", ("                    surr = sudoku.surrounding_of(row, col, False)\n                    coordinates = []\n                    for r, c in surr:\n                        cand = sudoku.get_candidates(r, c)\n                        if value in cand:\n", "                    coordinates = []\n                    for r, c in sudoku.surrounding_of(row, col, include=False):\n                        if value in sudoku.get_candidates(r, c):\n"))
# --- a second batch
edit("b-empty-all", "C02 C04 C06", "sudoku.py",
     ("    def empty(self):\n        for row, col in self:\n            if not self.__numbers[row][col]:\n                yield (row, col)\n\n    def filled(self):\n        for row, col in self:\n            if self.__numbers[row][col]:\n                yield (row, col)\n\n    def count(self):\n        return len(list(self.filled()))",
      "    def _fields(self, filled):\n        for row, col in self:\n            if bool(self.__numbers[row][col]) == filled:\n                yield (row, col)\n\n    def empty(self):\n        return self._fields(False)\n\n    def filled(self):\n        return self._fields(True)\n\n    def count(self):\n        return sum(1 for _ in self.filled())"))
edit("b-count-rows", "C06 C14", "sudoku.py",
     ("        return len(list(self.filled()))", "        total = 0\n        for line in self.__numbers:\n            for value in line:\n                if value:\n                    total += 1\n        return total"))
edit("b-iter-nested", "C06 C04 C16", "sudoku.py",
     ("        for row, col in product(self.indices, repeat=2):\n            yield (row, col)", "        for row in self.indices:\n            for col in self.indices:\n                yield row, col"))
edit("b-copy-one", "C14 C12 C10", "sudoku.py",
     ("        for row, col in self:\n            sudoku[row, col] = self[row, col]\n        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)\n",
      "        for row, col in self:\n            sudoku[row, col] = self[row, col]\n            if include_candidates:\n                sudoku.set_candidates(row, col, self.get_candidates(row, col))\n"))
edit("b-diff-equals", "C15", "sudoku.py",
     ("        for row, col in self:\n            if self[row, col] != other[row, col]:\n                return False\n            if candidates and self.get_candidates(row, col) != other.get_candidates(row, col):\n                return False\n        return True",
      "        for _ in self.diff(other):\n            return False\n        if candidates:\n            for row, col in self:\n                if self.get_candidates(row, col) != other.get_candidates(row, col):\n                    return False\n        return True"))
edit("b-eq-all", "C15", "sudoku.py",
     ("            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False\n            return True\n        except",
      "            return all(self[row, col] == other[row, col] for row, col in self)\n        except"))
edit("b-box-helper", "C06 C02 C11", "sudoku.py",
     ("    def box_of(self, row, col, include=True):\n        grid_x = col - col % self.box_width\n        grid_y = row - row % self.box_height\n        coords = [(grid_y + i, grid_x + j) for i in range(self.box_height) for j in range(self.box_width)]\n",
      "    def _box_origin(self, row, col):\n        return row - row % self.box_height, col - col % self.box_width\n\n    def box_of(self, row, col, include=True):\n        grid_y, grid_x = self._box_origin(row, col)\n        coords = [(grid_y + i, grid_x + j) for i in range(self.box_height) for j in range(self.box_width)]\n"),
     ("    def _quad_without_row_and_column_of(self, row, col):\n        grid_x = col - col % self.box_width\n        grid_y = row - row % self.box_height\n", "    def _quad_without_row_and_column_of(self, row, col):\n        grid_y, grid_x = self._box_origin(row, col)\n"))
edit("b-box-include", "C06 C22", "sudoku.py",
     ("        coords = [(grid_y + i, grid_x + j) for i in range(self.box_height) for j in range(self.box_width)]\n        if not include:\n            coords.remove((row, col))\n        return coords",
      "        coords = []\n        for i in range(self.box_height):\n            for j in range(self.box_width):\n                coord = (grid_y + i, grid_x + j)\n                if include or coord != (row, col):\n                    coords.append(coord)\n        return coords"))
edit("b-surr-order", "C06 C05", "sudoku.py",
     ("        coords = self.row_of(row, col, include=include)\n        coords.extend(self.column_of(row, col, include=include))\n        coords.extend(self._quad_without_row_and_column_of(row, col))\n        if include:\n            coords.remove((row, col))\n        return coords",
      "        coords = self.row_of(row, col, include=include) + self.column_of(row, col, include=False) + self._quad_without_row_and_column_of(row, col)\n        return coords"))
edit("b-encode-comp", "C16", "sudoku.py",
     ("        rows = []\n        for row in self.indices:\n            numbers = [str(self[row, col]) for col in self.indices]\n            rows.append(col_sep.join(numbers))\n        s = row_sep.join(rows)\n",
      "        s = row_sep.join([col_sep.join([str(self[row, col]) for col in self.indices]) for row in self.indices])\n"))
edit("b-encode-cands", "C16", "sudoku.py",
     ("            for row, col in self:\n                clist = list(self.get_candidates(row, col))\n                cstr = ''.join([str(i) for i in sorted(clist)])\n                all_candidates.append(cstr)\n",
      "            for row, col in self:\n                all_candidates.append(''.join(str(i) for i in sorted(self.get_candidates(row, col))))\n"))
edit("b-decode-size", "C16", "sudoku.py",
     ("            if col >= sudoku.box_width * sudoku.box_height:\n                row += 1\n                col = 0\n            if row >= sudoku.box_width * sudoku.box_height:\n                break\n", "            if col >= size:\n                row += 1\n                col = 0\n            if row >= size:\n                break\n"),
     ("            if col == sudoku.box_width * sudoku.box_height:\n                col = 0\n                row += 1\n            if row == sudoku.box_width * sudoku.box_height:\n                break\n", "            if col == size:\n                col = 0\n                row += 1\n            if row == size:\n                break\n"),
     ("        sudoku = Sudoku(box_size=box_size)\n        col = 0\n", "        sudoku = Sudoku(box_size=box_size)\n        size = sudoku.box_width * sudoku.box_height\n        col = 0\n"))
edit("b-decode-item", "C16", "sudoku.py",
     ("            if item == empty:\n                sudoku[row, col] = 0\n            else:\n                sudoku[row, col] = int(item)\n", "            sudoku[row, col] = 0 if item == empty else int(item)\n"))
edit("b-decode-boxsize", "C16", "sudoku.py",
     ("                for i in range(2, length + 1):\n                    if length % i == 0:\n                        width = i\n                        break\n", "                width = 2\n                while width < length and length % width != 0:\n                    width += 1\n"))
edit("b-view-pad", "C20", "sudoku.py",
     ("            if align_right:\n                val = val.rjust(max_field_length)\n            else:\n                val = val.ljust(max_field_length)\n            col_str.append(val)\n", "            col_str.append(val.rjust(max_field_length) if align_right else val.ljust(max_field_length))\n"))
edit("b-view-len", "C20", "sudoku.py",
     ("            length = len(number_sep.join([str(n) for n in sudoku.get_candidates(row, col)]))\n            length += len(candidate_prefix)\n            if length > max_field_length:\n                max_field_length = length\n",
      "            text = candidate_prefix + number_sep.join([str(n) for n in sudoku.get_candidates(row, col)])\n            max_field_length = max(max_field_length, len(text))\n"))
edit("b-view-helper", "C20", "sudoku.py",
     ("def view(", "def _field_text(sudoku, row, col, include_candidates, number_sep, candidate_prefix):\n    if sudoku[row, col]:\n        return str(sudoku[row, col])\n    if not include_candidates:\n        return ''\n    return candidate_prefix + number_sep.join([str(x) for x in sorted(sudoku.get_candidates(row, col))])\n\n\ndef view("),
     ("            if sudoku[row, col]:\n                val = str(sudoku[row, col])\n            elif not include_candidates:\n                val = ''\n            else:\n                val = candidate_prefix + number_sep.join([str(x) for x in sorted(sudoku.get_candidates(row, col))])\n",
      "            val = _field_text(sudoku, row, col, include_candidates, number_sep, candidate_prefix)\n"))
edit("b-calc-comp", "C05 C11", "solve.py",
     ("    candidates = set(sudoku.numbers)\n    for i, j in sudoku.surrounding_of(row, col, include=False):\n        candidates.discard(sudoku[i, j])\n    return candidates",
      "    used = {sudoku[i, j] for i, j in sudoku.surrounding_of(row, col, include=False)}\n    return {n for n in sudoku.numbers if n not in used}"))
edit("b-init-continue", "C05 C12", "solve.py",
     ("        if not filled_only or sudoku[row, col]:\n            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))", "        if filled_only and not sudoku[row, col]:\n            continue\n        values = calc_candidates(sudoku, row, col)\n        sudoku.set_candidates(row, col, values)"))
edit("b-dlx-name", "C01 C03 C09", "solve.py",
     ("    solution = sudoku.copy()\n    for solution in do_dlx(solution):\n        yield solution.copy()", "    work = sudoku.copy()\n    for found in do_dlx(work):\n        result = found.copy()\n        yield result"))
edit("b-brute-conflict", "C02", "solve.py",
     ("def bruteforce(sudoku):\n    for row, col in sudoku:\n        value = sudoku[row, col]\n        if value:\n            for i, j in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    return\n",
      "def _has_conflict(sudoku):\n    for row, col in sudoku.filled():\n        value = sudoku[row, col]\n        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if sudoku[i, j] == value:\n                return True\n    return False\n\n\ndef bruteforce(sudoku):\n    if _has_conflict(sudoku):\n        return\n"))
edit("b-brute-minkey", "C02", "solve.py",
     ("    sorted_empty = sorted(list(sudoku.empty()), key=lambda c: len(sudoku.get_candidates(*c)))\n    try:\n        row, col = sorted_empty[0]\n    except IndexError:\n        yield sudoku\n        return\n",
      "    empty = list(sudoku.empty())\n    if not empty:\n        yield sudoku\n        return\n    row, col = min(empty, key=lambda c: len(sudoku.get_candidates(*c)))\n"))
edit("b-brute-restore", "C02", "solve.py",
     ("        for (i, j), value in saved_candidates.items():\n            sudoku.set_candidates(i, j, value)\n        sudoku[row, col] = 0", "        sudoku[row, col] = 0\n        for coord, value in saved_candidates.items():\n            sudoku.set_candidates(coord[0], coord[1], value)"))
edit("b-dlx-build", "C01", "dlx.py",
     ("    X = [('rc', rc) for rc in product(range(N), range(N))] + [('rn', rn) for rn in product(range(N), range(1, N + 1))] + [('cn', cn) for cn in product(range(N), range(1, N + 1))] + [('bn', bn) for bn in product(range(N), range(1, N + 1))]\n",
      "    X = [('rc', rc) for rc in product(range(N), range(N))]\n    for name in ('rn', 'cn', 'bn'):\n        X += [(name, x) for x in product(range(N), range(1, N + 1))]\n"))
edit("b-dlx-select", "C01", "dlx.py",
     ("        for i in X[j]:\n            for k in Y[i]:\n                if k != j:\n                    X[k].remove(i)\n        cols.append(X.pop(j))\n    return cols", "        for i in X[j]:\n            for k in Y[i]:\n                if k == j:\n                    continue\n                X[k].remove(i)\n        col = X.pop(j)\n        cols.append(col)\n    return cols"))
edit("b-dlx-solve", "C01 C03", "dlx.py",
     ("    if not X:\n        yield list(solution)\n    else:\n        c = min(X, key=lambda c: len(X[c]))\n        for r in list(X[c]):\n            solution.append(r)\n            cols = select(X, Y, r)\n            for s in solve(X, Y, solution):\n                yield s\n            deselect(X, Y, r, cols)\n            solution.pop()",
      "    if not X:\n        yield list(solution)\n        return\n    column = min(X, key=lambda c: len(X[c]))\n    for r in list(X[column]):\n        solution.append(r)\n        removed = select(X, Y, r)\n        for s in solve(X, Y, solution):\n            yield s\n        deselect(X, Y, r, removed)\n        solution.pop()"))
edit("b-dlx-order", "C01", "dlx.py",
     ("            deselect(X, Y, r, cols)\n            solution.pop()", "            solution.pop()\n            deselect(X, Y, r, cols)"))
edit("b-dlx-givens", "C01", "dlx.py",
     ("    for row, col in sudoku:\n        n = sudoku[row, col]\n        if n:\n            try:\n                select(X, Y, (row, col, n))\n            except KeyError:\n                return\n", "    try:\n        for row, col in sudoku.filled():\n            select(X, Y, (row, col, sudoku[row, col]))\n    except KeyError:\n        return\n"))
edit("b-unique-next", "C03 C08 C09", "analyze.py",
     ("    solutions = dlx(sudoku)\n    try:\n        next(solutions)\n    except StopIteration:\n        return False\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True",
      "    count = 0\n    for _ in dlx(sudoku):\n        count += 1\n        if count > 1:\n            return False\n    return count == 1"))
edit("b-unique-islice", "C03", "analyze.py",
     ("    solutions = dlx(sudoku)\n    try:\n        next(solutions)\n    except StopIteration:\n        return False\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True",
      "    from itertools import islice\n    return len(list(islice(dlx(sudoku), 2))) == 1"))
edit("b-solved-loop", "C04", "analyze.py",
     ("    return not list(sudoku.empty()) and (not list(find_conflicts(sudoku)))", "    for _ in sudoku.empty():\n        return False\n    for _ in find_conflicts(sudoku):\n        return False\n    return True"))
edit("b-conflict-names", "C04 C23", "analyze.py",
     ("    for row, col in coords:\n        value = sudoku[row, col]\n        if not value:\n            continue\n        else:\n            for i, j in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    yield ((row, col), (i, j), value)",
      "    for coord in coords:\n        value = sudoku[coord]\n        if value:\n            for other in sudoku.surrounding_of(coord[0], coord[1], include=False):\n                if sudoku[other] == value:\n                    yield (coord, other, value)"))
edit("b-score-acc", "C13", "analyze.py",
     ("    steps = []\n    solve(sudoku, steps.append)\n    return sum([RATINGS[step.__class__] for step in steps])", "    total = 0\n    steps = []\n    solve(sudoku, report=steps.append)\n    for step in steps:\n        total += RATINGS[step.__class__]\n    return total"))
edit("b-rate-default", "C13", "analyze.py",
     ("    try:\n        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:\n        return 0", "    if not steps:\n        return 0\n    return max(RATINGS[step.__class__] for step in steps)"))
edit("b-gen-for", "C08", "generate.py",
     ("        if count - len(step_coords) < min_count:\n            break\n        for row, col in step_coords:\n            sudoku[row, col] = 0\n            count -= 1\n        if not is_unique(sudoku):\n            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n                count += 1\n",
      "        new_count = count - len(step_coords)\n        if new_count < min_count:\n            break\n        for row, col in step_coords:\n            sudoku[row, col] = 0\n        if is_unique(sudoku):\n            count = new_count\n        else:\n            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n"))
edit("b-gen-helper", "C08", "generate.py",
     ("def generate(", "def _clear(sudoku, coords):\n    for row, col in coords:\n        sudoku[row, col] = 0\n\n\ndef generate("),
     ("        for row, col in step_coords:\n            sudoku[row, col] = 0\n            count -= 1\n", "        _clear(sudoku, step_coords)\n        count -= len(step_coords)\n"))
edit("b-gen-symmetry", "C08", "generate.py",
     ("    try:\n        symmetry_func = SYMMETRY[symmetry]\n    except KeyError:\n        values = ', '.join([str(key) for key in SYMMETRY])\n        raise ValueError('symmetry must be one of %s' % values)\n", "    if symmetry not in SYMMETRY:\n        values = ', '.join([str(key) for key in SYMMETRY])\n        raise ValueError('symmetry must be one of %s' % values)\n    symmetry_func = SYMMETRY[symmetry]\n"))
edit("b-template-empty", "C09", "generate.py",
     ("        for row, col in template:\n            if not template[row, col]:\n                sudoku[row, col] = 0\n        if is_unique(sudoku):\n            return sudoku\n        else:\n            t += 1\n", "        for row, col in template.empty():\n            sudoku[row, col] = 0\n        if is_unique(sudoku):\n            return sudoku\n        t += 1\n"))
edit("b-create-zip", "C10", "generate.py",
     ("    for i, j in sudoku.box_of(row, col, include=True):\n        sudoku[i, j] = numbers.pop()\n    return next(dlx(sudoku))", "    for coord, number in zip(sudoku.box_of(row, col), numbers):\n        sudoku[coord] = number\n    solutions = dlx(sudoku)\n    return next(solutions)"))
edit("b-act-remove", "C18", "actions.py",
     ("        for row, col in self.coordinates:\n            sudoku.remove_candidates(row, col, self.candidates)", "        candidates = self.candidates\n        for coord in self.coordinates:\n            row, col = coord\n            sudoku.remove_candidates(row, col, candidates)"))
edit("b-calc-find", "C11 C21 C12", "solvers.py",
     ("            if sudoku.get_candidates(row, col):\n                continue\n            values = calc_candidates(sudoku, row, col)\n            yield cls(((row, col),), ((row, col),), values)", "            if not sudoku.get_candidates(row, col):\n                field = ((row, col),)\n                yield cls(field, field, calc_candidates(sudoku, row, col))"))
edit("b-naked-next", "C11 C21 C22", "solvers.py",
     ("                for value in candidates:\n                    break\n                yield cls(row, col, value)", "                yield cls(row, col, next(iter(candidates)))"))
edit("b-hidden-helper", "C11 C21 C22", "solvers.py",
     ("                candidates = set(sudoku.numbers)\n                for i, j in f(row, col, include=False):\n                    candidates -= sudoku.get_candidates(i, j)\n", "                candidates = _unseen(sudoku, f(row, col, include=False))\n"),
     ("class HiddenSingle(", "def _unseen(sudoku, coords):\n    numbers = set(sudoku.numbers)\n    for i, j in coords:\n        numbers -= sudoku.get_candidates(i, j)\n    return numbers\n\n\nclass HiddenSingle("))
edit("b-brute-diff", "C11 C21 C12", "solvers.py",
     ("        try:\n            solution = next(dlx(sudoku))\n        except StopIteration:\n            return\n        for row, col in sudoku.diff(solution):", "        solution = next(dlx(sudoku), None)\n        if solution is None:\n            return\n        for row, col in sudoku.diff(solution):"))
edit("b-tuple-cands", "C11 C21", "solvers.py",
     ("            all_candidates = set()\n            for row, col in fields:\n                all_candidates |= sudoku.get_candidates(row, col)\n            if len(all_candidates) <= cls.n:\n                affected", "            all_candidates = set().union(*[sudoku.get_candidates(row, col) for row, col in fields])\n            if len(all_candidates) <= cls.n:\n                affected"))
edit("b-tuple-early", "C11 C21", "solvers.py",
     ("            if len(all_candidates) <= cls.n:\n                affected = [(r, c) for r, c in coords if (r, c) not in fields and set(all_candidates) & sudoku.get_candidates(r, c)]\n                if affected:\n                    step = cls(clues=fields, affected=affected, values=all_candidates)\n                    yield step",
      "            if len(all_candidates) > cls.n:\n                continue\n            affected = []\n            for r, c in coords:\n                if (r, c) in fields:\n                    continue\n                if all_candidates & sudoku.get_candidates(r, c):\n                    affected.append((r, c))\n            if affected:\n                yield cls(clues=fields, affected=affected, values=all_candidates)"))
edit("b-hidden-tuple", "C11 C21", "solvers.py",
     ("                for row, col in max_set:\n                    affected = [(r, c) for r, c in max_set if sudoku.get_candidates(r, c) - set(numbers)]\n                    if affected:\n                        yield cls(clues=coords, affected=affected, values=numbers)",
      "                affected = [(r, c) for r, c in max_set if sudoku.get_candidates(r, c) - set(numbers)]\n                for _ in max_set:\n                    if affected:\n                        yield cls(clues=coords, affected=affected, values=numbers)"))
edit("b-pointing-sets", "C11 C21", "solvers.py",
     ("            if len(set([r for r, c in clues])) == 1:\n                affected", "            rows = {r for r, c in clues}\n            cols = {c for r, c in clues}\n            if len(rows) == 1:\n                affected"),
     ("            elif len(set([c for r, c in clues])) == 1:", "            elif len(cols) == 1:"))
edit("b-fish-fields", "C11 C21", "solvers.py",
     ("        fields = {}\n        for i in sudoku.indices:\n            fields[i] = [(r, c) for r, c in base_func(i, i) if candidate in sudoku.get_candidates(r, c)]\n", "        fields = {i: [(r, c) for r, c in base_func(i, i) if candidate in sudoku.get_candidates(r, c)] for i in sudoku.indices}\n"))
edit("b-fish-or", "C11 C21", "solvers.py",
     ("            if min(other_counts.values()) < 2:\n                continue\n            if len(other_counts) > cls.n:\n                continue\n", "            if len(other_counts) > cls.n or min(other_counts.values()) < 2:\n                continue\n"))
edit("b-actions-unpack", "C11 C12", "solvers.py",
     ("        for action in self.actions:\n            action.func(sudoku, action.row, action.col, action.value)", "        for func, row, col, value in self.actions:\n            func(sudoku, row, col, value)"))
edit("b-solve-flag", "C12 C13", "solvers.py",
     ("            count = 0\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                count += 1\n            if count > 0:\n                break\n        else:\n            break\n    return solution",
      "            found = False\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                found = True\n            if found:\n                break\n        else:\n            return solution"))
edit("b-solve-init", "C12", "solvers.py",
     ("    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)\n    calculated = False\n", "    calculated = False\n    solution = sudoku.copy()\n    init_candidates(solution, True)\n"))
edit("b-hints-filter", "C21 C23", "solvers.py",
     ("    for solver in SOLVERS:\n        if solver == Bruteforce:\n            continue\n        for step in solver.find(sudoku):\n            yield step", "    for solver in SOLVERS:\n        if solver != Bruteforce:\n            for step in solver.find(sudoku):\n                yield step"))
edit("b-not-validate", "C17 C18", "notation.py",
     ("def encode(coordinates", "def _check_size(width, height):\n    if int(width) != width or int(height) != height:\n        raise ValueError('width and height must be round integers.')\n    elif width < 1 or height < 1:\n        raise ValueError('width and height must be >= 1.')\n\n\ndef encode(coordinates"),
     ("    if int(width) != width or int(height) != height:\n        raise ValueError('width and height must be round integers.')\n    elif width < 1 or height < 1:\n        raise ValueError('width and height must be >= 1.')\n    length = width * height\n    if not nsep:", "    _check_size(width, height)\n    length = width * height\n    if not nsep:"))
edit("b-not-parse", "C17 C18", "notation.py",
     ("def _decode_single(", "def _numbers(group, current, number_str, nsep):\n    if not nsep:\n        numbers = [int(n) - 1 for n in number_str]\n    else:\n        numbers = [int(n) - 1 for n in number_str.split(nsep)]\n    if not numbers:\n        raise ValueError(\"Malformed group '%s'. No numbers given for '%s'\" % (group, current))\n    return numbers\n\n\ndef _decode_single("),
     ("            if current:\n                if not nsep:\n                    numbers = [int(n) - 1 for n in number_str]\n                else:\n                    numbers = [int(n) - 1 for n in number_str.split(nsep)]\n                if not numbers:\n                    raise ValueError(\"Malformed group '%s'. No numbers given for '%s'\" % (group, current))\n                all_numbers[current] = numbers\n", "            if current:\n                all_numbers[current] = _numbers(group, current, number_str, nsep)\n"),
     ("    if current:\n        if not nsep:\n            numbers = [int(n) - 1 for n in number_str]\n        else:\n            numbers = [int(n) - 1 for n in number_str.split(nsep)]\n        if not numbers:\n            raise ValueError(\"Malformed group '%s'. No numbers given for '%s'\" % (group, current))\n        all_numbers[current] = numbers\n", "    if current:\n        all_numbers[current] = _numbers(group, current, number_str, nsep)\n"))
edit("b-not-text", "C17 C18", "notation.py",
     ("    s = []\n    for keys in sorted(a_dict):\n        value = a_dict[keys]\n        keys_str", "    s = []\n    for keys, value in sorted(a_dict.items()):\n        keys_str"))
edit("b-not-text2", "C17 C18", "notation.py",
     ("        keys_str = nsep.join([str(k + 1) for k in sorted(keys)])\n        value_str = nsep.join([str(v + 1) for v in sorted(value)])\n        s.append(format_str % (keys_str, value_str))\n", "        s.append(format_str % (_numbers_str(keys, nsep), _numbers_str(value, nsep)))\n"),
     ("def _dict_to_str(", "def _numbers_str(numbers, nsep):\n    return nsep.join([str(n + 1) for n in sorted(numbers)])\n\n\ndef _dict_to_str("))
edit("b-not-join", "C17 C18", "notation.py",
     ("                l = [key]\n                l.extend(keys)\n                l.sort()\n                to_add = tuple(l)\n", "                to_add = tuple(sorted([key] + list(keys)))\n"))
edit("b-decode-act", "C18", "notation.py",
     ("        left, sep, right = s.partition('=')\n        number = int(right)\n        coordinates = decode(left, width=width, height=height)\n        return SetNumber(coordinates, number)", "        left, _, right = s.partition('=')\n        return SetNumber(decode(left, width=width, height=height), int(right))"))
edit("b-shell-line", "C19", "shell.py",
     ("                if command[0] == Shell.exit_command:\n                    self.execute(*command)\n                elif self.__loop_n and command[0] != Shell.loop_command:\n                    self.__loop_command_list.append(command)\n                else:\n                    self.execute(*command)\n", "                if self.__loop_n and command[0] != Shell.exit_command and command[0] != Shell.loop_command:\n                    self.__loop_command_list.append(command)\n                else:\n                    self.execute(*command)\n"))
edit("b-shell-loop", "C19", "shell.py",
     ("            for _ in range(self.__loop_n):\n                for command in self.__loop_command_list:\n                    self.execute(*command)\n", "            count = self.__loop_n\n            while count > 0:\n                for command in self.__loop_command_list:\n                    self.execute(*command)\n                count -= 1\n"))
edit("b-shell-pop", "C19", "shell.py",
     ("            try:\n                position = int(position)\n                assert 0 <= position < len(self.stack)\n            except (ValueError, AssertionError):\n                return self.error('0 <= position < %d' % len(self.stack))\n        self.sudoku = self.stack.pop(position)", "            try:\n                position = int(position)\n            except ValueError:\n                position = -1\n            if position < 0 or position >= len(self.stack):\n                return self.error('0 <= position < %d' % len(self.stack))\n        self.sudoku = self.stack.pop(position)"))
edit("b-shell-push", "C19", "shell.py",
     ("        self.stack.append(self.sudoku.copy(include_candidates=True))", "        saved = self.sudoku.copy(include_candidates=True)\n        self.stack.append(saved)"))
edit("b-parse-part", "C25", "shell.py",
     ("                name, value = item.split('=', 1)\n                kwargs[name] = literal_eval(value)", "                name, _, value = item.partition('=')\n                kwargs[name] = literal_eval(value)"))
edit("b-parse-entry", "C25", "shell.py",
     ("    try:\n        entry = COMMANDS[funcname]\n    except KeyError:\n        raise KeyError(\"Unknown command: %s. Type 'help' for a list of commands.\" % funcname)\n", "    if funcname not in COMMANDS:\n        raise KeyError(\"Unknown command: %s. Type 'help' for a list of commands.\" % funcname)\n    entry = COMMANDS[funcname]\n"))
edit("b-parse-value", "C25", "shell.py",
     ("def parse(s):\n", "def _argument(word):\n    if word in COMMANDS:\n        return Command(word)\n    if word in SHELL_KEYWORDS:\n        return Keyword(word)\n    return literal_eval(word)\n\ndef parse(s):\n"),
     ("                if value in COMMANDS:\n                    args.append(Command(value))\n                elif value in SHELL_KEYWORDS:\n                    args.append(Keyword(value))\n                else:\n                    args.append(literal_eval(value))\n", "                args.append(_argument(value))\n"))
edit("b-parse-special", "C25", "shell.py",
     ("    for name in entry[1:]:\n        if name not in SPECIAL_ARGS:\n            raise ValueError(\"Unknown special name '%s'\" % name)\n        else:\n            special_args.append(name)\n", "    special_args = list(entry[1:])\n    for name in special_args:\n        if name not in SPECIAL_ARGS:\n            raise ValueError(\"Unknown special name '%s'\" % name)\n"))
edit("b-parse-continue", "C25", "shell.py",
     ("                name, value = item.split('=', 1)\n                kwargs[name] = literal_eval(value)\n            else:\n                value = item\n                if value in COMMANDS:\n                    args.append(Command(value))\n                elif value in SHELL_KEYWORDS:\n                    args.append(Keyword(value))\n                else:\n                    args.append(literal_eval(value))\n", "                name, value = item.split('=', 1)\n                kwargs[name] = literal_eval(value)\n                continue\n            value = item\n            if value in COMMANDS:\n                arg = Command(value)\n            elif value in SHELL_KEYWORDS:\n                arg = Keyword(value)\n            else:\n                arg = literal_eval(value)\n            args.append(arg)\n"))
edit("b-parse-early", "C25", "shell.py",
     ("    items = s.split(' ')\n    funcname = items[0]\n    for item in items[1:]:\n", "    words = s.split(' ')\n    funcname, words = words[0], words[1:]\n    for item in words:\n"))
edit("b-parse-star", "C25", "shell.py",
     ("    func = entry[0]\n    for name in entry[1:]:\n", "    func, names = entry[0], entry[1:]\n    for name in names:\n"))
edit("b-parse-index", "C25", "shell.py",
     ("                name, value = item.split('=', 1)\n", "                idx = item.find('=')\n                name = item[:idx]\n                value = item[idx + 1:]\n"))
edit("b-exec-none", "C25", "shell.py",
     ("            elif result is None:\n                pass\n            else:\n                self._print(result)\n", "            elif result is not None:\n                self._print(result)\n"))
edit("b-exec-plus", "C25", "shell.py",
     ("        all_args = [d[name] for name in special_args]\n        all_args.extend(args)\n", "        all_args = [d[name] for name in special_args] + list(args)\n"))
edit("b-exec-loop", "C25", "shell.py",
     ("        all_args = [d[name] for name in special_args]\n        all_args.extend(args)\n", "        all_args = []\n        for name in special_args:\n            all_args.append(d[name])\n        for arg in args:\n            all_args.append(arg)\n"))
edit("b-exec-two", "C25", "shell.py",
     ("        all_args = [d[name] for name in special_args]\n        all_args.extend(args)\n", "        first = [d[name] for name in special_args]\n"),
     ("func(*all_args, **kwargs)", "func(*first, *args, **kwargs)"))
edit("b-exec-if", "C25", "shell.py",
     ("        d = {'sudoku': self.sudoku, 'shell': self}\n        all_args = [d[name] for name in special_args]\n", "        all_args = [self if name == 'shell' else self.sudoku for name in special_args]\n"))
edit("b-exec-return", "C25", "shell.py",
     ("            result = func(*all_args, **kwargs)\n            if isinstance(result, Sudoku):\n                self.sudoku = result\n            elif result is None:\n                pass\n            else:\n                self._print(result)\n        except Exception as e:\n            self.error(str(e))\n", "            result = func(*all_args, **kwargs)\n            if result is None:\n                return\n            if isinstance(result, Sudoku):\n                self.sudoku = result\n            else:\n                self._print(result)\n        except Exception as e:\n            self.error(str(e))\n"))
edit("b-exec-else", "C25", "shell.py",
     ("            result = func(*all_args, **kwargs)\n            if isinstance(result, Sudoku):\n                self.sudoku = result\n            elif result is None:\n                pass\n            else:\n                self._print(result)\n        except Exception as e:\n            self.error(str(e))\n", "            result = func(*all_args, **kwargs)\n            self._take(result)\n        except Exception as e:\n            self.error(str(e))\n\n    def _take(self, result):\n        if isinstance(result, Sudoku):\n            self.sudoku = result\n        elif result is not None:\n            self._print(result)\n"))
edit("b-exec-print", "C25", "shell.py",
     ("        self.outfile.write(str(s) + end)\n", "        text = str(s) + end\n        self.outfile.write(text)\n"))
edit("b-line-both", "C25 C19", "shell.py",
     ("            except KeyError as e:\n                self.error(e)\n            except ValueError as e:\n                self.error(e)\n", "            except (KeyError, ValueError) as e:\n                self.error(e)\n"))
edit("b-solve-it", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        solutions = bruteforce(sudoku)\n        return next(solutions)\n'))
edit("b-solve-for", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        for solution in bruteforce(sudoku):\n            return solution\n        raise StopIteration()\n'))
edit("b-solve-copy", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        solution = next(bruteforce(sudoku.copy()))\n        return solution\n'))
edit("b-solve-try", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        try:\n            return next(bruteforce(sudoku))\n        except StopIteration:\n            raise StopIteration("No solution found.")\n'))
edit("b-solve-none", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        solution = next(bruteforce(sudoku), None)\n        if solution is None:\n            raise StopIteration\n        return solution\n'))
edit("b-solve-iter", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        return next(iter(bruteforce(sudoku)))\n'))
edit("b-solve-dlx", "C26", "shell.py",
     ('        return next(bruteforce(sudoku))\n', '        from sudokutools.solve import dlx\n        return next(dlx(sudoku))\n'))
edit("b-import-brute", "C26", "shell.py",
     ("        return next(bruteforce(sudoku))\n", "        from sudokutools.solve import bruteforce as search\n        return next(search(sudoku))\n"))
edit("c-dlx-deselect", "C01", "dlx.py",
     ("        X[j] = cols.pop()\n        for i in X[j]:\n", "        rows = cols.pop()\n        X[j] = rows\n        for i in rows:\n"))
edit("c-dlx-column", "C01", "dlx.py",
     ("        c = min(X, key=lambda c: len(X[c]))\n        for r in list(X[c]):\n", "        column = min(X, key=lambda name: len(X[name]))\n        rows = list(X[column])\n        for r in rows:\n"))
edit("c-dlx-return", "C01", "dlx.py",
     ("    if not X:\n        yield list(solution)\n    else:\n", "    if len(X) == 0:\n        yield list(solution)\n    else:\n"))
edit("c-gen-limit", "C08", "generate.py",
     ("    count_limit = box_size[0] ** 2 * box_size[1] ** 2\n", "    width, height = box_size\n    count_limit = (width * height) ** 2\n"))
edit("c-gen-restore", "C08", "generate.py",
     ("        if not is_unique(sudoku):\n            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n                count += 1\n", "        if is_unique(sudoku):\n            continue\n        for row, col in step_coords:\n            sudoku[row, col] = solution[row, col]\n            count += 1\n"))
edit("c-gen-new", "C08", "generate.py",
     ("        if count - len(step_coords) < min_count:\n            break\n", "        if count < min_count + len(step_coords):\n            break\n"))
edit("c-template-for", "C09", "generate.py",
     ("        if is_unique(sudoku):\n            return sudoku\n        else:\n            t += 1\n", "        t += 1\n        if is_unique(sudoku):\n            return sudoku\n"))
edit("c-create-choice", "C10", "generate.py",
     ("    numbers = list(sudoku.numbers)\n    shuffle(numbers)\n    for i, j in sudoku.box_of(row, col, include=True):\n", "    numbers = [n for n in sudoku.numbers]\n    shuffle(numbers)\n    for i, j in sudoku.box_of(row, col):\n"))
edit("c-step-apply", "C11", "solvers.py",
     ("        for action in self.actions:\n            action.func(sudoku, action.row, action.col, action.value)\n", "        for func, row, col, value in self.actions:\n            func(sudoku, row, col, value)\n"))
edit("c-fish-other", "C11", "solvers.py",
     ("            other_offset = (offset + 1) % 2\n", "            other_offset = 1 - offset\n"))
edit("c-fish-count", "C11", "solvers.py",
     ("            if min(other_counts.values()) < 2:\n                continue\n            if len(other_counts) > cls.n:\n                continue\n", "            if min(other_counts.values()) < 2 or len(other_counts) > cls.n:\n                continue\n"))
edit("c-pointing-cond", "C11", "solvers.py",
     ("            if len(clues) != cls.n:\n                continue\n            if len(set([r for r, c in clues])) == 1:\n", "            if len(clues) != cls.n:\n                continue\n            if len({r for r, _ in clues}) == 1:\n"))
edit("c-hidden-order", "C22", "solvers.py",
     ("                candidates = set(sudoku.numbers)\n                for i, j in f(row, col, include=False):\n", "                others = f(row, col, include=False)\n                candidates = set(sudoku.numbers)\n                for i, j in others:\n"))
edit("c-solve-any", "C12", "solvers.py",
     ("            if count > 0:\n", "            if count:\n"))
edit("c-view-sep", "C20", "sudoku.py",
     ("        s += ' '.join(col_str)\n        if rc < field_count - 1:\n            s += '\\n'\n        if (rc + 1) % sudoku.box_height == 0 and rc < field_count - 1:\n            s += rule\n", "        s += ' '.join(col_str)\n        if rc < field_count - 1:\n            s += '\\n'\n            if (rc + 1) % sudoku.box_height == 0:\n                s += rule\n"))
edit("c-view-val", "C20", "sudoku.py",
     ("            if align_right:\n                val = val.rjust(max_field_length)\n            else:\n                val = val.ljust(max_field_length)\n            col_str.append(val)\n", "            col_str.append(val.rjust(max_field_length) if align_right else val.ljust(max_field_length))\n"))
edit("c-encode-helper", "C16", "sudoku.py",
     ("        rows = []\n        for row in self.indices:\n            numbers = [str(self[row, col]) for col in self.indices]\n            rows.append(col_sep.join(numbers))\n        s = row_sep.join(rows)\n", "        s = row_sep.join([self._row_text(row, col_sep) for row in self.indices])\n"),
     ("    def encode(self, row_sep", "    def _row_text(self, row, sep):\n        return sep.join([str(self[row, col]) for col in self.indices])\n\n    def encode(self, row_sep"))
edit("c-decode-wrap", "C16", "sudoku.py",
     ("            col += 1\n            if col >= sudoku.box_width * sudoku.box_height:\n                row += 1\n                col = 0\n", "            col += 1\n            if col == sudoku.box_width * sudoku.box_height:\n                col = 0\n                row += 1\n"))
edit("d-select-pop", "C01", "dlx.py",
     ("        cols.append(X.pop(j))\n", "        rows = X.pop(j)\n        cols.append(rows)\n"))
edit("d-cover-get", "C01", "dlx.py",
     ("            X[j].add(i)\n    return", "            covering = X[j]\n            covering.add(i)\n    return"))
edit("d-naked-next", "C22", "solvers.py",
     ("                for value in candidates:\n                    break\n                yield cls(row, col, value)\n", "                value, = candidates\n                yield cls(row, col, value)\n"))
edit("d-tuple-sub", "C11 C21", "solvers.py",
     ("            all_candidates = set()\n            for row, col in fields:\n                all_candidates |= sudoku.get_candidates(row, col)\n", "            all_candidates = set()\n            for field in fields:\n                all_candidates.update(sudoku.get_candidates(*field))\n"))
edit("d-single-box", "C11", "solvers.py",
     ("        self.actions.append(Action(Sudoku.set_number, row, col, value))\n        self.actions.append(Action(Sudoku.set_candidates, row, col, {value}))\n", "        self.actions.extend([Action(Sudoku.set_number, row, col, value), Action(Sudoku.set_candidates, row, col, {value})])\n"))
edit("d-diff-gen", "C15", "sudoku.py",
     ("        for row, col in self:\n            if self[row, col] != other[row, col]:\n                yield (row, col)\n", "        for coord in self:\n            if self[coord] != other[coord]:\n                yield coord\n"))
edit("d-equals-all", "C15", "sudoku.py",
     ("            if candidates and self.get_candidates(row, col) != other.get_candidates(row, col):\n                return False\n", "            if candidates:\n                mine = self.get_candidates(row, col)\n                if mine != other.get_candidates(row, col):\n                    return False\n"))
edit("b-line-list", "C25 C19", "shell.py",
     ("        for s in line.split(';'):\n            s = s.strip()\n", "        pieces = [s.strip() for s in line.split(';')]\n        for s in pieces:\n"))
edit("b-coord-part", "C07 C17", "coordinates.py",
     ("    return [(row + i * height, col + j * width) for i in range(width) for j in range(height)]", "    size = width * height\n    return [(r, c) for r in range(row, size, height) for c in range(col, size, width)]"))
edit("b-coord-divmod", "C07 C17", "coordinates.py",
     ("    col = part % width\n    row = part // width\n", "    row, col = divmod(part, width)\n"))
edit("b-coord-box", "C07", "coordinates.py",
     ("    coords = [(grid_y + i, grid_x + j) for i in range(height) for j in range(width)]\n    if not include:\n        coords.remove((row, col))\n    return coords", "    return [(grid_y + i, grid_x + j) for i in range(height) for j in range(width) if include or (grid_y + i, grid_x + j) != (row, col)]"))


def run(job):
    name, props, file, pairs = job
    d = tempfile.mkdtemp(prefix="refactor")
    try:
        shutil.copytree(REPO, d + "/repo", ignore=shutil.ignore_patterns(".git"))
        path = d + "/repo/sudokutools/" + file
        src = plain(path)
        for a, b in pairs:
            if a not in src:
                return name, [("?", "text not found: %s" % a[:60])]
            src = src.replace(a, b)
        open(path, "w").write(src)
        out = []
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", "--deselect", "sudokutools/tests/test_shell.py::CommandTests::test_commands_succeed", "sudokutools/tests"], cwd=d + "/repo", capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if t.returncode:
            out.append(("tests", t.stdout[-300:]))
        for p in props:
            r = subprocess.run([sys.executable, HERE + "/check.py", p], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEARCH="1"), capture_output=True, text=True)
            if r.returncode:
                out.append((p, "\n".join(x[:230] for x in r.stdout.splitlines()[:-1] if x.strip() and "VIOLATION" not in x)[:1500] or r.stderr[-500:]))
        return name, out
    finally:
        shutil.rmtree(d)


def main():
    jobs = [e for e in EDITS if not sys.argv[1:] or e[0] in sys.argv[1:]]
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for name, out in ex.map(run, jobs):
            bad += bool(out)
            print(name, "ok" if not out else "ALARM")
            for p, t in out:
                print("   ", p, t.replace("\n", "\n        "))
            sys.stdout.flush()
    print("%d edits, %d with alarms" % (len(jobs), bad))


if __name__ == "__main__":
    main()
