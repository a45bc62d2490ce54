From 1a1ea2c1d8902c352895908442f4914178b3806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 01/11] fix: let solvers.solve end on sudokus without solution

Candidates are calculated only once. Calculating them over and over again
brought back candidates, which other steps had ruled out, so solve() (and
rate() and score()) never ended for a sudoku without solution.
---
 sudokutools/solvers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..4d3edc5 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -568,9 +568,18 @@ def solve(sudoku, report=lambda step: None):
 
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
+    calculated = False
 
     while True:
         for cls in SOLVERS:
+            # Calculate candidates only once. Doing it again, would bring
+            # back candidates, which were already ruled out (and never end,
+            # if there is a field without any possible number).
+            if cls == CalculateCandidates:
+                if calculated:
+                    continue
+                calculated = True
+
             count = 0
 
             for step in cls.find(solution):
-- 
2.43.0


From ff6bd6fadfd433c780af23bc6431ad4dca8a1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 02/11] fix: compare the empty marker of Sudoku.decode by value

---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..0c93d22 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0


From 8512ba0263a0f47d56e998f9f632e2af7577de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 03/11] fix: remove whitespace from coordinate strings

str.replace() with the whole of string.whitespace as pattern never
replaced anything, so decode("r1 c1") raised ValueError.
---
 sudokutools/notation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..619c922 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -182,7 +182,8 @@ def decode(s, width=3, height=3, sep=",", nsep=""):
     # there is none present in the separators.
     if not any([c in sep for c in string.whitespace]) and \
        not any([c in nsep for c in string.whitespace]):
-        s = s.replace(string.whitespace, "")
+        for c in string.whitespace:
+            s = s.replace(c, "")
 
     # Split multiple groups.
     groups = [s]
-- 
2.43.0


From 0724190554deba093a7db507c9aa8ab3c7fa72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 04/11] fix: reject coordinates with a repeated or an empty
 last qualifier

decode("r1r2") ignored the first row, decode("r1c") ignored the column
and decode("r") raised TypeError.
---
 sudokutools/notation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 619c922..026019e 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -247,7 +247,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
 
                 all_numbers[current] = numbers
 
-            present += current
+            present += c
             number_str = ""
             current = c
 
@@ -269,6 +269,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From cb5b968baa5bd07aefe9f3ba813acce7f49789b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 05/11] fix: encode actions with integer numbers and candidates

---
 sudokutools/notation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 026019e..2d1c875 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -292,11 +292,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=" + str(action.number)
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        s += "<>" + "".join(str(c) for c in sorted(action.candidates))
+        return s
 
 
 def decode_action(s, width=3, height=3):
-- 
2.43.0


From 906505609050e17e4234e8ca15cc5d15e6cbb78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 06/11] fix: view uses the number_sep it is given

---
 sudokutools/sudoku.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 0c93d22..1760c41 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -589,10 +589,8 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        number_sep = "," if max_length > 1 else ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From f9920b2319838e7e358b69484c23a998f530b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 07/11] fix: rule lines of view fit sudokus with boxes of
 height 1

---
 sudokutools/sudoku.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 1760c41..2bf41d2 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -607,10 +607,8 @@ def view(
 
     dash_count = sudoku.box_width + sudoku.box_width * max_field_length
 
-    rule = "-" * dash_count + "+"
-    for i in range(sudoku.box_height - 2):
-        rule += "-" * (dash_count + 1) + "+"
-    rule += "-" * dash_count + "\n"
+    # a sudoku has box_height boxes side by side
+    rule = "-+-".join(["-" * (dash_count - 1)] * sudoku.box_height) + "\n"
 
     s = ""
 
-- 
2.43.0


From 33e34da5dce73959850180fbd69b8371fd6beb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 08/11] fix: settings command of the game shell shows values
 and descriptions

---
 sudokutools/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..18514e8 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -71,7 +71,7 @@ class GameShell(object):
             init_candidates(self.sudokus[0], filled_only=True)
 
     def get_setting(self, key):
-        return self.settings[key][0]
+        return self.settings[key]
 
     def run(self):
         print("sudokutools game shell %s" % __version__)
@@ -114,7 +114,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From 782be11ecb71af00ba5249227c0a67c6dd896d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 09/11] fix: an empty line does not end the game shell

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 18514e8..1325b00 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -84,7 +84,7 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
-            command = splitted[0]
+            command = splitted[0] if splitted else ""
 
             if command == "hint":
                 if self.hints is None or self.hinted_sudoku != sudoku:
-- 
2.43.0


From 35f9e6216ed75836e1f094ba3aaefa1d8d474b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 10/11] fix: a word that is no literal is reported, whatever
 literal_eval raises

ast.literal_eval may also raise TypeError (unhashable members), MemoryError
and RecursionError; those ended the shell with a traceback.
---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 1325b00..99000d2 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -248,7 +248,8 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            except (SyntaxError, ValueError, TypeError, MemoryError,
+                    RecursionError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From ad59a8f326d90e7cd7051ae25480c8c5bbe7208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 11/11] fix: results of commands that are not text are printed

get and get_candidates return an int and a set; _print tried to add the
line end to them, so the command reported a TypeError instead.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 99000d2..883bd44 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -328,7 +328,7 @@ class Shell(object):
         self.stack = []
 
     def _print(self, s, end='\n'):
-        self.outfile.write(s + end)
+        self.outfile.write(str(s) + end)
         self.outfile.flush()
 
     def error(self, s):
-- 
2.43.0

