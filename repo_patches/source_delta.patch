From b5209ae2a1dbc98be3c75e401957053213157454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 01/26] fix: count_shape matched the shape id against the
 variant in area mode

---
 noqx/rule/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/rule/shape.py b/noqx/rule/shape.py
index f7feed2..f9d3331 100644
--- a/noqx/rule/shape.py
+++ b/noqx/rule/shape.py
@@ -210,7 +210,7 @@ def count_shape(
         rule = f":- {{ {tag}(R, C, {_id}, _) }} {rop} {num}."
 
     if _type == "area":
-        rule = f":- area(A, _, _), {{ {tag}(A, R, C, _, {_id}) }} {rop} {num}."
+        rule = f":- area(A, _, _), {{ {tag}(A, R, C, {_id}, _) }} {rop} {num}."
 
     return rule
 
-- 
2.43.0


From d1187549964b4bf24196a3f63334d209dedd3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 02/26] fix: an edge marked absent (x) is not a room border in
 heyawake, heyablock and hinge

---
 solver/heyablock.py | 4 ++--
 solver/heyawake.py  | 4 ++--
 solver/hinge.py     | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/solver/heyablock.py b/solver/heyablock.py
index 64c3176..3c0ed0c 100644
--- a/solver/heyablock.py
+++ b/solver/heyablock.py
@@ -47,13 +47,13 @@ class HeyablockSolver(Solver):
                 self.add_program_line(count(("gt", 0), color="gray", _type="area", _id=i))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP)) is True]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/heyawake.py b/solver/heyawake.py
index 13ecad3..66f328a 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -153,13 +153,13 @@ class HeyawakeSolver(Solver):
                         self.add_program_line(limit_border(lmt_border, ar, puzzle, _type="right", color="gray"))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP)) is True]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/hinge.py b/solver/hinge.py
index da7e168..375b619 100644
--- a/solver/hinge.py
+++ b/solver/hinge.py
@@ -47,9 +47,9 @@ class HingeSolver(Solver):
         for r in range(1, puzzle.row):
             c = 0
             while c < puzzle.col:
-                if Point(r, c, Direction.TOP) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.TOP)) is True:
                     c0 = c
-                    while c < puzzle.col and Point(r, c, Direction.TOP) in puzzle.edge:
+                    while c < puzzle.col and puzzle.edge.get(Point(r, c, Direction.TOP)) is True:
                         self.add_program_line(f"edge_top({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r}, {c0}, "H").')
                         c += 1
@@ -59,9 +59,9 @@ class HingeSolver(Solver):
         for c in range(1, puzzle.col):
             r = 0
             while r < puzzle.row:
-                if Point(r, c, Direction.LEFT) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True:
                     r0 = r
-                    while r < puzzle.row and Point(r, c, Direction.LEFT) in puzzle.edge:
+                    while r < puzzle.row and puzzle.edge.get(Point(r, c, Direction.LEFT)) is True:
                         self.add_program_line(f"edge_left({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r0}, {c}, "V").')
                         r += 1
-- 
2.43.0


From 2a2695c797ae91f22e8d6848af9b3c9730bf153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 03/26] fix: a room clue at another inner position raised
 KeyError in country, detour and yajilin_regions

---
 solver/country.py         | 2 +-
 solver/detour.py          | 2 +-
 solver/yajilin_regions.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/country.py b/solver/country.py
index ff4e64a..5fd4c73 100644
--- a/solver/country.py
+++ b/solver/country.py
@@ -43,7 +43,7 @@ class CountrySolver(Solver):
             self.add_program_line(area_border(_id=i, src_cells=ar, edge=puzzle.edge))
             self.add_program_line(count_area_pass(1, _id=i))
             if rc:
-                num = puzzle.text[Point(*rc, Direction.CENTER, "normal")]
+                num = puzzle.text.get(Point(*rc, Direction.CENTER, "normal"))
                 if isinstance(num, int):
                     self.add_program_line(count(num, color="country_road", _type="area", _id=i))
 
diff --git a/solver/detour.py b/solver/detour.py
index 1624054..f6403a7 100644
--- a/solver/detour.py
+++ b/solver/detour.py
@@ -40,7 +40,7 @@ class DetourSolver(Solver):
             self.add_program_line(area(_id=i, src_cells=ar))
 
             if rc:
-                num = puzzle.text[Point(*rc, Direction.CENTER, "sudoku_0")]
+                num = puzzle.text.get(Point(*rc, Direction.CENTER, "sudoku_0"))
                 if isinstance(num, int):
                     self.add_program_line(f":- #count {{ R, C: area({i}, R, C), turning(R, C) }} != {num}.")
 
diff --git a/solver/yajilin_regions.py b/solver/yajilin_regions.py
index dc1d83b..6569c79 100644
--- a/solver/yajilin_regions.py
+++ b/solver/yajilin_regions.py
@@ -42,7 +42,7 @@ class YajilinRegionsSolver(Solver):
             self.add_program_line(area(_id=i, src_cells=ar))
 
             if rc:
-                num = puzzle.text[Point(*rc, Direction.CENTER, "sudoku_0")]
+                num = puzzle.text.get(Point(*rc, Direction.CENTER, "sudoku_0"))
                 if isinstance(num, int):
                     self.add_program_line(count(num, color="black", _type="area", _id=i))
 
-- 
2.43.0


From c3b17dcede8b354fdfd39b65c2ddb5d197acb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 04/26] fix: hashi ignored links crossed out by the user

---
 solver/hashi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/hashi.py b/solver/hashi.py
index 758717f..26ea383 100644
--- a/solver/hashi.py
+++ b/solver/hashi.py
@@ -83,6 +83,9 @@ class HashiSolver(Solver):
             if d.endswith("_1") and draw:
                 self.add_program_line(f':- not grid_direction({r}, {c}, "{d[0]}", 1).')
 
+            if not draw:
+                self.add_program_line(f':- grid_direction({r}, {c}, "{d[0]}", _).')
+
         self.add_program_line(display(item="grid_direction", size=4))
 
         return self.program
-- 
2.43.0


From b6363e5e0a7892f6a754769d1ccd5d695ae037b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 05/26] fix: tapa and tapaloop let their pattern tables grow
 with every request

---
 solver/tapa.py     | 24 +++++++++++++-----------
 solver/tapaloop.py | 24 ++++++++++++++----------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/solver/tapa.py b/solver/tapa.py
index 08c8742..aa0a305 100644
--- a/solver/tapa.py
+++ b/solver/tapa.py
@@ -11,8 +11,6 @@ from noqx.rule.reachable import grid_color_connected
 from noqx.rule.shape import avoid_rect
 
 direc = ((0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1))
-pattern_ref: Dict[Tuple[int, ...], List[int]] = {}
-pattern_idx: Dict[Tuple[int, ...], int] = {}
 
 
 def parse_pattern(pattern: str) -> Tuple[int, ...]:
@@ -39,20 +37,24 @@ def parse_pattern(pattern: str) -> Tuple[int, ...]:
     return tuple(sorted(result))
 
 
-def tapa_pattern_rule() -> str:
-    """Generate pattern reference dictionary and tapa pattern map."""
+def build_pattern_ref() -> Dict[Tuple[int, ...], List[int]]:
+    """Generate pattern reference dictionary."""
+    ref: Dict[Tuple[int, ...], List[int]] = {}
     for i in range(256):
         pat = bin(i)[2:].zfill(8)
-        parsed = parse_pattern(pat)
+        ref.setdefault(parse_pattern(pat), []).append(i)
+
+    return ref
+
 
-        if pattern_ref.get(parsed):
-            pattern_ref[parsed].append(i)
-        else:
-            pattern_ref[parsed] = [i]
+pattern_ref = build_pattern_ref()
+pattern_idx = {pat: i for i, pat in enumerate(pattern_ref)}
 
+
+def tapa_pattern_rule() -> str:
+    """Generate tapa pattern map."""
     rule = ""
-    for i, (pat, vals) in enumerate(pattern_ref.items()):
-        pattern_idx[pat] = i
+    for i, vals in enumerate(pattern_ref.values()):
         for v in vals:
             rule += f"valid_tapa_map({i}, {v}).\n"
 
diff --git a/solver/tapaloop.py b/solver/tapaloop.py
index 2d57557..dd5bd5e 100644
--- a/solver/tapaloop.py
+++ b/solver/tapaloop.py
@@ -12,8 +12,6 @@ from noqx.rule.reachable import grid_color_connected
 
 direc = ((-1, -1, "r"), (-1, 0, "r"), (-1, 1, "d"), (0, 1, "d"), (1, 1, "l"), (1, 0, "l"), (1, -1, "u"), (0, -1, "u"))
 direc_outer = ((-1, -1, "l"), (-1, 1, "u"), (1, 1, "r"), (1, -1, "d"))
-pattern_ref: Dict[Tuple[int, ...], List[int]] = {}
-pattern_idx: Dict[Tuple[int, ...], int] = {}
 
 
 def single_shape(*shape_d: Optional[int]) -> Optional[str]:
@@ -73,8 +71,9 @@ def parse_shape_clue(inner: Tuple[int, ...], outer: Tuple[int, ...]) -> Optional
     return tuple(sorted(clues))
 
 
-def tapaloop_pattern_rule() -> str:
-    """Generate pattern reference dictionary and tapaloop pattern map."""
+def build_pattern_ref() -> Dict[Tuple[int, ...], List[int]]:
+    """Generate pattern reference dictionary."""
+    ref: Dict[Tuple[int, ...], List[int]] = {}
     for i in range(4096):
         pat = bin(i)[2:].zfill(12)
         inner = tuple(map(int, pat[:8]))
@@ -84,14 +83,19 @@ def tapaloop_pattern_rule() -> str:
         if not parsed:
             continue
 
-        if pattern_ref.get(parsed):
-            pattern_ref[parsed].append(i)
-        else:
-            pattern_ref[parsed] = [i]
+        ref.setdefault(parsed, []).append(i)
+
+    return ref
+
 
+pattern_ref = build_pattern_ref()
+pattern_idx = {pat: i for i, pat in enumerate(pattern_ref)}
+
+
+def tapaloop_pattern_rule() -> str:
+    """Generate tapaloop pattern map."""
     rule = ""
-    for i, (pat, vals) in enumerate(pattern_ref.items()):
-        pattern_idx[pat] = i
+    for i, vals in enumerate(pattern_ref.values()):
         for v in vals:
             rule += f"valid_tapaloop_map({i}, {v}).\n"
 
-- 
2.43.0


From f6ff0e92ed58788ee3cbc12fa30e7f7f66c77744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 06/26] fix: nagare raised IndexError for wind at the border
 and KeyError for diagonal arrows

---
 solver/nagare.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/nagare.py b/solver/nagare.py
index 4acdd0d..578d067 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -16,6 +16,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
     """Generate a constraint for the wind direction."""
     if d in ("l", "r"):
         cols = range(0, c) if d == "l" else range(puzzle.col - 1, c, -1)
+        if len(cols) == 0:  # the wind blows directly out of the board
+            return ""
 
         c1, c2 = cols[0], cols[-1]
         for c_ in cols:
@@ -29,6 +31,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
     if d in ("u", "d"):
         rows = range(0, r) if d == "u" else range(puzzle.row - 1, r, -1)
+        if len(rows) == 0:  # the wind blows directly out of the board
+            return ""
 
         r1, r2 = rows[0], rows[-1]
         for r_ in rows:
@@ -68,6 +72,7 @@ class NagareSolver(Solver):
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             validate_direction(r, c, d)
             shape, style = symbol_name.split("__")
+            fail_false(style in dict_dir, f"Invalid symbol at ({r}, {c}).")
             _d = dict_dir[style]
 
             if shape == "arrow_B_B":
-- 
2.43.0


From 8e5b86494b2e3dff860b3a7f8f7b7f7f1e822e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 07/26] fix: firefly raised KeyError for a symbol without
 direction

---
 solver/firefly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index ba23ec5..93be152 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import defined, direction, display, fill_path, grid
-from noqx.rule.helper import validate_direction
+from noqx.rule.helper import fail_false, validate_direction
 from noqx.rule.loop import convert_direction_to_edge, directed_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -63,6 +63,7 @@ class FireflySolver(Solver):
             if shape != "firefly":  # pragma: no cover
                 continue  # warning: incompatible encoding with penpa+/puzz.link
 
+            fail_false(style in drdc, f"Invalid symbol at ({r}, {c}).")
             dr, dc = drdc[style]
             clue = puzzle.text.get(Point(r, c, Direction.TOP_LEFT, "normal"))  # the text is also placed in the top-left corner
 
-- 
2.43.0


From 9fcbdc28006ff9a531059396f3d21420e7587f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 08/26] fix: sudoku anti-diagonal was only right on 9x9 boards

---
 solver/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index a21eaf7..c569e9a 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -60,7 +60,7 @@ class SudokuSolver(Solver):
         if puzzle.param["diagonal"]:  # diagonal rule
             for i in range(n):
                 self.add_program_line(f"area({n + 1}, {i}, {i}).")
-                self.add_program_line(f"area({n + 2}, {i}, {8 - i}).")
+                self.add_program_line(f"area({n + 2}, {i}, {n - 1 - i}).")
 
         if puzzle.param["untouch"]:  # untouch rule
             self.add_program_line(avoid_num_adjacent(adj_type="x"))
-- 
2.43.0


From 3e1200b5674d7304cf5ca98176ac5251b51d3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 09/26] fix: sudoku raised KeyError for an unsupported board
 size

---
 solver/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index c569e9a..bdf4c52 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -36,6 +36,7 @@ class SudokuSolver(Solver):
         fail_false(puzzle.row == puzzle.col, "This puzzle must be square.")
         n = puzzle.row
         sep = {9: (3, 3), 8: (2, 4), 6: (2, 3), 4: (2, 2)}
+        fail_false(n in sep, f"Unsupported board size {n}.")
 
         self.add_program_line(grid(n, n))
         self.add_program_line(adjacent(_type="x"))
-- 
2.43.0


From d1680fd1eb56cfae8fb2c7158c1ffdd5c09c77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 10/26] fix: easyasabc raised KeyError for a clue that is not
 one of the letters

---
 solver/easyasabc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/easyasabc.py b/solver/easyasabc.py
index 51c8003..6370b84 100644
--- a/solver/easyasabc.py
+++ b/solver/easyasabc.py
@@ -37,6 +37,7 @@ class EasyAsABCSolver(Solver):
             validate_direction(r, c, d)
             validate_type(pos, "normal")
             fail_false(len(letter) == 1, f"Clue at ({r}, {c}) should be a letter.")
+            fail_false(letter in rev_letters, f"Clue at ({r}, {c}) is not one of the letters.")
 
             if r == -1 and 0 <= c < puzzle.col:
                 self.add_program_line(
-- 
2.43.0


From ed76f1f45c304f24476b70acf67938ee6ea72607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 11/26] fix: coral generated an invalid program for a clue that
 is not a number

---
 solver/coral.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/coral.py b/solver/coral.py
index 999b99b..f5f59e1 100644
--- a/solver/coral.py
+++ b/solver/coral.py
@@ -5,6 +5,7 @@ from collections import Counter
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, grid, shade_c
+from noqx.rule.helper import fail_false
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import border_color_connected, grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -64,6 +65,7 @@ class CoralSolver(Solver):
 
         for r, clue in left_clues.items():
             if clue:
+                fail_false(all(isinstance(num, int) for num in clue), f"Clues of row {r} must be integers.")
                 for num, count in Counter(clue).items():
                     self.add_program_line(f":- #count{{ C: grid({r}, C), len_horizontal({r}, C, {num}) }} != {count}.")
                 forbidden_len = ",".join([f"N != {x}" for x in Counter(clue).keys()])
@@ -71,6 +73,7 @@ class CoralSolver(Solver):
 
         for c, clue in top_clues.items():
             if clue:
+                fail_false(all(isinstance(num, int) for num in clue), f"Clues of column {c} must be integers.")
                 for num, count in Counter(clue).items():
                     self.add_program_line(f":- #count{{ R: grid(R, {c}), len_vertical(R, {c}, {num}) }} != {count}.")
                 forbidden_len = ",".join([f"N != {x}" for x in Counter(clue).keys()])
-- 
2.43.0


From f5a367710417c2f9c185656d8f9a2579bdf56109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 12/26] fix: nonogram generated an invalid program for a clue
 that is neither a number nor ?

---
 solver/nonogram.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/nonogram.py b/solver/nonogram.py
index 50544ac..1e2c7a9 100644
--- a/solver/nonogram.py
+++ b/solver/nonogram.py
@@ -5,6 +5,7 @@ from typing import Dict, Tuple, Union
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, shade_c
+from noqx.rule.helper import fail_false
 
 
 def nono_row(col: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "black"):
@@ -26,6 +27,7 @@ def nono_row(col: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "b
             constraints.append(f":- not row_count({i}, {col - 1}, {len(clue) - 1}, _).")
             for j, num in enumerate(clue):
                 if num != "?":
+                    fail_false(isinstance(num, int), f"Invalid clue {num}.")
                     slope = f"row_count({i}, C, {j}, V), row_count({i}, C + 1, {j}, 0)"
                     constraints.append(f"row_count_value_range({i}, {j}, 0..{num}).")
                     constraints.append(f":- grid({i}, C), {color}({i}, C), {slope} , V != {num}.")
@@ -54,6 +56,7 @@ def nono_col(row: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "b
             constraints.append(f":- not col_count({row}, {i}, {len(clue) - 1}, 0).")
             for j, num in enumerate(clue):
                 if num != "?":
+                    fail_false(isinstance(num, int), f"Invalid clue {num}.")
                     slope = f"col_count(R, {i}, {j}, V), col_count(R + 1, {i}, {j}, 0)"
                     constraints.append(f"col_count_value_range({i}, {j}, 0..{num}).")
                     constraints.append(f":- grid(R, {i}), {color}(R, {i}), {slope}, V != {num}.")
-- 
2.43.0


From f5420287a53229092b97cbae116bbcd000103aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 13/26] fix: tents generated an invalid program for a tree
 outside the board

---
 solver/tents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/tents.py b/solver/tents.py
index 93e18ec..4352b3f 100644
--- a/solver/tents.py
+++ b/solver/tents.py
@@ -6,7 +6,7 @@ from typing import List, Tuple
 from noqx.manager import Solver
 from noqx.puzzle import Puzzle
 from noqx.rule.common import count, display, grid, shade_c
-from noqx.rule.helper import validate_direction, validate_type
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, avoid_adjacent_color
 
 
@@ -60,6 +60,7 @@ class TentsSolver(Solver):
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             validate_direction(r, c, d)
             if symbol_name == "tents__1":
+                fail_false(0 <= r < puzzle.row and 0 <= c < puzzle.col, f"The tree at ({r}, {c}) is outside the board.")
                 all_trees.append((r, c))
                 self.add_program_line(f"not tents__2({r}, {c}).")
             if symbol_name == "tents__2":
-- 
2.43.0


From 9ad07d49b811c7262fa6bcc5da99c14193640902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 14/26] fix: ncells raised ZeroDivisionError for region size 0

---
 solver/ncells.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/ncells.py b/solver/ncells.py
index 6a2b231..3e21037 100644
--- a/solver/ncells.py
+++ b/solver/ncells.py
@@ -35,6 +35,7 @@ class NCellsSolver(Solver):
         self.reset()
         fail_false(puzzle.param["region_size"].isdigit(), "Invalid region size.")
         size = int(puzzle.param["region_size"])
+        fail_false(size > 0, "Invalid region size.")
         fail_false(puzzle.row * puzzle.col % size == 0, "It's impossible to divide grid into regions of this size!")
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(edge(puzzle.row, puzzle.col))
-- 
2.43.0


From 0a957882d5752ff1f43d8fa371f34866d8a219b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 15/26] fix: bit reachability accepted cells that reach no
 source

---
 noqx/rule/reachable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/noqx/rule/reachable.py b/noqx/rule/reachable.py
index 5a5435c..132f903 100644
--- a/noqx/rule/reachable.py
+++ b/noqx/rule/reachable.py
@@ -219,8 +219,7 @@ def grid_bit_color_connected(color: str = "black", adj_type: Union[int, str] = "
     validate_type(adj_type, (4, 8, "x", "loop", "loop_directed"))
 
     tag = tag_encode("reachable", "grid", "bit", "adj", adj_type)
-    rule = f"{{ {tag}(R, C, B) }} :- grid(R, C), {color}(R, C), bit_range(B).\n"
-    rule += f"{tag}(R, C, B) :- clue_bit(R, C, B).\n"
+    rule = f"{tag}(R, C, B) :- clue_bit(R, C, B).\n"
     rule += f"not {tag}(R, C, B) :- grid(R, C), {color}(R, C), bit_range(B), clue(R, C), not clue_bit(R, C, B).\n"
     rule += f"{tag}(R, C, B) :- {tag}(R1, C1, B), grid(R, C), bit_range(B), {color}(R, C), adj_{adj_type}(R, C, R1, C1).\n"
     rule += f"not {tag}(R, C, B) :- not {tag}(R1, C1, B), grid(R, C), grid(R1, C1), bit_range(B), {color}(R, C), {color}(R1, C1), adj_{adj_type}(R, C, R1, C1).\n"
-- 
2.43.0


From 87c69ccfe30b10f0c8b8df4ca774fdb23d90788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 16/26] fix: triplace counted the wrong borders for a
 horizontal clue over one cell

---
 solver/triplace.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/solver/triplace.py b/solver/triplace.py
index 9d37267..94799b5 100644
--- a/solver/triplace.py
+++ b/solver/triplace.py
@@ -24,7 +24,7 @@ class TriplaceSolver(Solver):
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
         fail_false((puzzle.row * puzzle.col - len(puzzle.symbol)) % 3 == 0, "The grid cannot be divided into 3-ominoes!")
-        sums: List[Tuple[int, List[Tuple[int, int]]]] = []
+        sums: List[Tuple[int, List[Tuple[int, int]], str]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             if pos == "sudoku_1" and isinstance(num, int):
@@ -35,7 +35,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_left(R, C + 1)"))
 
             if pos == "sudoku_2" and isinstance(num, int):
                 area_points: List[Tuple[int, int]] = []
@@ -45,7 +45,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_top(R + 1, C)"))
 
         self.add_program_line(defined(item="hole"))
         self.add_program_line(grid(puzzle.row, puzzle.col, with_holes=True))
@@ -68,13 +68,8 @@ class TriplaceSolver(Solver):
 
         t_be = tag_encode("belong_to_shape", "omino", 3, "grid")
         area_id = 0
-        for num, coord_list in sums:
+        for num, coord_list, edge_tag in sums:
             self.add_program_line(area(_id=area_id, src_cells=coord_list))
-
-            edge_tag = "edge_top(R + 1, C)"
-            if len(coord_list) > 1 and coord_list[0][0] == coord_list[1][0]:  # the rule is in order
-                edge_tag = "edge_left(R, C + 1)"
-
             self.add_program_line(f":- #count {{ R, C: area({area_id}, R, C), {t_be}(R, C, 0, _), {edge_tag} }} != {num}.")
             area_id += 1
 
-- 
2.43.0


From b9b29962b819d1380c29fea14e71811685e44ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 17/26] fix: yajitatami ignored arrows of an unknown direction

---
 solver/yajitatami.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/yajitatami.py b/solver/yajitatami.py
index 575a2ff..3619ade 100644
--- a/solver/yajitatami.py
+++ b/solver/yajitatami.py
@@ -20,6 +20,9 @@ def yaji_region_count(target: int, src_cell: Tuple[int, int], arrow_direction: i
     src_r, src_c = src_cell
     rule = ""
 
+    if arrow_direction not in (0, 1, 2, 3):
+        raise ValueError("Invalid direction.")
+
     if arrow_direction == 1:  # left
         rule += f":- not edge_left({src_r}, {src_c}).\n"
         rule += f":- #count {{ C1 : edge_left({src_r}, C1), C1 <= {src_c} }} != {target}."
-- 
2.43.0


From 9d8956cd4743bc54be5462f70b8a485c9a0df58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 18/26] fix: binairo swapped the row and column counts on
 boards that are not square

---
 solver/binairo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/binairo.py b/solver/binairo.py
index f5cac57..b46d594 100644
--- a/solver/binairo.py
+++ b/solver/binairo.py
@@ -48,8 +48,8 @@ class BinairoSolver(Solver):
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="circle_M__1"))
         self.add_program_line(invert_c(color="circle_M__1", invert="circle_M__2"))
-        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="row"))
-        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="col"))
+        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="row"))
+        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="col"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="row"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="col"))
         self.add_program_line(avoid_rect(1, 3, color="circle_M__1"))
-- 
2.43.0


From 1606a84501c721443d4ee148666bf0ea70be4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 19/26] fix: battleship rejected a middle part on the border of
 the board

---
 solver/battleship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 220d55e..10b3ae1 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -43,7 +43,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r}, {c - 1}), {fleet_name}({r}, {c - 1}).")
 
             if style == "2":
-                fail_false(0 < c < puzzle.col - 1 and 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
+                fail_false(0 < c < puzzle.col - 1 or 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
                 self.add_program_line(f":- #count {{ R, C: {fleet_name}(R, C), adj_4({r}, {c}, R, C) }} != 2.")
 
             if style == "3":
-- 
2.43.0


From 502afd0640208bc57dbc5a037ac2756783c58646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 20/26] fix: battleship rejected every fleet shape but the
 default one

---
 solver/battleship.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 10b3ae1..4abd7ca 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -23,7 +23,7 @@ class BattleshipSolver(Solver):
         self.reset()
         self.add_program_line(grid(puzzle.row, puzzle.col))
 
-        fleet_name = "battleship_B"  # set a default battleship fleet name
+        fleet_name = ""
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             shape, style = symbol_name.split("__")
             validate_direction(r, c, d)
@@ -66,6 +66,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r + 1}, {c}), {fleet_name}({r + 1}, {c}).")
                 self.add_program_line(f":- grid({r - 1}, {c}), not {fleet_name}({r - 1}, {c}).")
 
+        fleet_name = fleet_name or "battleship_B"  # set a default battleship fleet name
         self.add_program_line(shade_c(color=fleet_name))
         self.add_program_line(adjacent(_type=4))
         self.add_program_line(adjacent(_type="x"))
-- 
2.43.0


From 6b0550739b295f423b4d65bfdaa7b28801805164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 21/26] fix: pentopia and myopia generated an invalid program
 for a clue without arrows

---
 solver/myopia.py   | 3 ++-
 solver/pentopia.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/myopia.py b/solver/myopia.py
index f8bac48..e998d95 100644
--- a/solver/myopia.py
+++ b/solver/myopia.py
@@ -5,7 +5,7 @@ from typing import List
 from noqx.manager import Solver
 from noqx.puzzle import Puzzle
 from noqx.rule.common import direction, display, fill_path, grid, shade_c
-from noqx.rule.helper import validate_direction, validate_type
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 from noqx.rule.loop import convert_direction_to_edge, single_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -65,6 +65,7 @@ class MyopiaSolver(Solver):
 
             # direction order: top, left, bottom, right
             mask = [bool(style & 64), bool(style & 128), bool(style & 16), bool(style & 32)]
+            fail_false(any(mask), f"No arrow at ({r}, {c}).")
             self.add_program_line(opia_constraint(r, c, mask, max(puzzle.row, puzzle.col) + 1))
 
         for (r, c, d, _), draw in puzzle.edge.items():
diff --git a/solver/pentopia.py b/solver/pentopia.py
index c1c9755..63435da 100644
--- a/solver/pentopia.py
+++ b/solver/pentopia.py
@@ -5,7 +5,7 @@ from typing import List
 from noqx.manager import Solver
 from noqx.puzzle import Color, Puzzle
 from noqx.rule.common import display, grid, shade_c
-from noqx.rule.helper import tag_encode, validate_direction, validate_type
+from noqx.rule.helper import fail_false, tag_encode, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.shape import OMINOES, all_shapes, count_shape, general_shape
 
@@ -77,6 +77,7 @@ class PentopiaSolver(Solver):
 
             # direction order: top, left, bottom, right
             mask = [bool(style & 64), bool(style & 128), bool(style & 16), bool(style & 32)]
+            fail_false(any(mask), f"No arrow at ({r}, {c}).")
             self.add_program_line(opia_constraint(r, c, mask, max(puzzle.row, puzzle.col) + 1, color="black"))
 
         for (r, c, _, _), color in puzzle.surface.items():
-- 
2.43.0


From 550fe14e9ae6077b139bd9bedc65691b920ebccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 22/26] fix: diagonal edges were read at the wrong cell or
 dropped

---
 noqx/puzzle/penpa.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 3901163..3bd71f1 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -170,9 +170,9 @@ class PenpaPuzzle(Puzzle):
                 self.edge[Point(coord_2[0] + 1, coord_2[1], Direction.TOP)] = True
             elif coord_1[1] == coord_2[1]:  # col equal, vertical line
                 self.edge[Point(coord_2[0], coord_2[1] + 1, Direction.LEFT)] = True
-            elif coord_1[0] - coord_2[0] == 1 and coord_2[1] - coord_1[1] == 1:  # upwards diagonal line
-                self.edge[Point(coord_2[0], coord_2[1], Direction.DIAG_UP)] = True
-            elif coord_2[0] - coord_1[0] == 1 and coord_1[1] - coord_2[1] == 1:  # downwards diagonal line
+            elif coord_2[0] - coord_1[0] == 1 and coord_1[1] - coord_2[1] == 1:  # upwards diagonal line
+                self.edge[Point(coord_2[0], coord_1[1], Direction.DIAG_UP)] = True
+            elif coord_2[0] - coord_1[0] == 1 and coord_2[1] - coord_1[1] == 1:  # downwards diagonal line
                 self.edge[Point(coord_2[0], coord_2[1], Direction.DIAG_DOWN)] = True
 
     def _unpack_line(self):
@@ -275,8 +275,8 @@ class PenpaPuzzle(Puzzle):
             if point.d == Direction.LEFT:
                 coord_2 = (point.r, point.c - 1)
             if point.d == Direction.DIAG_UP:
-                coord_1 = (point.r, point.c - 1)
-                coord_2 = (point.r - 1, point.c)
+                coord_1 = (point.r - 1, point.c)
+                coord_2 = (point.r, point.c - 1)
             if point.d == Direction.DIAG_DOWN:
                 coord_2 = (point.r, point.c)
 
-- 
2.43.0


From 70364c57b974d96e0cdc9ff0306ad745f2d3bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 23/26] fix: a board with a superscript digit could not be read

---
 noqx/puzzle/penpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 3bd71f1..325ab0a 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -45,7 +45,7 @@ PENPA_ABBREVIATIONS = [
 
 def int_or_str(data: Union[int, str]) -> Union[int, str]:
     """Convert the string to integer if possible."""
-    return int(data) if isinstance(data, int) or data.isdigit() else data
+    return int(data) if isinstance(data, int) or data.isdecimal() else data
 
 
 def style_convert(style: List[int]) -> int:
-- 
2.43.0


From 120e24f960311b247607f9ae9cefce20afe090ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 24/26] fix: a given line between two cells was drawn again by
 the solution

---
 noqx/puzzle/penpa.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 325ab0a..2a69654 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -291,18 +291,24 @@ class PenpaPuzzle(Puzzle):
             index_1 = self.coord_to_index((point.r, point.c), category=0)
             if point.pos.startswith("r"):
                 index_2 = self.coord_to_index((point.r, point.c), category=3)
+                cells = (index_1, self.coord_to_index((point.r, point.c + 1), category=0))
             elif point.pos.startswith("d"):
                 index_2 = self.coord_to_index((point.r, point.c), category=2)
+                cells = (index_1, self.coord_to_index((point.r + 1, point.c), category=0))
             elif point.pos.startswith("l"):
                 index_2 = self.coord_to_index((point.r, point.c - 1), category=3)
+                cells = (self.coord_to_index((point.r, point.c - 1), category=0), index_1)
             elif point.pos.startswith("u"):
                 index_2 = self.coord_to_index((point.r - 1, point.c), category=2)
+                cells = (self.coord_to_index((point.r - 1, point.c), category=0), index_1)
             else:
                 raise ValueError("Unsupported line direction.")
 
+            given = self.problem["line"]
             if self.puzzle_name == "hashi":
                 self.solution["line"][f"{index_1},{index_2}"] = 3 if point.pos.endswith("_1") else 30
-            elif not self.problem["line"].get(f"{index_1},{index_2}"):  # avoid overwriting the original stuff
+            elif not given.get(f"{index_1},{index_2}") and not given.get(f"{cells[0]},{cells[1]}"):
+                # avoid overwriting the original stuff (drawn to the edge or to the next cell)
                 self.solution["line"][f"{index_1},{index_2}"] = 3
 
     def _pack_board(self):
-- 
2.43.0


From 94dafa0080a23d22aa4fdf4e21a132d9693380c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 25/26] fix: a solver file whose name holds capitals or the
 directory's name was registered under another name

---
 noqx/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/manager.py b/noqx/manager.py
index 0ac4691..f1febdf 100644
--- a/noqx/manager.py
+++ b/noqx/manager.py
@@ -20,7 +20,7 @@ def load_solvers(solver_dir: str):
         __import__(f"{solver_dir}.{pt}")
 
     for solver_cls in Solver.__subclasses__():
-        puzzle_type = solver_cls.__module__.lower().replace(solver_dir, "").replace(".", "")
+        puzzle_type = solver_cls.__module__.split(".")[-1]
         if puzzle_type in modules:  # pragma: no cover
             raise ValueError(f"Solver for {puzzle_type} already exists.")
 
-- 
2.43.0


From 7bb95edea1be413aff774444feac1e1af30ba0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 26/26] fix: yajilin and koburin answered a board with a shaded
 clue cell by shading the clue

---
 solver/koburin.py | 2 +-
 solver/yajilin.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/koburin.py b/solver/koburin.py
index a85ed0b..6a73d7f 100644
--- a/solver/koburin.py
+++ b/solver/koburin.py
@@ -42,7 +42,7 @@ class KoburinSolver(Solver):
 
         for (r, c, _, _), color in puzzle.surface.items():
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
-            self.add_program_line(f"black({r}, {c}).")
+            self.add_program_line(f":- not black({r}, {c}).")
 
         for (r, c, _, d), draw in puzzle.line.items():
             self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
diff --git a/solver/yajilin.py b/solver/yajilin.py
index 52bfaca..bb1156e 100644
--- a/solver/yajilin.py
+++ b/solver/yajilin.py
@@ -55,7 +55,7 @@ class YajilinSolver(Solver):
 
         for (r, c, _, _), color in puzzle.surface.items():
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
-            self.add_program_line(f"black({r}, {c}).")
+            self.add_program_line(f":- not black({r}, {c}).")
 
         for (r, c, _, d), draw in puzzle.line.items():
             self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
-- 
2.43.0

