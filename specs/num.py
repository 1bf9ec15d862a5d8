"""Contracts of the puzzles whose answer is a placement of numbers."""
from noqx.puzzle import Color, Direction, Point

from specs.lib import *


def givens(p, o):
    """A number written in a cell is the number of the cell; nothing else may be written."""
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        o.clue(f"number({r}, {c}, {n}).")


def latin(p, o, lo=1):
    """A square board; the numbers of every row and column are different."""
    need(p.row == p.col)
    o.rule(grid(p.row, p.row), fill_num(rng(lo, p.row)), unique_num("grid", "row"), unique_num("grid", "col"))


def in_room(i):
    return f"area({i}, R, C)"


def ox_marks(p, o):
    """Circle: the cell has a number (or triangle); cross: it has none."""
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "ox_E__1":
            o.mark(f"not white({r}, {c}).")
        if s in ("ox_E__4", "ox_E__7"):
            o.mark(f"white({r}, {c}).")


def bosanowa(p, o):
    o.rule(defined("hole"), holed_grid(p.row, p.col), fill_num(rng(1, int(p.param["max_number"]))), adjacent(4))
    o.rule(":- number(R, C, N), N != #sum { |N - N1|, R1, C1 : number(R1, C1, N1), adj_4(R, C, R1, C1) }.")
    for (r, c, _, _), k in p.surface.items():
        need(k in Color.DARK)
        o.clue(f"hole({r}, {c}).")
    givens(p, o)
    o.show("number", 3)


def cojun(p, o):
    o.rule(grid(p.row, p.col), adjacent(4), unique_num("grid", "area"), avoid_num_adjacent(4))
    o.rule(":- area(A, R, C), area(A, R + 1, C), number(R, C, N1), number(R + 1, C, N2), N1 < N2.")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), fill_num(rng(1, len(cells)), None, in_room(i)))
    givens(p, o)
    o.show("number", 3)


def doppelblock(p, o):
    need(p.row == p.col)
    n = p.row
    o.rule(grid(n, n), fill_num(rng(1, n - 2), "black"), unique_num("grid", "row"), unique_num("grid", "col"))
    o.rule(count_row(2, "black"), count_col(2, "black"))
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        if r == -1 and 0 <= c < n and isinstance(x, int):
            o.clue(f":- Rb = #min {{ R : black(R, {c}) }}, Re = #max {{ R : black(R, {c}) }}, #sum {{ N, R : number(R, {c}, N), R > Rb, R < Re }} != {x}.")
        if c == -1 and 0 <= r < n and isinstance(x, int):
            o.clue(f":- Cb = #min {{ C : black({r}, C) }}, Ce = #max {{ C : black({r}, C) }}, #sum {{ N, C : number({r}, C, N), C > Cb, C < Ce }} != {x}.")
        if 0 <= r < n and 0 <= c < n:
            need(isinstance(x, int))
            o.clue(f"number({r}, {c}, {x}).")
    dark_only(p, o)
    o.show("number", 3)
    o.show("black")


def easyasabc(p, o):
    need(p.row == p.col)
    n = p.row
    letters = p.param["letters"]
    k = len(letters)
    o.rule(grid(n, n), fill_num(rng(1, k), "white"), unique_num("grid", "row"), unique_num("grid", "col"))
    o.rule(count_row(n - k, "white"), count_col(n - k, "white"))
    for (r, c, d, pos), x in p.text.items():
        x = str(x)
        centre(d)
        need(pos == "normal")
        need(len(x) == 1 and any(ch == x for ch in letters))
        v = 0
        for i, ch in enumerate(letters):
            if ch == x:
                v = i + 1
        inr, inc = 0 <= r < n, 0 <= c < n
        if r == -1 and inc:
            o.clue(f":- Rm = #min {{ R : grid(R, {c}), not white(R, {c}) }}, not number(Rm, {c}, {v}).")
        if r == n and inc:
            o.clue(f":- Rm = #max {{ R : grid(R, {c}), not white(R, {c}) }}, not number(Rm, {c}, {v}).")
        if c == -1 and inr:
            o.clue(f":- Cm = #min {{ C : grid({r}, C), not white({r}, C) }}, not number({r}, Cm, {v}).")
        if c == n and inr:
            o.clue(f":- Cm = #max {{ C : grid({r}, C), not white({r}, C) }}, not number({r}, Cm, {v}).")
        if inr and inc:
            o.clue(f"number({r}, {c}, {v}).")
    o.show("number", 3)


def factors(p, o):
    latin(p, o)
    n = p.row
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells))
        chain = ""
        for k, (r, c) in enumerate(cells):
            if k == 0:
                chain += f"area_product({i}, {k}, N) :- number({r}, {c}, N).\n"
            else:
                chain += f"area_product({i}, {k}, N1 * N2) :- area_product({i}, {k - 1}, N1), number({r}, {c}, N2).\n"
        o.rule(chain)
        for r, c in cells:
            if Point(r, c, Direction.CENTER, "sudoku_0") in p.text:
                x = p.text[Point(r, c, Direction.CENTER, "sudoku_0")]
                need(isinstance(x, int))
                o.clue(f":- not area_product({i}, {len(cells) - 1}, {x}).")
                bad = ""
                for m in range(1, n + 1):
                    if x % m != 0:
                        bad += f":- area({i}, R, C), number(R, C, {m}).\n"
                o.clue(bad)
            if Point(r, c, Direction.CENTER, "normal") in p.text:
                x = p.text[Point(r, c, Direction.CENTER, "normal")]
                need(isinstance(x, int))
                o.clue(f"number({r}, {c}, {x}).")
    o.show("number", 3)


def fillomino(p, o):
    t = "reachable_grid_branch_adj_edge"
    o.rule(grid(p.row, p.col), edge(p.row, p.col), adjacent(4), adjacent("edge"))
    # given regions: their number spreads, borders separate exactly the different numbers
    o.rule("number(R, C, N) :- number(R0, C0, N), reachable_grid_src_adj_edge(R0, C0, R, C).")
    o.rule(":- grid(R, C), number(R, C, N1), number(R, C, N2), N1 < N2.")
    for n, e in (("R, C + 1", "edge_left"), ("R + 1, C", "edge_top")):
        o.rule(f":- number(R, C, N), number({n}, N), {e}({n}).")
        o.rule(f":- number(R, C, N1), number({n}, N2), N1 != N2, not {e}({n}).")
    o.rule("{ edge_top(R, C); edge_top(R + 1, C); edge_left(R, C); edge_left(R, C + 1) } = 4 :- number(R, C, 1).")
    o.rule("number(R, C, 1) :- edge_top(R, C), edge_top(R + 1, C), edge_left(R, C), edge_left(R, C + 1).")
    o.rule(":- number(R, C, 1), number(R1, C1, 1), adj_4(R, C, R1, C1).")
    # regions without a given: the number is the size
    o.rule("have_numberx(R, C) :- grid(R, C), not reachable_grid_src_adj_edge(_, _, R, C).")
    o.rule(f"{t}(R, C, R, C) :- grid(R, C), have_numberx(R, C).")
    o.rule(f"{t}(R, C, R0, C0) :- grid(R0, C0), grid(R, C), {t}(R, C, R1, C1), have_numberx(R0, C0), have_numberx(R, C), adj_edge(R0, C0, R1, C1).")
    if p.param["fast_mode"]:
        o.rule("{ numberx(R, C, 1..5) } = 1 :- grid(R, C), have_numberx(R, C).")
        o.rule(f":- numberx(R, C, N), #count {{ R1, C1 : {t}(R, C, R1, C1) }} != N.")
    else:
        o.rule(f"{{ numberx(R, C, N) }} = 1 :- grid(R, C), have_numberx(R, C), #count {{ R1, C1 : {t}(R, C, R1, C1) }} = N.")
    o.rule(":- number(R, C, N), numberx(R1, C1, N), adj_4(R, C, R1, C1).")
    for n, e in (("R, C + 1", "edge_left"), ("R + 1, C", "edge_top")):
        o.rule(f":- numberx(R, C, N), numberx({n}, N), {e}({n}).")
        o.rule(f":- have_numberx(R, C), have_numberx({n}), numberx(R, C, N), not numberx({n}, N), not {e}({n}).")
    # every different given has a region of its own
    o.rule(f":- #count {{ R, C : grid(R, C), have_numberx(R, C) }} > {p.row * p.col - sum(set(x for _, x in p.text.items() if isinstance(x, int)))}.")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        o.clue(f"number({r}, {c}, {n}).", src_connected((r, c), None, "edge"), count_reachable(n, (r, c), None, "edge"))
        if n == 1:
            o.clue(f":- not edge_left({r}, {c}).", f":- not edge_top({r}, {c}).")
            o.clue(f":- not edge_left({r}, {c + 1}).", f":- not edge_top({r + 1}, {c}).")
    edge_marks(p, o)
    o.show("edge_left")
    o.show("edge_top")
    o.show("number", 3)
    o.show("numberx", 3)


def hanare(p, o):
    o.rule(grid(p.row, p.col))
    # two numbers that face each other differ by the number of cells between them
    o.rule("row_pair(R, R1, C) :- number(R, C, _), number(R1, C, _), R1 > R, R1 - R - 1 = #count { R2 : white(R2, C), R2 >= R, R2 <= R1 }.")
    o.rule(":- row_pair(R, R1, C), number(R, C, N), number(R1, C, N1), |N - N1| != R1 - R - 1.")
    o.rule("col_pair(R, C, C1) :- number(R, C, _), number(R, C1, _), C1 > C, C1 - C - 1 = #count { C2 : white(R, C2), C2 >= C, C2 <= C1 }.")
    o.rule(":- col_pair(R, C, C1), number(R, C, N), number(R, C1, N1), |N - N1| != C1 - C - 1.")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), fill_num(rng(len(cells), len(cells)), "white", in_room(i)), count_area(1, "not white", i))
    for (r, c, _, _), k in p.surface.items():
        need(k == Color.GREEN)
        o.mark(f"white({r}, {c}).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        o.clue(f"number({r}, {c}, {n}).", f"not white({r}, {c}).")
    o.show("number", 3)


def kakuro(p, o):
    o.rule(defined("area", 3), defined("number", 3), grid(p.row, p.col), unique_num("grid", "area"))
    i = 0
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        if isinstance(n, int) and pos in ("sudoku_1", "sudoku_2"):
            cells = []
            if pos == "sudoku_1":
                y = c + 1
                while y < p.col and not p.symbol.get(Point(r, y, Direction.CENTER)):
                    cells.append((r, y))
                    y += 1
            else:
                x = r + 1
                while x < p.row and not p.symbol.get(Point(x, c, Direction.CENTER)):
                    cells.append((x, c))
                    x += 1
            need(len(cells) > 0)
            o.rule(area(i, cells), fill_num("1..9", None, in_room(i)))
            o.clue(f":- #sum {{ N, R, C : area({i}, R, C), number(R, C, N) }} != {n}.")
            i += 1
        if pos == "normal" and isinstance(n, int):
            o.clue(f"number({r}, {c}, {n}).")
    o.show("number", 3)


def kakuru(p, o):
    o.rule(defined("black"), grid(p.row, p.col), adjacent(8), avoid_num_adjacent(8))
    o.rule(fill_num("1..9", None, "grid(R, C), not black(R, C)"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f":- number(_, _, N), {{ grid(R, C) : number(R, C, N), adj_8(R, C, {r}, {c}) }} > 1.")
        if isinstance(n, int):
            o.clue(f":- #sum {{ N, R, C : number(R, C, N), adj_8(R, C, {r}, {c}) }} != {n}.")
    holes(p, o)
    o.show("number", 3)


def kazunori(p, o):
    o.rule(grid(p.row, p.col), adjacent(4))
    o.rule(":- area(A, _, _), number(_, _, N), #count { R, C : area(A, R, C), number(R, C, N) } > 2.")
    o.rule(":- number(R, C, N), number(R + 1, C, N), number(R, C + 1, N), number(R + 1, C + 1, N).")
    o.rule(":- area(A, R, C), number(R, C, N), #count { R1, C1 : area(A, R1, C1), number(R1, C1, N), adj_4(R, C, R1, C1) } != 1.")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        need(len(cells) % 2 == 0)
        o.rule(area(i, cells), fill_num(rng(1, len(cells) // 2), None, in_room(i)))
    for (r, c, d, pos), n in p.text.items():
        need(pos == "normal")
        if d == Direction.CENTER:
            need(isinstance(n, int))
            o.clue(f"number({r}, {c}, {n}).")
        if d == Direction.TOP and r > 0 and isinstance(n, int):
            o.clue(f":- number({r}, {c}, N), number({r - 1}, {c}, N1), N + N1 != {n}.")
        if d == Direction.LEFT and c > 0 and isinstance(n, int):
            o.clue(f":- number({r}, {c}, N), number({r}, {c - 1}, N1), N + N1 != {n}.")
    o.show("number", 3)


def signs_defined(o):
    for k in ("white_h", "white_v", "black_h", "black_v"):
        o.rule(defined(k))


def kropki(p, o):
    latin(p, o)
    signs_defined(o)
    for v, n in (("v", "R, C - 1"), ("h", "R - 1, C")):
        both = f"number({n}, N1), number(R, C, N2)"
        o.rule(f":- white_{v}(R, C), {both}, |N1 - N2| != 1.")
        o.rule(f":- black_{v}(R, C), {both}, (N1 - N2 * 2) * (N1 * 2 - N2) != 0.")
        o.rule(f":- grid(R, C), not white_{v}(R, C), not black_{v}(R, C), {both}, (|N1 - N2| - 1) * (N1 - N2 * 2) * (N1 * 2 - N2) = 0.")
    for (r, c, d, _), s in p.symbol.items():
        need(d == Direction.TOP or d == Direction.LEFT)
        v = "h" if d == Direction.TOP else "v"
        if s == "circle_SS__1":
            o.clue(f"white_{v}({r}, {c}).", f"not black_{v}({r}, {c}).")
        if s == "circle_SS__2":
            o.clue(f"black_{v}({r}, {c}).", f"not white_{v}({r}, {c}).")
    givens(p, o)
    o.show("number", 3)


def meander(p, o):
    need(p.row == p.col)
    o.rule(grid(p.row, p.row), adjacent(4), adjacent(8), avoid_num_adjacent(8), unique_num("grid", "area"))
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        n = len(cells)
        o.rule(area(i, cells), fill_num(rng(1, n), None, in_room(i)))
        if n == 1:
            o.rule(f":- area({i}, R, C), not number(R, C, 1).")
        else:
            near = f"area({i}, R, C), area({i}, R1, C1), number(R1, C1, N1), adj_4(R, C, R1, C1)"
            o.rule(f"meander({i}, R, C) :- number(R, C, N), #count {{ R1, C1 : {near}, |N - N1| = 1 }} != 2.")
            o.rule(f":- area({i}, R, C), number(R, C, 1), #count {{ R1, C1 : {near}, N1 = 2 }} != 1.")
            o.rule(f":- area({i}, R, C), number(R, C, {n}), #count {{ R1, C1 : {near}, N1 = {n - 1} }} != 1.")
            o.rule(f":- area({i}, R, C), meander({i}, R, C), not number(R, C, 1), not number(R, C, {n}).")
    givens(p, o)
    o.show("number", 3)


def minarism(p, o):
    latin(p, o)
    signs_defined(o)
    for (r, c, d, _), s in p.symbol.items():
        if d == Direction.LEFT and c > 0 and s == "inequality__1":
            o.clue(f":- number({r}, {c}, N), number({r}, {c - 1}, N1), N < N1.")
        if d == Direction.TOP and r > 0 and s == "inequality__2":
            o.clue(f":- number({r}, {c}, N), number({r - 1}, {c}, N1), N < N1.")
        if d == Direction.LEFT and c > 0 and s == "inequality__3":
            o.clue(f":- number({r}, {c}, N), number({r}, {c - 1}, N1), N > N1.")
        if d == Direction.TOP and r > 0 and s == "inequality__4":
            o.clue(f":- number({r}, {c}, N), number({r - 1}, {c}, N1), N > N1.")
    for (r, c, d, pos), n in p.text.items():
        need(pos == "normal")
        if d == Direction.CENTER:
            need(isinstance(n, int))
            o.clue(f"number({r}, {c}, {n}).")
        if d == Direction.TOP and r > 0 and isinstance(n, int):
            o.clue(f":- number({r}, {c}, N), number({r - 1}, {c}, N1), |N - N1| != {n}.")
        if d == Direction.LEFT and c > 0 and isinstance(n, int):
            o.clue(f":- number({r}, {c}, N), number({r}, {c - 1}, N1), |N - N1| != {n}.")
    o.show("number", 3)


def nanro(p, o):
    o.rule(grid(p.row, p.col), adjacent(4), connected("not gray"), avoid_rect(2, 2, "not gray"))
    o.rule(":- number(R0, C0, N), area(A, R0, C0), #count { R, C : area(A, R, C), not gray(R, C) } != N.")
    o.rule(":- area(A, R, C), area(A1, R1, C1), adj_4(R, C, R1, C1), A < A1, number(R, C, N), number(R1, C1, N).")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), fill_num(rng(1, len(cells)), "gray", in_room(i)))
        unclued = True
        for r, c in cells:
            if Point(r, c, Direction.CENTER, "sudoku_0") in p.text:
                unclued = False
                n = p.text[Point(r, c, Direction.CENTER, "sudoku_0")]
                need(isinstance(n, int))
                o.clue(count_area(n, "not gray", i))
            if Point(r, c, Direction.CENTER, "normal") in p.text:
                unclued = False
                n = p.text[Point(r, c, Direction.CENTER, "normal")]
                need(isinstance(n, int))
                o.clue(f"number({r}, {c}, {n}).")
        if unclued:
            o.rule(count_area(("gt", 0), "not gray", i))
    dark_only(p, o, "gray")
    o.show("gray")
    o.show("number", 3)


def numrope(p, o):
    o.rule(defined("hole"), holed_grid(p.row, p.col), fill_num("1..9"), adjacent(4), adjacent("loop"), avoid_num_adjacent(4))
    o.rule("adj_count(R, C, N) :- grid(R, C), N = #count { R1, C1 : adj_loop(R, C, R1, C1) }.")
    o.rule(":- adj_count(R, C, N), N > 2.")
    o.rule(":- adj_count(R, C, 1), number(R, C, N), number(R1, C1, N1), adj_loop(R, C, R1, C1), |N - N1| != 1.")
    o.rule(":- adj_count(R, C, 2), number(R, C, N), N * 2 != #sum { N1, R1, C1 : number(R1, C1, N1), adj_loop(R, C, R1, C1) }.")
    for (r, c, _, d), drawn in p.line.items():
        need(drawn)
        o.clue(f'grid_direction({r}, {c}, "{d}").')
    for (r, c, _, _), k in p.surface.items():
        need(k in Color.DARK)
        o.clue(f"hole({r}, {c}).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        if Point(r, c) in p.surface:
            o.clue(f":- #sum {{ N, R, C : number(R, C, N), |{r} - R| + |{c} - C| = 1 }} != {n}.")
        else:
            o.clue(f"number({r}, {c}, {n}).")
    o.show("number", 3)


def putteria(p, o):
    o.rule(grid(p.row, p.col), adjacent(4), unique_num("not gray", "row"), unique_num("not gray", "col"))
    o.rule(":- number(R, C, _), number(R1, C1, _), adj_4(R, C, R1, C1).")
    o.rule(":- area(A, _, _), #count { R, C : area(A, R, C), number(R, C, N) } != 1.")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), fill_num(rng(len(cells), len(cells)), "gray", in_room(i)))
    dark_only(p, o, "gray")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f"number({r}, {c}, {n}).")
        else:
            o.clue(f"gray({r}, {c}).")
    o.show("gray")
    o.show("number", 3)


def ripple(p, o):
    o.rule(grid(p.row, p.col))
    for line, a, b in (("R, {}", "C1", "C2"), ("{}, C", "R1", "R2")):
        x, y = line.format(a), line.format(b)
        o.rule(f":- grid({x}), grid({y}), number({x}, N), number({y}, N), ({b} - {a}) * ({b} - {a} - N - 1) < 0.")
    blocked = False
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f"number({r}, {c}, {n}).")
        else:
            blocked = True
            o.clue(f"black({r}, {c}).")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells))
        if blocked:
            o.rule(fill_num(f"1..{len(cells)}", None, f"area({i}, R, C), not black(R, C)"))
        else:
            o.rule(fill_num(rng(1, len(cells)), None, in_room(i)))
    if blocked:
        o.rule(unique_num("not black", "area"))
    else:
        o.rule(unique_num("grid", "area"))
    o.show("number", 3)


def simplegako(p, o):
    o.rule(grid(p.row, p.col), fill_num(rng(1, p.row + p.col - 1)))
    o.rule(":- number(R, C, N), RC = #count { R1 : number(R1, C, N) }, CC = #count { C1 : number(R, C1, N) }, N != RC + CC - 1.")
    givens(p, o)
    o.show("number", 3)


def skyscrapers(p, o):
    latin(p, o)
    n = p.row
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(x, int))
        if 0 <= c < n:
            if r == -1:
                o.clue(f"blocked_t(R, {c}) :- number(R, {c}, N), number(R1, {c}, N1), R1 < R, N1 > N.")
                o.clue(f":- #count {{ R : blocked_t(R, {c}) }} != {n - x}.")
            if r == n:
                o.clue(f"blocked_b(R, {c}) :- number(R, {c}, N), number(R1, {c}, N1), R1 > R, N1 > N.")
                o.clue(f":- #count {{ R : blocked_b(R, {c}) }} != {n - x}.")
        if 0 <= r < n:
            if c == -1:
                o.clue(f"blocked_l({r}, C) :- number({r}, C, N), number({r}, C1, N1), C1 < C, N1 > N.")
                o.clue(f":- #count {{ C : blocked_l({r}, C) }} != {n - x}.")
            if c == n:
                o.clue(f"blocked_r({r}, C) :- number({r}, C, N), number({r}, C1, N1), C1 > C, N1 > N.")
                o.clue(f":- #count {{ C : blocked_r({r}, C) }} != {n - x}.")
        if 0 <= r < n and 0 <= c < n:
            o.clue(f"number({r}, {c}, {x}).")
    o.show("number", 3)


def sudoku(p, o):
    need(p.row == p.col)
    n = p.row
    need(n == 4 or n == 6 or n == 8 or n == 9)
    h = 3 if n == 9 else 2
    w = n // h
    o.rule(grid(n, n), adjacent("x"), fill_num(rng(1, n)))
    o.rule(unique_num("grid", "row"), unique_num("grid", "col"), unique_num("grid", "area"))
    for r in range(n):
        for c in range(n):
            o.rule(f"area({r // h * (n // w) + c // w}, {r}, {c}).")
    givens(p, o)
    if p.param["diagonal"]:
        for i in range(n):
            o.rule(f"area({n + 1}, {i}, {i}).", f"area({n + 2}, {i}, {n - 1 - i}).")
    if p.param["untouch"]:
        o.rule(avoid_num_adjacent("x"))
    if p.param["antiknight"]:
        o.rule("adj_knight(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| = 2, |C - C1| = 1.")
        o.rule("adj_knight(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| = 1, |C - C1| = 2.")
        o.rule(avoid_num_adjacent("knight"))
    o.show("number", 3)


def sukoro(p, o):
    o.rule(grid(p.row, p.col), fill_num("0..4", "white"), invert_c("white", "black"), adjacent(4))
    o.rule(connected("black", 4, (p.row, p.col)), avoid_num_adjacent(4))
    o.rule(":- number(R, C, N), N != #count { R1, C1 : adj_4(R, C, R1, C1), black(R1, C1) }.")
    ox_marks(p, o)
    givens(p, o)
    o.show("number", 3)


def sukororoom(p, o):
    o.rule(grid(p.row, p.col), fill_num("0..4", "white"), invert_c("white", "black"), adjacent(4))
    o.rule(connected("black", 4, (p.row, p.col)), unique_num("black", "area"), area_same_color("black"))
    o.rule(":- number(R, C, N), N != #count { R1, C1 : adj_4(R, C, R1, C1), black(R1, C1) }.")
    rooms(p, o)
    ox_marks(p, o)
    givens(p, o)
    o.show("number", 3)


def view(p, o):
    t = "reachable_bulb_branch_adj_4_white"
    o.rule(grid(p.row, p.col), fill_num(rng(0, p.row + p.col - 1), "white"), invert_c("white", "black"), adjacent(4))
    o.rule(connected("black", 4, (p.row, p.col)), avoid_num_adjacent(4))
    # the number of a cell counts the empty cells seen from it in the four directions
    o.rule(f"{t}(R, C, R, C) :- number(R, C, _).")
    o.rule(f"{t}(R0, C0, R, C) :- number(R0, C0, _), {t}(R0, C0, R1, C1), white(R, C), adj_4(R, C, R1, C1), (R - R0) * (C - C0) = 0.")
    o.rule(f":- number(R, C, N), {{ {t}(R, C, _, _) }} != N + 1.")
    ox_marks(p, o)
    givens(p, o)
    o.show("number", 3)
