"""Contracts of the puzzles whose answer is a division of the board into regions."""
from noqx.puzzle import Color, Direction, Point

from specs.lib import *

BULB = "reachable_bulb_src_adj_edge"
SRC = "reachable_grid_src_adj_edge"


def divided(p, o, holes=False):
    """Borders are drawn between the cells; edges drawn by the user are respected."""
    if holes:
        o.rule(defined("hole"), holed_grid(p.row, p.col))
    else:
        o.rule(grid(p.row, p.col))
    o.rule(edge(p.row, p.col), adjacent("edge"))
    edge_marks(p, o)
    o.show("edge_left")
    o.show("edge_top")


def boundary(p, o, r, c, k):
    """A hole is bordered; between two holes drawn alike there is no border."""
    for n, e in (((r, c - 1), f"edge_left({r}, {c})"), ((r, c + 1), f"edge_left({r}, {c + 1})"),
                 ((r - 1, c), f"edge_top({r}, {c})"), ((r + 1, c), f"edge_top({r + 1}, {c})")):
        if p.surface.get(Point(*n)) == k:
            o.rule(f"not {e}.")
        else:
            o.rule(f"{e}.")


def holes(p, o):
    """Dark cells are not part of the board."""
    for (r, c, _, _), k in p.surface.items():
        need(k in Color.DARK)
        o.rule(f"hole({r}, {c}).")
        boundary(p, o, r, c, k)


def plain(p, o):
    """Clues stand in the middle of cells."""
    for (r, c, d, pos), _ in p.text.items():
        centre(d)
        need(pos == "normal")


def border_counts(p, o):
    """A number counts the borders around its cell."""
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(count_adjacent_edges(n, (r, c)))


def one_clue_each(p, o):
    """The board is divided into rectangles with exactly one clue each."""
    o.rule(all_rect_region(), f":- {{ upleft(R, C) }} != {len(p.text)}.")
    o.rule(f":- clue(R, C), clue(R1, C1), (R, C) != (R1, C1), {BULB}(R, C, R, C1), {BULB}(R1, C1, R, C1).")


def ominoes(n, name, o):
    """Every region is an n-omino (type i is the i-th of the list)."""
    for i, cells in enumerate(OMINO[n].values()):
        o.rule(shape(name, i, cells, "grid", "grid", "edge"))
    o.rule(all_shapes(name, "grid"))


def araf(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    o.rule(avoid_unknown_src(None, "edge"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        # two clues too far apart, or with no number strictly between them, are not in one region
        apart = []
        for (r1, c1, _, _), n1 in p.text.items():
            need(isinstance(n1, int))
            if abs(r - r1) + abs(c - c1) >= max(n, n1):
                apart.append((r1, c1))
            if (r, c) != (r1, c1) and abs(n - n1) <= 1:
                apart.append((r1, c1))
        o.clue(f"clue({r}, {c}, {n}).", src_connected((r, c), None, "edge", (), apart))
        # exactly two clues to a region, the size strictly between them
        o.clue(f"araf_link({r}, {c}, R, C) :- {SRC}({r}, {c}, R, C), clue(R, C, _), (R, C) != ({r}, {c}).")
        o.clue(f":- #count {{ R1, C1 : araf_link({r}, {c}, R1, C1) }} != 1.")
        o.clue(f":- araf_link({r}, {c}, R, C), clue({r}, {c}, N1), clue(R, C, N2), N = #count {{ R0, C0 : {SRC}({r}, {c}, R0, C0) }}, (N - N1) * (N - N2) >= 0.")


def compass(p, o):
    divided(p, o, True)
    o.rule(avoid_unknown_src(None, "edge"))
    need(len(p.text) > 0)
    for r, c, _, _ in p.text:
        others = []
        for r1, c1, _, _ in p.text:
            if (r1, c1) != (r, c):
                others.append((r1, c1))
        o.clue(f"not hole({r}, {c}).", src_connected((r, c), None, "edge", (), others))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos in ("sudoku_4", "sudoku_5", "sudoku_6", "sudoku_7"))
        if isinstance(n, int):
            if pos == "sudoku_4":
                o.clue(f":- #count {{ (R, C) : {SRC}({r}, {c}, R, C), R < {r} }} != {n}.")
            if pos == "sudoku_5":
                o.clue(f":- #count {{ (R, C) : {SRC}({r}, {c}, R, C), C > {c} }} != {n}.")
            if pos == "sudoku_6":
                o.clue(f":- #count {{ (R, C) : {SRC}({r}, {c}, R, C), C < {c} }} != {n}.")
            if pos == "sudoku_7":
                o.clue(f":- #count {{ (R, C) : {SRC}({r}, {c}, R, C), R > {r} }} != {n}.")
    holes(p, o)


def fivecells(p, o):
    need(p.row * p.col % 5 == 0)
    divided(p, o)
    ominoes(5, "omino_5", o)
    o.rule(count_shape(p.row * p.col // 5, "omino_5", None, "grid"))
    border_counts(p, o)


def fourcells(p, o):
    need(p.row * p.col % 4 == 0)
    divided(p, o)
    ominoes(4, "omino_4", o)
    o.rule(count_shape(p.row * p.col // 4, "omino_4", None, "grid"))
    border_counts(p, o)


def split(o):
    """Adjacent cells with a border between them."""
    o.rule("split_by_edge(R, C, R + 1, C) :- grid(R, C), grid(R + 1, C), edge_top(R + 1, C).")
    o.rule("split_by_edge(R, C, R, C + 1) :- grid(R, C), grid(R, C + 1), edge_left(R, C + 1).")
    o.rule("split_by_edge(R, C, R1, C1) :- split_by_edge(R1, C1, R, C).")


def heteromino(p, o):
    need((p.row * p.col - len(p.surface)) % 3 == 0)
    divided(p, o, True)
    ominoes(3, "omino_3", o)
    split(o)
    t = "belong_to_shape_omino_3_grid"
    o.rule(f":- grid(R, C), grid(R1, C1), {t}(R, C, T, V), {t}(R1, C1, T, V), split_by_edge(R, C, R1, C1).")
    holes(p, o)


def kramma(p, o):
    o.rule(defined("black"), defined("white"))
    divided(p, o)
    for e, step in (("edge_left", "R + 1, C"), ("edge_top", "R, C + 1")):
        o.rule(f":- grid(R, C), grid({step}), {e}(R, C), not {e}({step}).")
        o.rule(f":- grid(R, C), grid({step}), not {e}(R, C), {e}({step}).")
    o.rule(avoid_unknown_src(None, "edge"))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_M__1":
            o.clue(f"white({r}, {c}).", src_connected((r, c), None, "edge"), f":- {SRC}({r}, {c}, R, C), black(R, C).")
        if s == "circle_M__2":
            o.clue(f"black({r}, {c}).", src_connected((r, c), None, "edge"), f":- {SRC}({r}, {c}, R, C), white(R, C).")


def nawabari(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    one_clue_each(p, o)
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"clue({r}, {c}).", bulb_connected((r, c), None, "edge"))
        if isinstance(n, int):
            o.clue(count_adjacent_edges(n, (r, c)))


def ncells(p, o):
    need(p.param["region_size"].isdigit())
    n = int(p.param["region_size"])
    need(n > 0)
    need(p.row * p.col % n == 0)
    divided(p, o)
    o.rule(branch_connected(None, "edge"))
    o.rule(f":- grid(R0, C0), #count {{ R, C : reachable_grid_branch_adj_edge(R0, C0, R, C) }} != {n}.")
    border_counts(p, o)


def omino_names(p, o, n):
    """Regions are n-ominoes, no two of one type touch; a letter names the type of its region."""
    need((p.row * p.col - len(p.surface)) % n == 0)
    divided(p, o, True)
    ominoes(n, f"omino_{n}", o)
    split(o)
    t = f"belong_to_shape_omino_{n}_grid"
    o.rule(f":- grid(R, C), grid(R1, C1), {t}(R, C, T, _), {t}(R1, C1, T, _), split_by_edge(R, C, R1, C1).")
    holes(p, o)
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        need(x in list(OMINO[n]))
        for i, letter in enumerate(OMINO[n]):
            if x == letter:
                o.clue(f":- not {t}({r}, {c}, {i}, _).")


def pentominous(p, o):
    omino_names(p, o, 5)


def shikaku(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    one_clue_each(p, o)
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"clue({r}, {c}).", bulb_connected((r, c), None, "edge"))
        if isinstance(n, int):
            o.clue(count_rect(n, (r, c), None, "edge"))


def squarejam(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    o.rule(all_rect_region(True), no_crossing_edges())
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(bulb_connected((r, c), None, "edge"))
        if isinstance(n, int):
            o.clue(f":- {{ {BULB}({r}, {c}, R, C) }} != {2 * n - 1}.")


def tatamibari(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    o.rule(all_rect_region(), no_crossing_edges(), f":- {{ upleft(R, C) }} != {len(p.text)}.")
    o.rule(f":- clue(R, C), (R, C) != (R1, C1), {BULB}(R, C, R, C1), {BULB}(R1, C1, R, C1).")
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"clue({r}, {c}).", bulb_connected((r, c), None, "edge"))
        for sign, bad in (("+", "!="), ("-", ">="), ("|", "<=")):
            if x == sign:
                o.clue(f":- #count {{ R : {BULB}({r}, {c}, R, C) }} = CR, #count {{ C : {BULB}({r}, {c}, R, C) }} = CC, CR {bad} CC.")


def tentaisho(p, o):
    divided(p, o, True)
    stars = []
    for (r, c, d, _), s in p.symbol.items():
        need(s.startswith("circle_SS"))
        # a star at (y, x) in half cells
        if d == Direction.CENTER:
            stars.append((r, c))
            symmetric(o, 2 * r + 1, 2 * c + 1, r, c)
        if d == Direction.TOP_LEFT:
            stars.append((r - 1, c - 1))
            symmetric(o, 2 * r, 2 * c, r - 1, c - 1)
            o.clue(f"not edge_top({r}, {c - 1}).", f"not edge_top({r}, {c}).")
            o.clue(f"not edge_left({r - 1}, {c}).", f"not edge_left({r}, {c}).")
        if d == Direction.TOP:
            stars.append((r - 1, c))
            symmetric(o, 2 * r, 2 * c + 1, r - 1, c)
            o.clue(f"not edge_top({r}, {c}).")
        if d == Direction.LEFT:
            stars.append((r, c - 1))
            symmetric(o, 2 * r + 1, 2 * c, r, c - 1)
            o.clue(f"not edge_left({r}, {c}).")
    need(len(stars) > 0)
    for r, c in stars:
        others = []
        for r1, c1 in stars:
            if (r1, c1) != (r, c):
                others.append((r1, c1))
        o.clue(src_connected((r, c), None, "edge", (), others))
    missed = ", ".join([f"not {SRC}({r}, {c}, R, C)" for r, c in stars])
    o.clue(f":- grid(R, C), not hole(R, C), {missed}.")
    holes(p, o)


def symmetric(o, y, x, r, c):
    """The region of (r, c) is symmetric about the point (y, x) (in half cells)."""
    o.clue(f":- grid(R, C), {SRC}({r}, {c}, R, C), not {SRC}({r}, {c}, {y} - R - 1, {x} - C - 1).")
    o.clue(f":- grid(R, C), {SRC}({r}, {c}, R, C), edge_top(R, C), not edge_top({y} - R, {x} - C - 1).")
    o.clue(f":- grid(R, C), {SRC}({r}, {c}, R, C), edge_left(R, C), not edge_left({y} - R - 1, {x} - C).")


def tetrominous(p, o):
    omino_names(p, o, 4)


def triplace(p, o):
    need((p.row * p.col - len(p.symbol)) % 3 == 0)
    divided(p, o, True)
    ominoes(3, "omino_3", o)
    i = 0
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        if isinstance(n, int) and pos in ("sudoku_1", "sudoku_2"):
            cells = []
            if pos == "sudoku_1":
                y = c + 1
                while y < p.col and not p.symbol.get(Point(r, y, Direction.CENTER)):
                    cells.append((r, y))
                    y += 1
            else:
                x = r + 1
                while x < p.row and not p.symbol.get(Point(x, c, Direction.CENTER)):
                    cells.append((x, c))
                    x += 1
            need(len(cells) > 0)
            # every straight block that the line meets is left through one border
            leave = "edge_left(R, C + 1)" if pos == "sudoku_1" else "edge_top(R + 1, C)"
            o.clue(area(i, cells))
            o.clue(f":- #count {{ R, C : area({i}, R, C), belong_to_shape_omino_3_grid(R, C, 0, _), {leave} }} != {n}.")
            i += 1
    for (r, c, d, pos), s in p.symbol.items():
        centre(d)
        need(s.startswith("kakuro"))
        o.rule(f"hole({r}, {c}).")
        for n, e in (((r, c - 1), f"edge_left({r}, {c})"), ((r, c + 1), f"edge_left({r}, {c + 1})"),
                     ((r - 1, c), f"edge_top({r}, {c})"), ((r + 1, c), f"edge_top({r + 1}, {c})")):
            if p.symbol.get(Point(*n, d, pos)) == s:
                o.rule(f"not {e}.")
            else:
                o.rule(f"{e}.")


def usotatami(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    one_clue_each(p, o)
    o.rule(":- upleft(R, C), left(R + 1, C), up(R, C + 1).", no_crossing_edges())  # bars of width one
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"clue({r}, {c}).", bulb_connected((r, c), None, "edge"))
        if isinstance(n, int):
            o.clue(count_reachable(("ne", n), (r, c), None, "edge", "bulb"))


def voxas(p, o):
    divided(p, o)
    for n in (2, 3):
        o.rule(shape("voxas", n, OMINO[n]["I"], "grid", "grid", "edge"))
    o.rule(all_shapes("voxas", "grid"))
    t = "belong_to_shape_voxas_grid"
    for (r, c, d, _), s in p.symbol.items():
        need(s in ("circle_SS__1", "circle_SS__2", "circle_SS__5"))
        need(p.edge.get(Point(r, c, d)) is True)
        for x, k in (("circle_SS__1", 0), ("circle_SS__2", 2), ("circle_SS__5", 1)):
            # the number of aspects (size, direction) in which the two blocks differ
            if s == x and d == Direction.TOP and r > 0:
                o.clue(f":- {t}({r}, {c}, T, V), {t}({r - 1}, {c}, T1, V1), |T - T1| + |V - V1| != {k}.")
            if s == x and d == Direction.LEFT and c > 0:
                o.clue(f":- {t}({r}, {c}, T, V), {t}({r}, {c - 1}, T1, V1), |T - T1| + |V - V1| != {k}.")


def yajitatami(p, o):
    need(len(p.text) > 0)
    divided(p, o)
    o.rule(all_rect_region(), no_crossing_edges(), ":- upleft(R, C), left(R + 1, C), up(R, C + 1).")
    o.rule(":- grid(R, C), upleft(R, C), #count { R1, C1 : adj_edge(R, C, R1, C1) } = 0.")
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        n, a = arrow_clue(x)
        o.clue(bulb_connected((r, c), None, "edge"), count_reachable(n, (r, c), None, "edge", "bulb"))
        # the arrow starts at a border; the number counts the borders crossed after it
        if a == 0:
            o.clue(f":- not edge_top({r}, {c}).", f":- #count {{ R : edge_top(R, {c}), R <= {r} }} != {n + 1}.")
        if a == 1:
            o.clue(f":- not edge_left({r}, {c}).", f":- #count {{ C : edge_left({r}, C), C <= {c} }} != {n + 1}.")
        if a == 2:
            o.clue(f":- not edge_left({r}, {c + 1}).", f":- #count {{ C : edge_left({r}, C), C > {c} }} != {n + 1}.")
        if a == 3:
            o.clue(f":- not edge_top({r + 1}, {c}).", f":- #count {{ R : edge_top(R, {c}), R > {r} }} != {n + 1}.")
