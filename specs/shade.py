"""Contracts of the puzzles whose answer is a set of shaded cells."""
from noqx.puzzle import Color, Direction, Point

from specs.lib import *
from specs import lib


def aqre(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("gray", 4, (p.row, p.col)))
    for color in ("gray", "not gray"):
        o.rule(avoid_rect(4, 1, color), avoid_rect(1, 4, color))
    room_counts(p, o, "gray")
    marks(p, o, "gray")
    o.show("gray")


def aquapelago(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), adjacent("x"), avoid_adjacent("black"))
    o.rule(avoid_rect(2, 2, "not black"), connected("not black", 4, (p.row, p.col)))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(src_connected((r, c), "black", "x"), count_reachable(n, (r, c), "black", "x"))
    marks(p, o, "black")
    o.show("black")


def aquarium(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"))
    o.rule(":- area(A, R, C), area(A, R1, C1), R1 >= R, gray(R, C), not gray(R1, C1).")  # water level
    rooms(p, o)
    outside_counts(p, o, "gray")
    marks(p, o, "gray")
    o.show("gray")


def box(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        if 0 <= c < p.col:
            if r == -1:
                o.clue(f":- #sum {{ N, R : box_col(R, N), black(R, {c}) }} != {n}.")
            if r == p.row:
                o.clue(f"box_row({c}, {n}).")
        if 0 <= r < p.row:
            if c == -1:
                o.clue(f":- #sum {{ N, C : box_row(C, N), black({r}, C) }} != {n}.")
            if c == p.col:
                o.clue(f"box_col({r}, {n}).")
    marks(p, o, "black")
    o.show("black")


def canal(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("black"), avoid_rect(2, 2, "black"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).")
        if isinstance(n, int):
            o.clue(bulb_connected((r, c), "black"), count_reachable(n + 1, (r, c), "black", 4, "bulb"))
    marks(p, o, "black")
    o.show("black")


def cave(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("not black"), border_connected(p.row, p.col, "black"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).", bulb_connected((r, c), "not black"))
        if isinstance(n, int):
            if p.param["product"]:
                o.clue(count_rect(n, (r, c), "not black"))
            else:
                o.clue(count_reachable(n, (r, c), "not black", 4, "bulb"))
    marks(p, o, "black")
    o.show("black")


def cbanana(p, o):
    o.rule(grid(p.row, p.col), shade_cc(["gray", "white"]), adjacent(4), all_rect("gray"), no_rect("white"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            t, b, l = "reachable_grid_src_adj_4_white", "reachable_bulb_src_adj_4_gray", "reachable_Lshape_adj_4_white"
            o.clue(f"{t}({r}, {c}, {r}, {c}).")
            o.clue(f"{t}({r}, {c}, R, C) :- {t}({r}, {c}, R1, C1), {l}({r}, {c}), {l}(R, C), grid(R, C), adj_4(R, C, R1, C1).")
            o.clue(f":- white({r}, {c}), {{ {t}({r}, {c}, R, C) }} != {n}.")
            o.clue(f"{b}({r}, {c}, {r}, {c}).")
            o.clue(f"{b}({r}, {c}, R, C) :- {b}({r}, {c}, R1, C1), gray({r}, {c}), gray(R, C), adj_4(R, C, R1, C1), (R - {r}) * (C - {c}) = 0.")
            o.clue(f":- gray({r}, {c}), #count {{ R : {b}({r}, {c}, R, C) }} = CR, #count {{ C : {b}({r}, {c}, R, C) }} = CC, CR * CC != {n}.")
    marks(p, o, "gray")
    o.show("gray")


def chocona(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), all_rect("gray"))
    room_counts(p, o, "gray")
    marks(p, o, "gray")
    o.show("gray")


def circlesquare(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), invert_c("gray", "green"), adjacent(4), connected("gray", 4, (p.row, p.col)))
    o.rule(avoid_rect(2, 2, "gray"), all_rect("green", True))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_M__2":
            o.clue(f"gray({r}, {c}).")
        if s == "circle_M__1":
            o.clue(f"not gray({r}, {c}).")
    marks(p, o, "gray")
    o.show("gray")


def cocktail(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), adjacent(8), connected("gray", 8, (p.row, p.col)))
    o.rule(area_connected("gray", 4), avoid_rect(2, 2, "gray"))
    room_counts(p, o, "gray")
    for (r, c, d, _), drawn in p.edge.items():
        if drawn and d == Direction.TOP and r > 0:
            o.rule(f":- gray({r}, {c}), gray({r - 1}, {c}).")
        if drawn and d == Direction.LEFT and c > 0:
            o.rule(f":- gray({r}, {c}), gray({r}, {c - 1}).")
    marks(p, o, "gray")
    o.show("gray")


def context(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), adjacent("x"), avoid_adjacent("gray"))
    o.rule(connected("not gray", 4, (p.row, p.col)))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        o.clue(f":- not gray({r}, {c}), #count {{ R, C : adj_4({r}, {c}, R, C), gray(R, C) }} != {n}.")
        o.clue(f":- gray({r}, {c}), #count {{ R, C : adj_x({r}, {c}, R, C), gray(R, C) }} != {n}.")
    marks(p, o, "gray")
    o.show("gray")


def coral(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("black"), border_connected(p.row, p.col, "not black"))
    o.rule(avoid_rect(2, 2, "black"))
    for axis, here, back, end, last in (("horizontal", "R, C", "R, C - 1", "R, C + N - 1", "R, C + N"),
                                        ("vertical", "R, C", "R - 1, C", "R + N - 1, C", "R + N, C")):
        o.rule(f"nth_{axis}({here}, 1) :- black({here}), not black({back}).")
        o.rule(f"nth_{axis}({here}, N) :- black({here}), nth_{axis}({back}, N - 1).")
        o.rule(f"len_{axis}({here}, N) :- nth_{axis}({here}, 1), nth_{axis}({end}, N), not black({last}).")
    for axis, size in (("horizontal", p.row), ("vertical", p.col)):
        for i in range(size):
            clues = []
            for (r, c, d, pos), n in p.text.items():
                out, at = (c, r) if axis == "horizontal" else (r, c)
                if out <= -1 and at == i and d == Direction.CENTER and pos == "normal":
                    clues.append(n)
            if clues:
                need(all(isinstance(n, int) for n in clues))
                cell = f"{i}, C" if axis == "horizontal" else f"R, {i}"
                v = "C" if axis == "horizontal" else "R"
                for n in set(clues):
                    o.clue(f":- #count {{ {v} : grid({cell}), len_{axis}({cell}, {n}) }} != {clues.count(n)}.")
                o.clue(f":- grid({cell}), len_{axis}({cell}, N), {', '.join(f'N != {n}' for n in dict.fromkeys(clues))}.")
    marks(p, o, "black")
    o.show("black")


def creek(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("not gray"))
    for (r, c, d, pos), n in p.text.items():
        need(d == Direction.TOP_LEFT)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f":- {{ gray({r}, {c}); gray({r - 1}, {c}); gray({r}, {c - 1}); gray({r - 1}, {c - 1}) }} != {n}.")
    marks(p, o, "gray")
    o.show("gray")


def dominion(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4))
    o.rule(":- grid(R, C), black(R, C), #count { (R1, C1) : adj_4(R, C, R1, C1), black(R1, C1) } != 1.")
    o.rule(avoid_unknown_src("not black"))
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).")
        if x != "?":
            o.clue(src_connected((r, c), "not black"))
            for (r1, c1, _, _), y in p.text.items():
                if y != "?" and not (r == r1 and c == c1):
                    if y == x:
                        o.clue(f":- not reachable_grid_src_adj_4_not_black({r}, {c}, {r1}, {c1}).")
                    else:
                        o.clue(f":- reachable_grid_src_adj_4_not_black({r}, {c}, {r1}, {c1}).")
    marks(p, o, "black")
    o.show("black")


def fillpix(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(8, True))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(count_adjacent(n, (r, c), "gray", 8))
    marks(p, o, "gray")
    o.show("gray")


def no_pair_across_borders(p, o, color):
    """Two neighbours of the colour are not separated by a drawn border."""
    for (r, c, d, _), drawn in p.edge.items():
        if drawn and d == Direction.TOP and r > 0:
            o.rule(f":- {color}({r}, {c}), {color}({r - 1}, {c}).")
        if drawn and d == Direction.LEFT and c > 0:
            o.rule(f":- {color}({r}, {c}), {color}({r}, {c - 1}).")


def two_rooms_at_most(p, o, color):
    """No straight run of the colour crosses two borders (spans three rooms)."""
    for r in range(p.row):
        at = [c for c in range(1, p.col) if p.edge.get(Point(r, c, Direction.LEFT)) is True]
        for i in range(len(at) - 1):
            o.rule(avoid_rect_at(1, at[i + 1] - at[i] + 2, color, (r, at[i] - 1)))
    for c in range(p.col):
        at = [r for r in range(1, p.row) if p.edge.get(Point(r, c, Direction.TOP)) is True]
        for i in range(len(at) - 1):
            o.rule(avoid_rect_at(at[i + 1] - at[i] + 2, 1, color, (at[i] - 1, c)))


def heyablock(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("not gray", 4, (p.row, p.col)), area_connected("gray"))
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        n = clue_of(p, at) if at else None
        if isinstance(n, int):
            o.clue(count_area(n, "gray", i))
        else:
            o.clue(count_area(("gt", 0), "gray", i))
    two_rooms_at_most(p, o, "not gray")
    no_pair_across_borders(p, o, "gray")
    marks(p, o, "gray")
    o.show("gray")


def hitori(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), unique_num("not black", "row"), unique_num("not black", "col"), adjacent(4))
    o.rule(avoid_adjacent("black"), connected("not black", 4, (p.row, p.col)))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f"number({r}, {c}, {n}).")
    marks(p, o, "black")
    o.show("black")


def kurochute(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), avoid_adjacent("black"), connected("not black", 4, (p.row, p.col)))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).")
        if isinstance(n, int):
            o.clue(f":- {{ black({r + n}, {c}); black({r - n}, {c}); black({r}, {c + n}); black({r}, {c - n}) }} != 1.")
    marks(p, o, "black")
    o.show("black")


def kurodoko(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), avoid_adjacent("black"), connected("not black"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).", bulb_connected((r, c), "not black"))
        if isinstance(n, int):
            o.clue(count_reachable(n, (r, c), "not black", 4, "bulb"))
    marks(p, o, "black")
    o.show("black")


def kurotto(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).")
        if isinstance(n, int):
            o.clue(src_connected((r, c), "black"), count_reachable(n + 1, (r, c), "black"))
    marks(p, o, "black")
    o.show("black")


def lightshadow(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), avoid_unknown_src("black"), avoid_unknown_src("not black"))
    for (r, c, d, pos), _ in p.text.items():
        centre(d)
        need(pos == "normal")
    for (r, c, _, _), n in p.text.items():
        others = [(r1, c1) for r1, c1, _, _ in p.text if (r1, c1) != (r, c)]
        color = "black" if p.surface.get(Point(r, c)) == Color.BLACK else "not black"
        o.clue(f"{color}({r}, {c}).", src_connected((r, c), color, 4, (), others))
        if isinstance(n, int):
            o.clue(count_reachable(n, (r, c), color))
    marks(p, o, "black")
    o.show("black")


def lits(p, o):
    inverse = p.param["invlitso"]
    color = "not gray" if inverse else "gray"
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("gray", 4, (p.row, p.col)), avoid_rect(2, 2, "gray"))
    rooms(p, o)
    for i, k in enumerate("LITSO" if inverse else "LITS"):
        o.rule(shape("omino_4", i, OMINO[4][k], color, "area", 4, True))
    o.rule(all_shapes("omino_4", color, "area"), count_shape(1, "omino_4", None, color, "area"), area_adjacent(4, color))
    t = tag(color)
    o.rule(f":- area_adj_4_{t}(A, A1), A < A1, belong_to_shape_omino_4_{t}(A, _, _, T, _), belong_to_shape_omino_4_{t}(A1, _, _, T, _).")
    marks(p, o, "gray")
    o.show("gray")


def lookair(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4, True), all_rect("gray", True))
    # every cell of a square knows the size of the square
    o.rule("square_size(R, C, N) :- upleft(R, C), MC = #min { C0 : grid(R, C0 - 1), not gray(R, C0), C0 > C }, N = MC - C.")
    o.rule("square_size(R, C, N) :- grid(R, C), gray(R, C), square_size(R, C - 1, N).")
    o.rule("square_size(R, C, N) :- grid(R, C), gray(R, C), square_size(R - 1, C, N).")
    # the nearest shaded cell to the left (above) belongs to a square of another size
    for name, here, back, var, first, edge_cells in (("left", "R, C", "R, C - 1", "C - 1", "C0", ("upleft", "left")), ("up", "R, C", "R - 1, C", "R - 1", "R0", ("upleft", "up"))):
        o.rule(f"{name}_square({here}, {var}) :- grid({here}), gray({back}), not gray({here}).")
        o.rule(f"{name}_square({here}, {first}) :- grid({here}), not {name}_square({here}, {var}), {name}_square({back}, {first}).")
        for k in edge_cells:
            seen = "R, MC" if name == "left" else "MR, C"
            o.rule(f":- {k}(R, C), {name}_square(R, C, {'MC' if name == 'left' else 'MR'}), square_size(R, C, N), square_size({seen}, N).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(count_adjacent(n, (r, c), "gray", 4))
    marks(p, o, "gray")
    o.show("gray")


def mannequin(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("not gray", 4, (p.row, p.col)), area_adjacent(4))
    # dist: number of cells between two cells of a room, walking inside the room
    o.rule("dist(R, C, R, C, -1) :- grid(R, C).", "dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), dist(R0, C0, R, C, N).")
    o.rule(f"""dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), area(A, R, C), area(A, R0, C0), (R0, C0) != (R, C), N < {p.row + p.col},
               N - 1 = #min {{ N1 : adj_4(R0, C0, R1, C1), area(A, R1, C1), dist(R, C, R1, C1, N1) }}.""")
    o.rule("area_num(A, N) :- area(A, R0, C0), area(A, R1, C1), gray(R0, C0), gray(R1, C1), (R0, C0) < (R1, C1), dist(R0, C0, R1, C1, N).")
    o.rule(":- area(A, _, _), area_num(A, N0), area_num(A, N1), N0 < N1.", ":- area_adj_4(A1, A2), area_num(A1, N), area_num(A2, N).")
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells), count_area(2, "gray", i))
        if at:
            n = clue_of(p, at)
            if isinstance(n, int):
                o.clue(f"area_num({i}, {n}).")
    marks(p, o, "gray")
    o.show("gray")


def martini(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), adjacent(8), area_connected("gray", 4), connected("gray", 8))
    rooms(p, o)
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_L__1":
            o.clue(f"not gray({r}, {c}).", f"white_circle({r}, {c}).")
        if s == "circle_L__2":
            o.clue(f"gray({r}, {c}).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(src_connected((r, c), "not gray"))
            o.clue(f":- #count {{ R, C : reachable_grid_src_adj_4_not_gray({r}, {c}, R, C), white_circle(R, C) }} != {n}.")
    no_pair_across_borders(p, o, "gray")
    marks(p, o, "gray")
    o.show("gray")


def mochi(p, o):
    """Unshaded cells form rectangles, connected at least diagonally; a rectangle holds at most one clue: its size."""
    o.rule(grid(p.row, p.col), shade_c("black"), invert_c("black", "green"), adjacent(4), adjacent(8))
    o.rule(connected("not black", 8, (p.row, p.col)), avoid_rect(2, 2, "black"), all_rect("green"))
    need(len(p.text) > 0)
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).", f"clue({r}, {c}).", bulb_connected((r, c), "not black"))
        if isinstance(n, int):
            o.clue(count_rect(n, (r, c), "not black"))
    t = "reachable_bulb_src_adj_4_not_black"
    o.rule(f":- clue(R, C), clue(R1, C1), (R, C) != (R1, C1), {t}(R, C, R, C1), {t}(R1, C1, R, C1).")
    marks(p, o, "black")
    o.show("black")


def mochikoro(p, o):
    mochi(p, o)


def mochinyoro(p, o):
    mochi(p, o)
    o.rule(no_rect("black"))



def nonogram(p, o):
    o.rule(f"grid(-1..{p.row}, -1..{p.col}).", shade_c("black"))  # one ring of white cells around the board
    o.rule(f"not black(-1, -1..{p.col}).", f"not black({p.row}, -1..{p.col}).", f"not black(-1..{p.row}, -1).", f"not black(-1..{p.row}, {p.col}).")
    o.rule("row_count(R, -1, -1, 0) :- grid(R, _), R >= 0.", "col_count(-1, C, -1, 0) :- grid(_, C), C >= 0.")
    for t, line, prev in (("row_count", "R", "R, C - 1"), ("col_count", "C", "R - 1, C")):
        # t(cell, k, v): the k-th run, v cells of it so far (0: behind it)
        head = f"{t}(R, C, N, V) :- grid(R, C), {t}_value_range({line}, N, V)"
        o.rule(f"{head}, not black(R, C), {t}({prev}, N, _), V = 0.")
        o.rule(f"{head}, black(R, C), grid({prev}), not black({prev}), {t}({prev}, N - 1, _), V = 1.")
        o.rule(f"{head}, black(R, C), grid({prev}), black({prev}), {t}({prev}, N, V - 1).")
    for r in range(p.row):
        clues = tuple(n for (r1, c1, d1, pos1), n in p.text.items() if r1 == r and c1 <= -1 and d1 == Direction.CENTER and pos1 == "normal")
        o.rule(f"row_count_value_range({r}, -1, 0).")
        if len(clues) == 1 and clues[0] == 0:
            o.clue(f":- grid({r}, C), not row_count({r}, C, -1, 0).")
        else:
            o.clue(f":- not row_count({r}, {p.col - 1}, {len(clues) - 1}, _).")
            for k, n in enumerate(clues):
                if n == "?":
                    o.clue(f"row_count_value_range({r}, {k}, 0..{p.col + 2 - 2 * len(clues)}).")
                else:
                    need(isinstance(n, int))
                    o.clue(f"row_count_value_range({r}, {k}, 0..{n}).")
                    o.clue(f":- grid({r}, C), black({r}, C), row_count({r}, C, {k}, V), row_count({r}, C + 1, {k}, 0), V != {n}.")
    for c in range(p.col):
        clues = tuple(n for (r1, c1, d1, pos1), n in p.text.items() if r1 <= -1 and c1 == c and d1 == Direction.CENTER and pos1 == "normal")
        o.rule(f"col_count_value_range({c}, -1, 0).")
        if len(clues) == 1 and clues[0] == 0:
            o.clue(f":- grid(R, {c}), not col_count(R, {c}, -1, 0).")
        else:
            o.clue(f":- not col_count({p.row}, {c}, {len(clues) - 1}, 0).")
            for k, n in enumerate(clues):
                if n == "?":
                    o.clue(f"col_count_value_range({c}, {k}, 0..{p.row + 2 - 2 * len(clues)}).")
                else:
                    need(isinstance(n, int))
                    o.clue(f"col_count_value_range({c}, {k}, 0..{n}).")
                    o.clue(f":- grid(R, {c}), black(R, {c}), col_count(R, {c}, {k}, V), col_count(R + 1, {c}, {k}, 0), V != {n}.")
    marks(p, o, "black")
    o.show("black")


def norinori(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), nori_adjacent("gray"))
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), count_area(2, "gray", i))
    marks(p, o, "gray")
    o.show("gray")


def islands(p, o):
    """Each unshaded group holds exactly one clue, a number being its size."""
    for (r, c, d, pos), _ in p.text.items():
        centre(d)
        need(pos == "normal")
    for (r, c, _, _), n in p.text.items():
        others = [(r1, c1) for r1, c1, _, _ in p.text if (r1, c1) != (r, c)]
        o.clue(f"not black({r}, {c}).", src_connected((r, c), "not black", 4, (), others))
        if isinstance(n, int):
            o.clue(count_reachable(n, (r, c), "not black"))
    o.rule(avoid_unknown_src("not black"))
    marks(p, o, "black")
    o.show("black")


def norinuri(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), nori_adjacent("black"))
    islands(p, o)


def nothree(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), avoid_adjacent("black"), connected("not black", 4, (p.row, p.col)))
    # a shaded cell is not in the middle of its two nearest shaded cells of the line
    o.rule(""":- grid(R, C), black(R, C), MinR = #max { R0 : grid(R0, C), black(R0, C), R0 < R }, MaxR = #min { R0 : grid(R0, C), black(R0, C), R0 > R },
                 grid(MinR, C), grid(MaxR, C), R - MinR = MaxR - R.""")
    o.rule(""":- grid(R, C), black(R, C), MinC = #max { C0 : grid(R, C0), black(R, C0), C0 < C }, MaxC = #min { C0 : grid(R, C0), black(R, C0), C0 > C },
                 grid(R, MinC), grid(R, MaxC), C - MinC = MaxC - C.""")
    for (r, c, d, _), s in p.symbol.items():
        need(s.startswith("circle_SS"))
        if d == Direction.CENTER:
            o.clue(f"black({r}, {c}).")
        if d == Direction.TOP:
            o.clue(f":- {{ black({r}, {c}); black({r - 1}, {c}) }} != 1.")
        if d == Direction.LEFT:
            o.clue(f":- {{ black({r}, {c}); black({r}, {c - 1}) }} != 1.")
        if d == Direction.TOP_LEFT:
            o.clue(f":- {{ black({r}, {c}); black({r - 1}, {c}); black({r}, {c - 1}); black({r - 1}, {c - 1}) }} != 1.")
    marks(p, o, "black")
    o.show("black")


def nuribou(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), adjacent("x"), all_rect("black"), ":- grid(R, C), remain(R, C).")
    # strips: position of a cell in its strip, length of the strip
    o.rule("nth(R, C, 1) :- upleft(R, C).", "nth(R, C, N) :- up(R, C), nth(R, C - 1, N - 1).", "nth(R, C, N) :- left(R, C), nth(R - 1, C, N - 1).")
    o.rule(":- black(R, C), nth(R, C, N1), nth(R, C, N2), N1 < N2.")
    o.rule("len_strip(R, C, 1) :- upleft(R, C), not up(R, C + 1), not left(R + 1, C).")
    o.rule("len_strip(R, C, N) :- upleft(R, C), up(R, C + 1), black(R, C + N - 1), not black(R, C + N), nth(R, C + N - 1, N).")
    o.rule("len_strip(R, C, N) :- upleft(R, C), left(R + 1, C), black(R + N - 1, C), not black(R + N, C), nth(R + N - 1, C, N).")
    o.rule(":- black(R, C), len_strip(R, C, L), len_strip(R, C, L1), L < L1.")
    o.rule("len_strip(R, C, L) :- up(R, C), nth(R, C, N), len_strip(R, C - N + 1, L).")
    o.rule("len_strip(R, C, L) :- left(R, C), nth(R, C, N), len_strip(R - N + 1, C, L).")
    o.rule(":- black(R, C), black(R1, C1), adj_x(R, C, R1, C1), len_strip(R, C, L), len_strip(R1, C1, L1), L = L1.")
    islands(p, o)


def nurikabe(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("black", 4, (p.row, p.col)), avoid_rect(2, 2, "black"))
    islands(p, o)


def nurimisaki(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("not black"), avoid_rect(2, 2, "black"), avoid_rect(2, 2, "not black"))
    o.rule(count_grid(("gt", 0), "black"))
    capes = []
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        capes.append((r, c))
        o.clue(f"not black({r}, {c}).", count_adjacent(1, (r, c), "not black"))
        if isinstance(n, int):
            o.clue(bulb_connected((r, c), "not black"), count_reachable(n, (r, c), "not black", 4, "bulb"))
    body = ":- grid(R, C), not black(R, C), #count { R1, C1 : not black(R1, C1), adj_4(R, C, R1, C1) } = 1"
    if capes:
        body += ", " + ", ".join(f"|R - {r}| + |C - {c}| != 0" for r, c in capes)
    o.clue(body + ".")
    marks(p, o, "black")
    o.show("black")


def nuriuzu(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), avoid_rect(2, 2, "black"), avoid_rect(2, 2, "not black"))
    t = "reachable_grid_src_adj_4_not_black"
    seeds = []
    for (r, c, d, _), s in p.symbol.items():
        need(s.startswith("circle_SS"))
        if d == Direction.CENTER:
            seeds.append((r, c))
            o.clue(f"not black({r}, {c}).")
            o.clue(f":- grid(R, C), {t}({r}, {c}, R, C), not {t}({r}, {c}, {2 * r} - R, {2 * c} - C).")
        if d == Direction.TOP:
            seeds.append((r - 1, c))
            o.clue(f"not black({r - 1}, {c}).", f"not black({r}, {c}).")
            o.clue(f":- grid(R, C), {t}({r - 1}, {c}, R, C), not {t}({r - 1}, {c}, {2 * r - 1} - R, {2 * c} - C).")
        if d == Direction.LEFT:
            seeds.append((r, c - 1))
            o.clue(f"not black({r}, {c - 1}).", f"not black({r}, {c}).")
            o.clue(f":- grid(R, C), {t}({r}, {c - 1}, R, C), not {t}({r}, {c - 1}, {2 * r} - R, {2 * c - 1} - C).")
    need(len(seeds) > 0)
    for r, c in seeds:
        o.clue(src_connected((r, c), "not black", 4, (), [(r1, c1) for r1, c1 in seeds if (r1, c1) != (r, c)]))
    o.clue(f":- grid(R, C), not black(R, C), {', '.join(f'not {t}({r}, {c}, R, C)' for r, c in seeds)}.")
    marks(p, o, "black")
    o.show("black")


def paintarea(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("gray", 4, (p.row, p.col)), avoid_rect(2, 2, "gray"), avoid_rect(2, 2, "not gray"))
    o.rule(area_same_color("gray"))
    rooms(p, o)
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(count_adjacent(n, (r, c), "gray"))
    marks(p, o, "gray")
    o.show("gray")


def patchwork(p, o):
    o.rule(grid(p.row, p.col), edge(p.row, p.col), "{ black(R, C); white(R, C) } = 1 :- grid(R, C), not gray(R, C).", adjacent("edge"), all_rect_region(True))
    for color in ("black", "white"):
        o.rule(f":- grid(R, C), grid(R - 1, C), edge_top(R, C), {color}(R, C), {color}(R - 1, C).")
        o.rule(f":- grid(R, C), grid(R, C - 1), edge_left(R, C), {color}(R, C), {color}(R, C - 1).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(src_connected((r, c), None, "edge"))
            o.clue(f":- #count {{ R, C : reachable_grid_src_adj_edge({r}, {c}, R, C), black(R, C) }} != {n}.")
    edge_marks(p, o)
    for (r, c, _, _), k in p.surface.items():
        if k == Color.GRAY:  # a hole in the board
            o.clue(f"gray({r}, {c}).")
        elif k == Color.BLACK:
            o.mark(f"black({r}, {c}).", f"not gray({r}, {c}).")
        else:
            o.mark(f"white({r}, {c}).", f"not gray({r}, {c}).")
    o.show("black")
    o.show("edge_left")
    o.show("edge_top")


def counted_rooms(p, o, color):
    """Every room has cells of the colour, in one piece inside the room; a number tells how many."""
    o.rule(area_connected(color))
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        n = clue_of(p, at) if at else None
        if isinstance(n, int):
            o.clue(count_area(n, color, i))
        else:
            o.clue(count_area(("gt", 0), color, i))
    no_pair_across_borders(p, o, color)
    marks(p, o, color)
    o.show(color)


def shimaguni(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), area_adjacent(4))
    o.rule(":- area_adj_4(A, A1), A < A1, #count { R, C : area(A, R, C), gray(R, C) } = N, #count { R, C : area(A1, R, C), gray(R, C) } = N1, N = N1.")
    counted_rooms(p, o, "gray")


def snake(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("gray"), avoid_rect(2, 2, "gray"))
    o.rule(":- gray(R, C), gray(R + 1, C + 1), not gray(R, C + 1), not gray(R + 1, C).")
    o.rule(":- gray(R, C + 1), gray(R + 1, C), not gray(R, C), not gray(R + 1, C + 1).")
    near = "#count { R1, C1 : gray(R1, C1), adj_4(R, C, R1, C1) }"
    o.rule(f"pass_by_loop(R, C) :- grid(R, C), gray(R, C), {near} = 2.", f"dead_end(R, C) :- grid(R, C), gray(R, C), {near} = 1.")
    o.rule(":- { dead_end(R, C) } != 2.", ":- grid(R, C), gray(R, C), not pass_by_loop(R, C), not dead_end(R, C).")
    outside_counts(p, o, "gray")
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_L__1":
            o.clue(f"gray({r}, {c}).", f":- dead_end({r}, {c}).")
        if s == "circle_L__2":
            o.clue(f"gray({r}, {c}).", f":- not dead_end({r}, {c}).")
    marks(p, o, "gray")
    o.show("gray")


def heyawake(p, o):
    color = "gray"
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), adjacent("x"), avoid_adjacent("gray"), connected("not gray", 4, (p.row, p.col)))
    near = ("R - 1, C", "R, C - 1", "R + 1, C", "R, C + 1")
    o.rule(":- grid(R, C), not gray(R, C), " + ", ".join(f"gray({x})" for x in near) + ".")
    for out in near:  # the same at the border of the board
        o.rule(":- grid(R, C), not gray(R, C), " + ", ".join(f"not grid({x})" if x == out else f"gray({x})" for x in near) + ".")
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        n = clue_of(p, at) if at else None
        if isinstance(n, int):
            o.clue(count_area(n, "gray", i))
            if p.param["fast_mode"] and n > len(cells) // 4:
                heyawake_fast(p, o, i, cells)
    two_rooms_at_most(p, o, "not gray")
    marks(p, o, "gray")
    o.show("gray")


def heyawake_fast(p, o, i, cells):
    """The optional heuristics: at most so many white 2x2 blocks in a room, so many gaps on the border of the board."""
    b, t = "area_border", "reachable_area_border_adj_x_gray"
    for r, c in cells:
        if any((r + dr, c + dc) not in cells for dr in (-1, 0, 1) for dc in (-1, 0, 1)):
            o.clue(f"{b}({i}, {r}, {c}).")
    o.clue(f"{t}({i}, R, C) :- {b}({i}, R, C), gray(R, C).")
    o.clue(f"{t}({i}, R, C) :- {t}({i}, R1, C1), area({i}, R, C), gray(R, C), adj_x(R, C, R1, C1).")
    o.clue(f":- area({i}, R, C), gray(R, C), not {t}({i}, R, C).")
    block = ("R, C", "R + 1, C", "R, C + 1", "R + 1, C + 1")
    o.clue(f"rect_2x2({i}, R, C) :- " + ", ".join(f"area({i}, {x})" for x in block) + ", " + ", ".join(f"not gray({x})" for x in block) + ".")
    o.clue(f":- {{ rect_2x2({i}, R, C) }} > {int(p.param['limit_2x2'])}.")
    limit = int(p.param["limit_border"])
    sides = ((p.col, lambda c: (0, c)), (p.col, lambda c: (p.row - 1, c)), (p.row, lambda r: (r, 0)), (p.row, lambda r: (r, p.col - 1)))
    for size, side in sides:
        for first in range(size):
            if first > 0 and side(first - 1) in cells:
                continue  # within a run; an empty run matters only under a negative limit
            run, k = [], first
            while k < size and side(k) in cells:
                r, c = side(k)
                run.append(f"gray({r}, {c})")
                k += 1
            least = len(run) // 2 - limit
            if len(run) > size // 2 - 1 and least > 0:
                o.clue(f":- {{ {'; '.join(run)} }} < {least}.")


def hinge(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4))
    for k, back, wall in (("H", "R - 1, C", "edge_top"), ("V", "R, C - 1", "edge_left")):
        o.rule(f'symmetry(R, C, R0, C0, "{k}") :- grid(R, C), gray(R, C), gray({back}), {wall}(R, C), symmetry_axis(R, C, R0, C0, "{k}").')
    o.rule("symmetry(R, C, R0, C0, D) :- grid(R, C), gray(R, C), adj_4(R, C, R1, C1), symmetry(R1, C1, R0, C0, D).")
    o.rule(":- grid(R, C), gray(R, C), symmetry(R, C, R0, C0, D0), symmetry(R, C, R1, C1, D1), (R0, C0, D0) != (R1, C1, D1).")
    o.rule(":- grid(R, C), gray(R, C), not symmetry(R, C, _, _, _).")
    o.rule(':- symmetry(R, C, R0, C0, "H"), not symmetry(2 * R0 - 1 - R, C, R0, C0, "H").')
    o.rule(':- symmetry(R, C, R0, C0, "V"), not symmetry(R, 2 * C0 - 1 - C, R0, C0, "V").')
    # an axis is named by the first edge of a straight run of drawn borders
    for r in range(1, p.row):
        for first in range(p.col):
            if first > 0 and p.edge.get(Point(r, first - 1, Direction.TOP)) is True:
                continue
            c = first
            while c < p.col and p.edge.get(Point(r, c, Direction.TOP)) is True:
                o.rule(f"edge_top({r}, {c}).", f'symmetry_axis({r}, {c}, {r}, {first}, "H").')
                c += 1
    for c in range(1, p.col):
        for first in range(p.row):
            if first > 0 and p.edge.get(Point(first - 1, c, Direction.LEFT)) is True:
                continue
            r = first
            while r < p.row and p.edge.get(Point(r, c, Direction.LEFT)) is True:
                o.rule(f"edge_left({r}, {c}).", f'symmetry_axis({r}, {c}, {first}, {c}, "V").')
                r += 1
    room_counts(p, o, "gray")
    marks(p, o, "gray")
    o.show("gray")


def stostone(p, o):
    need(p.row % 2 == 0)
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), count_col(p.row // 2, "gray"))
    o.rule(""":- grid(R, C), gray(R, C), #count { R1 : grid(R1, C), gray(R1, C), R1 < R } = BC,
                 grid(R, C + 1), gray(R, C + 1), #count { R1 : grid(R1, C + 1), gray(R1, C + 1), R1 < R } = BC1, BC != BC1.""")
    counted_rooms(p, o, "gray")


RING = ((0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1))


def runs_of_ring(m):
    """Lengths of the runs of ones in the ring of 8 binary digits of m (no run: 0), sorted."""
    bits8 = [(m >> (7 - k)) & 1 for k in range(8)]
    if all(bits8):
        return (8,)
    z = bits8.index(0)
    text = "".join(str(b) for b in bits8[z:] + bits8[:z])
    return tuple(sorted(len(x) for x in text.split("0") if x)) or (0,)


def tapa_kinds():
    kinds = {}
    for m in range(256):
        kinds.setdefault(runs_of_ring(m), []).append(m)
    return kinds


def sub_bag(known, whole):
    rest = list(whole)
    for x in known:
        if x not in rest:
            return False
        rest.remove(x)
    return True


def tapa(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("black", 4, (p.row, p.col)), avoid_rect(2, 2, "black"))
    o.rule(f"binary(R, C, 0) :- -1 <= R, R <= {p.row}, -1 <= C, C <= {p.col}, not grid(R, C).")
    o.rule("binary(R, C, 0) :- grid(R, C), not black(R, C).", "binary(R, C, 1) :- grid(R, C), black(R, C).")
    kinds = tapa_kinds()
    for i, (k, ms) in enumerate(kinds.items()):
        for m in ms:
            o.rule(f"valid_tapa_map({i}, {m}).")
    clues = {}
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos.startswith("tapa"))
        clues.setdefault((r, c), []).append(n)
    for (r, c), ns in clues.items():
        o.clue(f"not black({r}, {c}).")
        around = ", ".join(f"binary({r + dr}, {c + dc}, N{k})" for k, (dr, dc) in enumerate(RING))
        o.clue(f":- not valid_tapa({r}, {c}, P), valid_tapa_map(P, N), {around}, N = {' + '.join(f'{2 ** (7 - k)} * N{k}' for k in range(8))}.")
        for i, k in enumerate(kinds):
            if len(k) == len(ns) and sub_bag([n for n in ns if n != "?"], k):
                o.clue(f"valid_tapa({r}, {c}, {i}).")
    marks(p, o, "black")
    o.show("black")


def tasquare(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), connected("not black", 4, (p.row, p.col)), all_rect("black", True))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"not black({r}, {c}).")
        if isinstance(n, int):
            o.clue(src_connected((r, c), "black"), count_reachable(n + 1, (r, c), "black"))
        else:
            o.clue(count_adjacent(("gt", 0), (r, c), "black"))
    marks(p, o, "black")
    o.show("black")


def tetrochain(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), adjacent(8), connected("black", 8, (p.row, p.col)), all_shapes("omino_4", "black"))
    for i, k in enumerate("TOILS"):
        o.rule(shape("omino_4", i, OMINO[4][k], "black"))
    b = "belong_to_shape_omino_4_black"
    o.rule(f":- not black(R, C + 1), not black(R + 1, C), {b}(R, C, T, _), {b}(R + 1, C + 1, T, _).")
    o.rule(f":- not black(R, C), not black(R + 1, C + 1), {b}(R + 1, C, T, _), {b}(R, C + 1, T, _).")
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        n, a = arrow_clue(x)
        o.clue(f"not black({r}, {c}).", count_arrow(n, (r, c), a, "black", False))
    marks(p, o, "black")
    o.show("black")


def tilepaint(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), area_same_color("gray"))
    rooms(p, o)
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        if r == -1 and 0 <= c < p.col and isinstance(n, int):
            need(pos == "sudoku_2")
            o.clue(count_col(n, "gray", c))
        if c == -1 and 0 <= r < p.row and isinstance(n, int):
            need(pos == "sudoku_1")
            o.clue(count_row(n, "gray", r))
    marks(p, o, "gray")
    o.show("gray")


def usoone(p, o):
    o.rule(defined("clue", 4), grid(p.row, p.col), shade_c("gray"), adjacent(4), avoid_adjacent("gray"), connected("not gray", 4, (p.row, p.col)))
    near = "#count { R1, C1 : gray(R1, C1), adj_4(R, C, R1, C1) }"
    o.rule("{ wrong_clue(A, R, C) } :- clue(A, R, C, _).", ":- clue(A, _, _, _), { wrong_clue(A, R, C) } != 1.")
    o.rule(f":- clue(A, R, C, N), not wrong_clue(A, R, C), {near} != N.", f":- clue(A, R, C, N), wrong_clue(A, R, C), {near} = N.")
    o.rule("ox_E__1(R, C) :- grid(R, C), clue(_, R, C, _), not wrong_clue(_, R, C).")
    o.rule("ox_E__7(R, C) :- grid(R, C), clue(_, R, C, _), wrong_clue(_, R, C).")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        for r, c in cells:
            n = p.text.get(Point(r, c, Direction.CENTER, "normal"))
            if n is not None:
                need(isinstance(n, int))
                o.clue(f"not gray({r}, {c}).", f"clue({i}, {r}, {c}, {n}).")
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "ox_E__1":
            o.mark(f":- wrong_clue(_, {r}, {c}).")
        if s == "ox_E__4" or s == "ox_E__7":
            o.mark(f":- not wrong_clue(_, {r}, {c}).")
    marks(p, o, "gray")
    o.show("gray")
    o.show("ox_E__1")
    o.show("ox_E__7")


def yajikazu(p, o):
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), avoid_adjacent("gray"), connected("not gray"), count_grid(("gt", 0), "gray"))
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        n, a = arrow_clue(x)
        o.clue(count_arrow(n, (r, c), a, "gray", True))
    marks(p, o, "gray")
    o.show("gray")


def yinyang(p, o):
    w, b = "circle_M__1", "circle_M__2"
    o.rule(grid(p.row, p.col), shade_c(w), invert_c(w, b), adjacent(4))
    for k in (w, b):
        o.rule(avoid_rect(2, 2, k), connected(k, 4, (p.row, p.col)))
    o.rule(f":- {w}(R, C), {w}(R + 1, C + 1), {b}(R, C + 1), {b}(R + 1, C).", f":- {b}(R, C), {b}(R + 1, C + 1), {w}(R, C + 1), {w}(R + 1, C).")
    # implied: walking along the border of the board the colour changes at most twice
    for x, y in ((w, b), (b, w)):
        for r in range(p.row - 1):
            o.rule(f"changed({r}, 0) :- {x}({r}, 0), {y}({r + 1}, 0).")
            o.rule(f"changed({r + 1}, {p.col - 1}) :- {x}({r + 1}, {p.col - 1}), {y}({r}, {p.col - 1}).")
        for c in range(p.col - 1):
            o.rule(f"changed(0, {c}) :- {x}(0, {c}), {y}(0, {c + 1}).")
            o.rule(f"changed({p.row - 1}, {c + 1}) :- {x}({p.row - 1}, {c + 1}), {y}({p.row - 1}, {c}).")
    o.rule(":- { changed(R, C) } > 2.")
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == w:
            o.mark(f"{w}({r}, {c}).")
        else:
            o.mark(f"not {w}({r}, {c}).")
    o.show(w)
    o.show(b)
