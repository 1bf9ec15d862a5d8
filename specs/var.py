"""Contracts of the puzzles of mixed kinds (symbols, shapes, slants, ...)."""
from noqx.puzzle import Color, Direction, Point

from specs.lib import *


def akari(p, o):
    lit = "reachable_sun_moon__3_branch_adj_4_not_black"
    o.rule(defined("black"), grid(p.row, p.col), adjacent(4))
    o.rule("{ sun_moon__3(R, C) } :- grid(R, C), not black(R, C).")
    # a lamp lights its row and column up to the next black cell: every white cell, but no other lamp
    o.rule(f"{lit}(R0, C0, R, C) :- grid(R, C), sun_moon__3(R, C), R0 = R, C0 = C.")
    o.rule(f"{lit}(R0, C0, R, C) :- {lit}(R0, C0, R1, C1), not black(R, C), adj_4(R, C, R1, C1), (R - R0) * (C - C0) = 0.")
    o.rule(f":- sun_moon__3(R0, C0), sun_moon__3(R, C), |R0 - R| + |C0 - C| != 0, {lit}(R0, C0, R, C).")
    o.rule(f":- grid(R, C), not black(R, C), not sun_moon__3(R, C), {{ {lit}(R0, C0, R, C) }} = 0.")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(count_adjacent(n, (r, c), "sun_moon__3"))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        need(s == "sun_moon__3")
        o.mark(f"sun_moon__3({r}, {c}).")
    walls(p, o, "black")
    o.show("sun_moon__3")


def battleship(p, o):
    # all drawn ship parts are of one style
    fleet = ""
    for (r, c, d, _), s in p.symbol.items():
        name, part = s.split("__")
        centre(d)
        need(name.startswith("battleship"))
        need(fleet == "" or fleet == name)
        fleet = name
        # 7 and 8 are water, anything else is a ship part
        if part == "7" or part == "8":
            o.clue(f"not {fleet}({r}, {c}).")
        else:
            o.clue(f"{fleet}({r}, {c}).")
        up = (r - 1, c)
        down = (r + 1, c)
        left = (r, c - 1)
        right = (r, c + 1)
        off = ()
        on = ()
        if part == "1":
            off = (down, up, right, left)
        if part == "2":
            need(0 < c < p.col - 1 or 0 < r < p.row - 1)
            o.clue(f":- #count {{ R, C : {fleet}(R, C), adj_4({r}, {c}, R, C) }} != 2.")
        if part == "3":
            need(c < p.col - 1)
            off, on = (left,), (right,)
        if part == "4":
            need(r < p.row - 1)
            off, on = (up,), (down,)
        if part == "5":
            need(c > 0)
            off, on = (right,), (left,)
        if part == "6":
            need(r > 0)
            off, on = (down,), (up,)
        for r1, c1 in off:
            o.clue(f":- grid({r1}, {c1}), {fleet}({r1}, {c1}).")
        for r1, c1 in on:
            o.clue(f":- grid({r1}, {c1}), not {fleet}({r1}, {c1}).")
    if fleet == "":
        fleet = "battleship_B"
    o.rule(grid(p.row, p.col), shade_c(fleet), adjacent(4), adjacent("x"), avoid_adjacent(fleet, "x"), all_shapes("battleship", fleet))
    # four ships of size 1, three of size 2, two of size 3, one of size 4
    for n in (1, 2, 3, 4):
        o.rule(shape("battleship", n, OMINO[n]["." if n == 1 else "I"], fleet))
        o.rule(count_shape(5 - n, "battleship", n, fleet))
    outside_counts(p, o, fleet)
    o.show(fleet)


def binairo(p, o):
    need(p.row % 2 == 0 and p.col % 2 == 0)
    o.rule(grid(p.row, p.col), shade_c("circle_M__1"), invert_c("circle_M__1", "circle_M__2"))
    # as many white as black in every row and column
    o.rule(count_row(p.col // 2, "circle_M__1"), count_col(p.row // 2, "circle_M__1"))
    # no two rows alike, no two columns alike
    o.rule(":- grid(R1, _), grid(R2, _), R1 < R2, #count { C : grid(R1, C), grid(R2, C), circle_M__1(R1, C), not circle_M__1(R2, C) } = 0, "
           "#count { C : grid(R1, C), grid(R2, C), circle_M__2(R1, C), not circle_M__2(R2, C) } = 0.")
    o.rule(":- grid(_, C1), grid(_, C2), C1 < C2, #count { R : grid(R, C1), grid(R, C2), circle_M__1(R, C1), not circle_M__1(R, C2) } = 0, "
           "#count { R : grid(R, C1), grid(R, C2), circle_M__2(R, C1), not circle_M__2(R, C2) } = 0.")
    # no three alike in a row
    for k in ("circle_M__1", "circle_M__2"):
        o.rule(avoid_rect(1, 3, k), avoid_rect(3, 1, k))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_M__1":
            o.clue(f":- circle_M__2({r}, {c}).")
        else:
            o.clue(f":- circle_M__1({r}, {c}).")
    o.show("circle_M__1")
    o.show("circle_M__2")


def fillmat(p, o):
    o.rule(grid(p.row, p.col), edge(p.row, p.col), adjacent(4), adjacent("edge"))
    for n in (1, 2, 3, 4):
        o.rule(shape("fillmat", n, OMINO[n]["." if n == 1 else "I"], "grid", "grid", "edge"))
    o.rule(all_shapes("fillmat", "grid"), no_crossing_edges())
    # mats of the same size do not touch
    mat = "belong_to_shape_fillmat_grid"
    o.rule(f":- grid(R, C), grid(R1, C1), adj_4(R, C, R1, C1), not adj_edge(R, C, R1, C1), {mat}(R, C, N, _), {mat}(R1, C1, N, _).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f":- not {mat}({r}, {c}, {n}, _).")
    edge_marks(p, o)
    o.show("edge_left")
    o.show("edge_top")


def gokigen(p, o):
    o.rule(grid(p.row + 1, p.col + 1), direction(["ul", "ur", "dl", "dr"]), fill_path("grid"))
    # both ends of a slant
    o.rule(':- grid(R, C), grid_direction(R, C, "ul"), not grid_direction(R - 1, C - 1, "dr").')
    o.rule(':- grid(R, C), grid_direction(R, C, "ur"), not grid_direction(R - 1, C + 1, "dl").')
    o.rule(':- grid(R, C), grid_direction(R, C, "dl"), not grid_direction(R + 1, C - 1, "ur").')
    o.rule(':- grid(R, C), grid_direction(R, C, "dr"), not grid_direction(R + 1, C + 1, "ul").')
    o.rule("grid_direc_num(R, C, D, 0) :- grid(R, C), direction(D), not grid_direction(R, C, D).")
    o.rule("grid_direc_num(R, C, D, 1) :- grid_direction(R, C, D).")
    # exactly one slant in every cell
    o.rule(':- grid(R, C), grid(R + 1, C + 1), { grid_direction(R, C, "dr"); grid_direction(R, C + 1, "dl") } != 1.')
    # no loop: every point is connected to the border by slants
    o.rule("reachable(R, C) :- grid(R, C), not grid(R - 1, C - 1).")
    o.rule("reachable(R, C) :- grid(R, C), not grid(R + 1, C + 1).")
    o.rule('reachable(R, C) :- grid(R, C), reachable(R - 1, C - 1), not grid_direction(R, C - 1, "ur").')
    o.rule('reachable(R, C) :- grid(R, C), reachable(R - 1, C + 1), not grid_direction(R, C + 1, "ul").')
    o.rule('reachable(R, C) :- grid(R, C), reachable(R + 1, C - 1), not grid_direction(R, C - 1, "dr").')
    o.rule('reachable(R, C) :- grid(R, C), reachable(R + 1, C + 1), not grid_direction(R, C + 1, "dl").')
    o.rule(":- grid(R, C), not reachable(R, C).")
    o.rule(direction_to_diagonal())
    for (r, c, d, pos), n in p.text.items():
        need(d == Direction.TOP_LEFT)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f":- #count {{ D : grid_direction({r}, {c}, D) }} != {n}.")
    o.show("edge_diag_down")
    o.show("edge_diag_up")


def hakoiri(p, o):
    o.rule(grid(p.row, p.col), shade_cc(["ox_E__1", "ox_E__2", "ox_E__3", "white"]), adjacent(4), adjacent(8))
    o.rule(connected("not white", 4, (p.row, p.col)))
    for k in ("ox_E__1", "ox_E__2", "ox_E__3"):
        o.rule(avoid_adjacent(k, 8))
        o.show(k)
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), count_area(1, "ox_E__1", i), count_area(1, "ox_E__2", i), count_area(1, "ox_E__3", i))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        kind, style = s.split("__")
        need(kind in ("ox_B", "ox_E"))
        need(style in ("1", "2", "3", "4", "7", "8"))
        if style in ("1", "2", "3"):
            o.clue(f"ox_E__{style}({r}, {c}).")
        else:
            o.clue(f"white({r}, {c}).")


def juosan(p, o):
    # black: horizontal bar
    o.rule(grid(p.row, p.col), shade_c("black"))
    o.rule(":- grid(R, C), grid(R + 2, C), black(R, C), black(R + 1, C), black(R + 2, C).")
    o.rule(":- grid(R, C), grid(R, C + 2), not black(R, C), not black(R, C + 1), not black(R, C + 2).")
    o.rule('content(R, C, "——") :- grid(R, C), black(R, C).')
    o.rule('content(R, C, "|") :- grid(R, C), not black(R, C).')
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        if at:
            n = p.text.get(Point(*at, Direction.CENTER, "sudoku_0"))
            if isinstance(n, int):
                # n bars of one of the two kinds
                o.clue(f"count_area({i}, N) :- #count {{ R, C : area({i}, R, C), black(R, C) }} = N.")
                o.clue(f":- not count_area({i}, {n}), not count_area({i}, {len(cells) - n}).")
    o.show("content", 3)


def magnets(p, o):
    o.rule(grid(p.row, p.col), shade_cc(["math_G__2", "math_G__3", "gray"]), adjacent(4))
    # like poles do not touch; a plate is a magnet with two poles or blank
    o.rule(":- math_G__2(R, C), math_G__2(R1, C1), adj_4(R, C, R1, C1).")
    o.rule(":- math_G__3(R, C), math_G__3(R1, C1), adj_4(R, C, R1, C1).")
    for a, b in (("math_G__2", "math_G__3"), ("math_G__3", "math_G__2"), ("gray", "gray")):
        o.rule(f":- {a}(R, C), area(A, R, C), not {b}(R1, C1), area(A, R1, C1), adj_4(R, C, R1, C1).")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        need(len(cells) == 2)
        o.rule(area(i, cells))
    # above and left: number of plus poles, below and right: of minus poles
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        if r == -1 and 0 <= c < p.col:
            o.clue(count_col(n, "math_G__2", c))
        if r == p.row and 0 <= c < p.col:
            o.clue(count_col(n, "math_G__3", c))
        if c == -1 and 0 <= r < p.row:
            o.clue(count_row(n, "math_G__2", r))
        if c == p.col and 0 <= r < p.row:
            o.clue(count_row(n, "math_G__3", r))
    dark_only(p, o, "gray")
    o.show("math_G__2")
    o.show("math_G__3")
    o.show("gray")


def mines(p, o):
    o.rule(grid(p.row, p.col), shade_c("sun_moon__4"), adjacent(8))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        o.clue(f"not sun_moon__4({r}, {c}).", count_adjacent(n, (r, c), "sun_moon__4", 8))
    total = p.param["mine_count"]
    if total:
        need(isinstance(total, str) and total.isdigit())
        o.clue(count_grid(int(total), "sun_moon__4"))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        need(s == "sun_moon__4")
        o.mark(f"sun_moon__4({r}, {c}).")
    o.show("sun_moon__4")


def news(p, o):
    o.rule(grid(p.row, p.col), unique_num("grid", "row"), unique_num("grid", "col"), unique_num("grid", "area"))
    # 1 North, 2 East, 3 West, 4 South: the letter lies further that way than the other letter of its room
    for n, c in ((1, "R1 <= R"), (2, "C1 >= C"), (3, "C1 <= C"), (4, "R1 >= R")):
        o.rule(f":- area(A, R, C), area(A, R1, C1), number(R, C, {n}), number(R1, C1, N1), N1 != {n}, {c}.")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), fill_num(rng(1, 4), "white", f"area({i}, R, C)"), count_area(len(cells) - 2, "white", i))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        kind, style = s.split("__")
        need(kind in ("ox_B", "ox_E"))
        need(style in ("4", "7", "8"))
        o.clue(f"white({r}, {c}).")
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        need(x in ("N", "E", "W", "S"))
        if x == "N":
            o.clue(f"number({r}, {c}, 1).")
        if x == "E":
            o.clue(f"number({r}, {c}, 2).")
        if x == "W":
            o.clue(f"number({r}, {c}, 3).")
        if x == "S":
            o.clue(f"number({r}, {c}, 4).")
    o.show("number", 3)


def nondango(p, o):
    o.rule(defined("drawable"), grid(p.row, p.col))
    o.rule("{ circle_M__1(R, C) } :- drawable(R, C).", "circle_M__2(R, C) :- drawable(R, C), not circle_M__1(R, C).")
    # no three circles of a colour in a line
    for k in ("circle_M__1", "circle_M__2"):
        o.rule(avoid_rect(1, 3, k), avoid_rect(3, 1, k))
        o.rule(f":- {k}(R, C), {k}(R + 1, C + 1), {k}(R + 2, C + 2).")
        o.rule(f":- {k}(R, C), {k}(R + 1, C - 1), {k}(R + 2, C - 2).")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), count_area(1, "circle_M__2", i))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        need(s in ("circle_M__1", "circle_M__2", "circle_M__4"))
        if s == "circle_M__4":
            o.clue(f"drawable({r}, {c}).")
        else:
            # a colour can be drawn in a circle only
            need(Point(r, c, d, "nondango_mark") in p.symbol)
            if s == "circle_M__1":
                o.mark(f":- circle_M__2({r}, {c}).")
            else:
                o.mark(f":- circle_M__1({r}, {c}).")
    o.show("circle_M__1")
    o.show("circle_M__2")


def pentopia(p, o):
    o.rule(grid(p.row, p.col), shade_c("black"), adjacent(4), adjacent("x"), all_shapes("omino_5", "black"))
    piece = "belong_to_shape_omino_5_black"
    o.rule(f":- adj_x(R, C, R1, C1), {piece}(R, C, T, _), {piece}(R1, C1, T1, _), T != T1.")
    for i, cells in enumerate(OMINO[5].values()):
        o.rule(shape("omino_5", i, cells, "black"), count_shape(("le", 1), "omino_5", i, "black"))
    far = max(p.row, p.col) + 1
    for (r, c, d, pos), s in p.symbol.items():
        centre(d)
        need(pos == "multiple")
        kind, style = s.split("__")
        bits = int(style)
        need(kind == "arrow_cross")
        need(bits & 64 or bits & 128 or bits & 16 or bits & 32)
        # distance to the nearest black cell in each direction (far: none)
        top = f"Mt = #max {{ R : grid(R, {c}), black(R, {c}), R <= {r} }}"
        low = f"Mb = #min {{ R : grid(R, {c}), black(R, {c}), R >= {r} }}"
        left = f"Ml = #max {{ C : grid({r}, C), black({r}, C), C <= {c} }}"
        right = f"Mr = #min {{ C : grid({r}, C), black({r}, C), C >= {c} }}"
        o.clue(f"not black({r}, {c}).")
        o.clue(f"top({r}, {c}, {r} - Mt) :- {top}, grid(Mt, _).", f"top({r}, {c}, {far}) :- {top}, not grid(Mt, _).")
        o.clue(f"bottom({r}, {c}, Mb - {r}) :- {low}, grid(Mb, _).", f"bottom({r}, {c}, {far}) :- {low}, not grid(Mb, _).")
        o.clue(f"left({r}, {c}, {c} - Ml) :- {left}, grid(_, Ml).", f"left({r}, {c}, {far}) :- {left}, not grid(_, Ml).")
        o.clue(f"right({r}, {c}, Mr - {c}) :- {right}, grid(_, Mr).", f"right({r}, {c}, {far}) :- {right}, not grid(_, Mr).")
        # arrows point to the nearest ones
        t = "=" if bits & 64 else "<"
        l = "=" if bits & 128 else "<"
        b = "=" if bits & 16 else "<"
        r_ = "=" if bits & 32 else "<"
        o.clue(f"opia({r}, {c}) :- top({r}, {c}, N1), bottom({r}, {c}, N2), left({r}, {c}, N3), right({r}, {c}, N4), N {t} N1, N {b} N2, N {l} N3, N {r_} N4.")
        o.clue(f":- not opia({r}, {c}).")
    marks(p, o, "black")
    o.show("black")


def white_regions_are_rectangles():
    """Shakashaka: cells are white or half black (the triangle names the black... corner); every white region is a rectangle,
    upright or at 45 degrees.  The meaning of this text is compared with a geometric evaluator (checks/meaning.py)."""
    out = ""
    # the lower (right) side of the cell is white
    for name, tris in (("white_down", ("ul", "ur")), ("white_right", ("ul", "dl"))):
        out += f"{name}(R, C) :- grid(R, C), white(R, C).\n"
        for t in tris:
            out += f'{name}(R, C) :- grid(R, C), triangle(R, C, "{t}").\n'
    # upright rectangles: corner, left side, upper side, rest
    for head, cond in (
        ("rect_ul", "white(R, C), not white_down(R - 1, C), not white_right(R, C - 1)"),
        ("rect_l", "white(R, C), rect_ul(R - 1, C), not white_right(R, C - 1)"),
        ("rect_l", "white(R, C), rect_l(R - 1, C), not white_right(R, C - 1)"),
        ("rect_u", "white(R, C), rect_ul(R, C - 1), not white_down(R - 1, C)"),
        ("rect_u", "white(R, C), rect_u(R, C - 1), not white_down(R - 1, C)"),
        ("remain", "rect_l(R, C - 1), rect_u(R - 1, C)"),
        ("remain", "rect_l(R, C - 1), remain(R - 1, C)"),
        ("remain", "remain(R, C - 1), rect_u(R - 1, C)"),
        ("remain", 'remain(R, C - 1), remain(R - 1, C), not triangle(R, C, "dr")'),
    ):
        out += f"{head}(R, C) :- grid(R, C), {cond}.\n"
    # slanted sides: the triangle goes on or turns the corner at both of its ends
    def tri(dr, dc, t):
        return f'triangle(R + {dr}, C + {dc}, "{t}")'
    for v, h in (("u", "l"), ("u", "r"), ("d", "l"), ("d", "r")):
        y = 1 if v == "u" else -1          # towards the white side
        x = 1 if h == "l" else -1
        t = v + h
        flip_v = ("d" if v == "u" else "u") + h
        flip_h = v + ("r" if h == "l" else "l")
        end_h = tri(0, x, flip_h)          # corner at the end beside the cell
        go_h = tri(-y, x, t)               # side goes on there
        end_v = tri(y, 0, flip_v)
        go_v = tri(y, -x, t)
        body = f'grid(R, C), triangle(R, C, "{t}")'
        out += f"slant_{t}(R, C) :- {body}, {end_h}, {end_v}.\n"
        out += f"slant_{t}(R, C) :- {body}, {end_h}, {go_v}.\n"
        out += f"slant_{t}(R, C) :- {body}, {end_v}, {go_h}.\n"
        out += f"slant_{t}(R, C) :- {body}, {go_h}, {go_v}, white(R + {y}, C), white(R, C + {x}).\n"
        out += f":- grid(R, C), triangle(R, C, \"{t}\"), not slant_{t}(R, C).\n"
    # what lies inside two slanted sides is white
    out += "remain(R, C) :- grid(R, C), slant_ul(R, C - 1), slant_ul(R - 1, C).\n"
    out += "remain(R, C) :- grid(R, C), slant_dl(R, C - 1), slant_dl(R + 1, C).\n"
    out += "remain(R, C) :- grid(R, C), slant_ur(R, C + 1), slant_ur(R - 1, C).\n"
    out += ":- grid(R, C), remain(R, C), not white(R, C).\n"
    out += ":- grid(R, C), white(R, C), not rect_ul(R, C), not rect_l(R, C), not rect_u(R, C), not remain(R, C).\n"
    return out


def shakashaka(p, o):
    o.rule(defined("black"), grid(p.row, p.col), adjacent(4))
    o.rule('{ white(R, C); triangle(R, C, "ul"); triangle(R, C, "ur"); triangle(R, C, "dl"); triangle(R, C, "dr") } = 1 :- grid(R, C), not black(R, C).')
    o.rule(white_regions_are_rectangles())
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if isinstance(n, int):
            o.clue(f":- #count {{ R, C : adj_4({r}, {c}, R, C), triangle(R, C, _) }} != {n}.")
    for (r, c, _, _), k in p.surface.items():
        need(k in Color.DARK)
        o.clue(f"black({r}, {c}).")
    o.show("triangle", 3)


def starbattle(p, o):
    need(p.param["stars"].isdigit())
    n = int(p.param["stars"])
    o.rule(grid(p.row, p.col), shade_c("star__2"), adjacent(8), avoid_adjacent("star__2", 8))
    o.rule(count_row(n, "star__2"), count_col(n, "star__2"))
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), count_area(n, "star__2", i))
    for (r, c, d, _), s in p.symbol.items():
        # the stars above the board are decoration
        if r != -1:
            centre(d)
            if s == "star__2":
                o.mark(f"star__2({r}, {c}).")
            if s == "star__0":
                o.mark(f"not star__2({r}, {c}).")
    o.show("star__2")


def statuepark(p, o):
    sets = p.param["shapeset"]
    need(sets in ("tetro", "pento", "double_tetro"))
    n = 5 if sets == "pento" else 4
    copies = 2 if sets == "double_tetro" else 1
    o.rule(grid(p.row, p.col), shade_c("gray"), adjacent(4), connected("not gray", 4, (p.row, p.col)))
    o.rule(all_shapes(f"omino_{n}", "gray"))
    for i, cells in enumerate(OMINO[n].values()):
        o.rule(shape(f"omino_{n}", i, cells, "gray"), count_shape(copies, f"omino_{n}", i, "gray"))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_M__2":
            o.clue(f"gray({r}, {c}).")
        if s == "circle_M__1":
            o.clue(f"not gray({r}, {c}).")
    marks(p, o, "gray")
    o.show("gray")


def symmarea(p, o):
    fast = p.param["fast_mode"]
    src = "reachable_grid_src_adj_edge"
    own = "reachable_grid_branch_adj_edge"
    o.rule(grid(p.row, p.col), edge(p.row, p.col), adjacent(4), adjacent("edge"))
    # fillomino: neighbours of the same number are in one region, neighbours of different numbers are not
    o.rule(f"number(R, C, N) :- number(R0, C0, N), {src}(R0, C0, R, C).")
    o.rule(":- grid(R, C), number(R, C, N1), number(R, C, N2), N1 < N2.")
    o.rule(":- number(R, C, N), number(R, C + 1, N), edge_left(R, C + 1).")
    o.rule(":- number(R, C, N), number(R + 1, C, N), edge_top(R + 1, C).")
    o.rule(":- number(R, C, N1), number(R, C + 1, N2), N1 != N2, not edge_left(R, C + 1).")
    o.rule(":- number(R, C, N1), number(R + 1, C, N2), N1 != N2, not edge_top(R + 1, C).")
    o.rule("{ edge_top(R, C); edge_top(R + 1, C); edge_left(R, C); edge_left(R, C + 1) } = 4 :- number(R, C, 1).")
    o.rule("number(R, C, 1) :- edge_top(R, C), edge_top(R + 1, C), edge_left(R, C), edge_left(R, C + 1).")
    o.rule(":- number(R, C, 1), number(R1, C1, 1), adj_4(R, C, R1, C1).")
    # cells in no clued region: their number is the size of their region
    o.rule(f"have_numberx(R, C) :- grid(R, C), not {src}(_, _, R, C).")
    o.rule(f"{own}(R, C, R, C) :- grid(R, C), have_numberx(R, C).")
    o.rule(f"{own}(R, C, R0, C0) :- grid(R0, C0), grid(R, C), {own}(R, C, R1, C1), have_numberx(R0, C0), have_numberx(R, C), adj_edge(R0, C0, R1, C1).")
    if fast:
        o.rule("{ numberx(R, C, 1..5) } = 1 :- grid(R, C), have_numberx(R, C).")
        o.rule(f":- numberx(R, C, N), #count {{ R1, C1 : {own}(R, C, R1, C1) }} != N.")
    else:
        o.rule(f"{{ numberx(R, C, N) }} = 1 :- grid(R, C), have_numberx(R, C), #count {{ R1, C1 : {own}(R, C, R1, C1) }} = N.")
    o.rule(":- number(R, C, N), numberx(R1, C1, N), adj_4(R, C, R1, C1).")
    o.rule(":- numberx(R, C, N), numberx(R, C + 1, N), edge_left(R, C + 1).")
    o.rule(":- numberx(R, C, N), numberx(R + 1, C, N), edge_top(R + 1, C).")
    o.rule(":- have_numberx(R, C), have_numberx(R, C + 1), numberx(R, C, N), not numberx(R, C + 1, N), not edge_left(R, C + 1).")
    o.rule(":- have_numberx(R, C), have_numberx(R + 1, C), numberx(R, C, N), not numberx(R + 1, C, N), not edge_top(R + 1, C).")
    # a clued region is symmetric about the centre of its bounding box
    for name, agg, v in (("min_r", "#min", "R1"), ("max_r", "#max", "R1"), ("min_c", "#min", "C1"), ("max_c", "#max", "C1")):
        o.rule(f"{name}(R, C, M) :- clue(R, C), M = {agg} {{ {v} : grid(R1, C1), {src}(R, C, R1, C1) }}.")
    o.rule("symm_coord_sum(R, C, SR, SC) :- clue(R, C), min_r(R, C, MINR), max_r(R, C, MAXR), min_c(R, C, MINC), max_c(R, C, MAXC), SR = MINR + MAXR, SC = MINC + MAXC.")
    o.rule(f":- clue(R0, C0), clue(R1, C1), {src}(R0, C0, R1, C1), symm_coord_sum(R0, C0, SR, SC), not symm_coord_sum(R1, C1, SR, SC).")
    o.rule(f":- clue(R, C), symm_coord_sum(R, C, SR, SC), {src}(R, C, R0, C0), not {src}(R, C, SR - R0, SC - C0).")
    if not fast:
        # so are the others
        for name, agg, v, line in (("min_rx", "#min", "R1", "grid(M, _)"), ("max_rx", "#max", "R1", "grid(M, _)"),
                                   ("min_cx", "#min", "C1", "grid(_, M)"), ("max_cx", "#max", "C1", "grid(_, M)")):
            o.rule(f"{{ {name}(R, C, M) : {line} }} = 1 :- grid(R, C), have_numberx(R, C).")
            o.rule(f"{name}(R, C, M) :- have_numberx(R, C), M = {agg} {{ {v} : grid(R1, C1), {own}(R, C, R1, C1) }}, {line}.")
            o.rule(f":- have_numberx(R, C), adj_edge(R0, C0, R, C), {name}(R0, C0, M), not {name}(R, C, M).")
        o.rule("symm_coord_sumx(R, C, SR, SC) :- grid(R, C), have_numberx(R, C), min_rx(R, C, MINR), max_rx(R, C, MAXR), min_cx(R, C, MINC), max_cx(R, C, MAXC), SR = MINR + MAXR, SC = MINC + MAXC.")
        o.rule(f":- have_numberx(R, C), symm_coord_sumx(R, C, SR, SC), not {own}(R, C, SR - R, SC - C).")
    sizes = set()
    for _, n in p.text.items():
        if isinstance(n, int):
            sizes.add(n)
    o.rule(f":- #count {{ R, C : grid(R, C), have_numberx(R, C) }} > {p.row * p.col - sum(sizes)}.")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        need(isinstance(n, int))
        o.clue(f"number({r}, {c}, {n}).", f"clue({r}, {c}).", src_connected((r, c), None, "edge"), count_reachable(n, (r, c), None, "edge"))
        if n == 1:
            o.clue(f"edge_left({r}, {c}).", f"edge_top({r}, {c}).", f"edge_left({r}, {c + 1}).", f"edge_top({r + 1}, {c}).")
    edge_marks(p, o)
    o.show("edge_left")
    o.show("edge_top")
    o.show("number", 3)
    o.show("numberx", 3)


def tents(p, o):
    o.rule(grid(p.row, p.col), shade_c("tents__2"), adjacent(4), adjacent(8), avoid_adjacent("tents__2", 8))
    outside_counts(p, o, "tents__2")
    trees = []
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "tents__1":
            need(0 <= r < p.row and 0 <= c < p.col)
            trees.append((r, c))
            o.clue(f"not tents__2({r}, {c}).")
        if s == "tents__2":
            o.mark(f"tents__2({r}, {c}).")
    # every tree has a tent of its own beside it, and there are no other tents
    for r, c in trees:
        o.clue(f"{{ map_{r}_{c}(R, C) : adj_4(R, C, {r}, {c}), tents__2(R, C) }} = 1 :- grid({r}, {c}).")
    for i, (r, c) in enumerate(trees):
        for j, (r1, c1) in enumerate(trees):
            if i < j:
                o.clue(f":- map_{r}_{c}(R, C), map_{r1}_{c1}(R, C).")
    o.clue(count_grid(len(trees), "tents__2"))
    o.show("tents__2")
