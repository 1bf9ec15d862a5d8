"""Contracts of the puzzles whose answer is a loop, a path or a set of links."""
from noqx.puzzle import Color, Direction, Point

from specs.lib import *


def loop_on(p, o, color, some=True):
    """One loop through the cells of the colour (some: the cells on the loop are a choice)."""
    o.rule(grid(p.row, p.col), direction("lurd"), fill_path(color), adjacent("loop"), connected(color, "loop"), single_loop(color))
    if some:
        o.rule(shade_c(color))


def lines(p, o):
    line_marks(p, o)
    o.show("grid_direction", 3)


def anglers(p, o):
    t = "reachable_grid_src_adj_loop_anglers"
    need(len(p.symbol) > 0)
    need(len(p.text) == len(p.symbol))
    o.rule(defined("black"), grid(p.row, p.col), direction("lurd"), "anglers(R, C) :- grid(R, C), not black(R, C).", fill_path("anglers"))
    o.rule(adjacent("loop"), single_loop("anglers", True), avoid_unknown_src("anglers", "loop"))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        need(s == "tents__3")
        o.clue(f"dead_end({r}, {c}).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if r < 0 or r >= p.row or c < 0 or c >= p.col:
            o.clue(f"grid({r}, {c}).")
        o.clue(f"dead_end({r}, {c}).", src_connected((r, c), "anglers", "loop"))
        if isinstance(n, int):
            o.clue(count_reachable(n + 1, (r, c), "anglers", "loop"))
        for r1, c1, _, _ in p.text:
            if (r1, c1) != (r, c):
                o.clue(f":- {t}({r}, {c}, {r1}, {c1}).")
    holes(p, o)
    lines(p, o)


def balance(p, o):
    o.rule(defined("black"), defined("white"), loop_sign("balance"))
    loop_on(p, o, "balance")
    for color, op in (("black", "="), ("white", "!=")):
        for kind, a, b in (("T", "|R - N1|", "|C - N2|"), ("V", "|R - N1|", "|R - N2|"), ("H", "|C - N1|", "|C - N2|")):
            o.rule(f':- {color}(R, C), segment(R, C, N1, N2, "{kind}"), {a} {op} {b}.')
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        o.clue(f"balance({r}, {c}).", loop_segment((r, c)))
        if s == "circle_L__1" or s == "circle_L__2":
            if s == "circle_L__1":
                o.clue(f"white({r}, {c}).")
            else:
                o.clue(f"black({r}, {c}).")
            n = clue_of(p, (r, c))
            if isinstance(n, int):
                for kind, a, b in (("T", f"|{r} - N1|", f"|{c} - N2|"), ("V", f"|{r} - N1|", f"|{r} - N2|"), ("H", f"|{c} - N1|", f"|{c} - N2|")):
                    o.clue(f':- segment({r}, {c}, N1, N2, "{kind}"), {a} + {b} != {n}.')
    lines(p, o)


def castle(p, o):
    loop_on(p, o, "castle")
    o.rule(inside_outside("white", "black"))
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        if Point(r, c) not in p.surface:
            o.clue(f"white({r}, {c}).", f"not castle({r}, {c}).")
        if not (isinstance(x, str) and (len(x) == 0 or x.isspace())):
            n, a = arrow_clue(x)
            if a == 0:
                o.clue(f':- #count {{ R : grid_direction(R, {c}, "d"), R < {r} }} != {n}.')
            if a == 1:
                o.clue(f':- #count {{ C : grid_direction({r}, C, "r"), C < {c} }} != {n}.')
            if a == 2:
                o.clue(f':- #count {{ C : grid_direction({r}, C, "r"), C > {c} }} != {n}.')
            if a == 3:
                o.clue(f':- #count {{ R : grid_direction(R, {c}, "d"), R > {r} }} != {n}.')
    for (r, c, _, _), k in p.surface.items():
        o.clue(f"not castle({r}, {c}).")
        if k == Color.BLACK:
            o.clue(f"black({r}, {c}).")
        if k == Color.GRAY:
            o.clue(f"gray({r}, {c}).")
    lines(p, o)


def country(p, o):
    loop_on(p, o, "country_road")
    o.rule(adjacent(4))
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells), borders(i, cells, p.edge), count_area_pass(1, i))
        if at:
            n = clue_of(p, at)
            if isinstance(n, int):
                o.clue(count_area(n, "country_road", i))
    for (r, c, d, _), drawn in p.edge.items():
        if drawn and d == Direction.TOP and r > 0:
            o.rule(f":- not country_road({r}, {c}), not country_road({r - 1}, {c}).")
        if drawn and d == Direction.LEFT and c > 0:
            o.rule(f":- not country_road({r}, {c}), not country_road({r}, {c - 1}).")
    lines(p, o)


def detour(p, o):
    loop_on(p, o, "detour", False)
    o.rule("detour(R, C) :- grid(R, C).", loop_turning("detour"))
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        if at:
            n = p.text.get(Point(*at, Direction.CENTER, "sudoku_0"))
            if isinstance(n, int):
                o.clue(count_area(n, "turning", i))
    lines(p, o)


def dotchi(p, o):
    o.rule(defined("white"), loop_straight("dotchi"), loop_turning("dotchi"))
    loop_on(p, o, "dotchi")
    o.rule("turning_area(A) :- area(A, R, C), white(R, C), turning(R, C).", "straight_area(A) :- area(A, R, C), white(R, C), straight(R, C).")
    o.rule(":- area(A, _, _), turning_area(A), straight_area(A).")
    rooms(p, o)
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "circle_L__1":
            o.clue(f"white({r}, {c}).", f"dotchi({r}, {c}).")
        if s == "circle_L__2":
            o.clue(f"not dotchi({r}, {c}).")
    lines(p, o)


HEADING = {"1": (0, 1, "r"), "2": (1, 0, "d"), "3": (0, -1, "l"), "4": (-1, 0, "u")}


def firefly(p, o):
    o.rule(defined("dead_end"), defined("firefly_all"), grid(p.row + 1, p.col + 1), direction("lurd"))
    o.rule("{ firefly(R, C) } :- grid(R, C), not dead_end(R, C).", fill_path_directed("firefly"), adjacent("loop_directed"))
    o.rule(directed_loop("firefly"), connected("firefly_all", "loop_directed"), direction_to_edge(("grid_in", "grid_out")))
    for (r, c, d, _), s in p.symbol.items():
        need(d == Direction.TOP_LEFT)
        kind, style = s.split("__")
        if kind == "firefly":
            need(style in HEADING)
            dr, dc, head = HEADING[style]
            n = p.text.get(Point(r, c, Direction.TOP_LEFT, "normal"))
            if isinstance(n, int):
                # the light starting here turns n times before it reaches a firefly
                r1, c1 = r + dr, c + dc
                o.clue(f"reachable({r1}, {c1}, {r1}, {c1}).")
                o.clue(f"reachable({r1}, {c1}, R, C) :- firefly(R, C), grid(R1, C1), reachable({r1}, {c1}, R1, C1), adj_loop_directed(R1, C1, R, C).")
                for e, (f, _) in OPP.items():
                    o.clue(f'bend(R, C) :- firefly(R, C), grid_in(R, C, "{e}"), not grid_out(R, C, "{f}").')
                o.clue(f":- #count {{ R, C : grid(R, C), reachable({r1}, {c1}, R, C), bend(R, C) }} != {n}.")
                o.clue("firefly_all(R, C) :- firefly(R, C).", "firefly_all(R, C) :- dead_end(R, C).")
            o.clue(f"dead_end({r}, {c}).", f'grid_out({r}, {c}, "{head}").')
            o.clue(f'{{ grid_in({r}, {c}, D) }} :- direction(D), D != "{head}".')
    edge_marks(p, o)
    o.show("edge_top")
    o.show("edge_left")


def geradeweg(p, o):
    o.rule(defined("clue"), loop_sign("geradeweg"))
    loop_on(p, o, "geradeweg")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(loop_segment((r, c)), f':- segment({r}, {c}, N1, N2, "T"), |{r} - N1| != |{c} - N2|.')
        if isinstance(n, int):
            o.clue(f':- segment({r}, {c}, N1, N2, "T"), |{r} - N1| != {n}.', f':- segment({r}, {c}, N1, N2, "T"), |{c} - N2| != {n}.')
            o.clue(f':- segment({r}, {c}, N1, N2, "V"), |{r} - N1| + |{r} - N2| != {n}.')
            o.clue(f':- segment({r}, {c}, N1, N2, "H"), |{c} - N1| + |{c} - N2| != {n}.')
        if isinstance(n, int) and n <= 0:
            o.clue(f"not geradeweg({r}, {c}).")
        else:
            o.clue(f"geradeweg({r}, {c}).")
    lines(p, o)


def koburin(p, o):
    loop_on(p, o, "white", False)
    o.rule(defined("gray"), "{ black(R, C); white(R, C) } = 1 :- grid(R, C), not gray(R, C).", adjacent(4), avoid_adjacent("black"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"gray({r}, {c}).")
        if isinstance(n, int):
            o.clue(count_adjacent(n, (r, c), "black"))
    dark_only(p, o, everywhere=False)
    o.show("black")
    lines(p, o)


def hashi(p, o):
    """Links of one or two bridges: grid_direction(R, C, D, N)."""
    g = "grid_direction"
    o.rule(defined("number", 3), grid(p.row, p.col), direction("lurd"), shade_c("hashi"), connected("hashi", "loop"), "num(1..2).")
    o.rule(f"{{ {g}(R, C, D, N) : direction(D), num(N) }} :- grid(R, C), hashi(R, C).")
    o.rule(f":- N != -1, number(R, C, N), #sum {{ N1, D : {g}(R, C, D, N1) }} != N.")
    o.rule(f"pass_by_loop(R, C) :- grid(R, C), #count {{ D : {g}(R, C, D, _) }} = 2.")
    for a, b in STRAIGHTS:
        o.rule(f'pass_by_straight(R, C) :- grid(R, C), num(N), {g}(R, C, "{a}", N), {g}(R, C, "{b}", N).')
    for k in ("pass_by_straight", "pass_by_loop"):
        o.rule(f":- grid(R, C), hashi(R, C), not number(R, C, _), not {k}(R, C).")
    for d, (e, n) in OPP.items():
        o.rule(f':- grid(R, C), {g}(R, C, "{d}", _), not {g}({n}, "{e}", _).')
        o.rule(f':- grid(R, C), {g}(R, C, "{d}", N1), {g}({n}, "{e}", N2), N1 != N2.')
    for d, e in (("l", "r"), ("u", "d")):
        o.rule(f':- grid(R, C), num(N), not number(R, C, _), {g}(R, C, "{d}", N), not {g}(R, C, "{e}", N).')
    o.rule(f'adj_loop(R0, C0, R, C) :- R = R0, C = C0 + 1, grid(R, C), grid(R0, C0), {g}(R, C, "l", _).')
    o.rule(f'adj_loop(R0, C0, R, C) :- R = R0 + 1, C = C0, grid(R, C), grid(R0, C0), {g}(R, C, "u", _).')
    o.rule("adj_loop(R0, C0, R, C) :- adj_loop(R, C, R0, C0).")
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"hashi({r}, {c}).")
        if isinstance(n, int):
            o.clue(f"number({r}, {c}, {n}).")
        else:
            o.clue(f"number({r}, {c}, -1).")
    for (r, c, _, d), drawn in p.line.items():
        if drawn and d.endswith("_2"):
            o.mark(f':- not {g}({r}, {c}, "{d[0]}", 2).')
        if drawn and d.endswith("_1"):
            o.mark(f':- not {g}({r}, {c}, "{d[0]}", 1).')
        if not drawn:
            o.mark(f':- {g}({r}, {c}, "{d[0]}", _).')
    o.show(g, 4)


def masyu(p, o):
    o.rule(defined("black"), defined("white"), loop_straight("masyu"), loop_turning("masyu"))
    loop_on(p, o, "masyu")
    o.rule(":- grid(R, C), black(R, C), not turning(R, C).")
    o.rule(":- grid(R, C), black(R, C), turning(R, C), adj_loop(R, C, R1, C1), not straight(R1, C1).")
    o.rule(":- grid(R, C), white(R, C), not straight(R, C).")
    o.rule(":- grid(R, C), white(R, C), straight(R, C), { turning(R1, C1) : adj_loop(R, C, R1, C1) } = 0.")
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        o.clue(f"masyu({r}, {c}).")
        if s == "circle_L__1":
            o.clue(f"white({r}, {c}).")
        if s == "circle_L__2":
            o.clue(f"black({r}, {c}).")
    lines(p, o)


def moonsun(p, o):
    o.rule(defined("moon"), defined("sun"))
    loop_on(p, o, "moon_sun")
    areas = full_bfs(p.row, p.col, p.edge)
    need(len(areas) % 2 == 0)
    for i, cells in enumerate(areas):
        o.rule(area(i, cells), borders(i, cells, p.edge), count_area_pass(1, i))
    o.rule(area_adjacent("loop"), "{ sun_area(A) } :- area(A, _, _).")
    for inside, taken, left in (("sun_area(A)", "sun", "moon"), ("not sun_area(A)", "moon", "sun")):
        o.rule(f":- {inside}, area(A, R, C), {taken}(R, C), not moon_sun(R, C).", f":- {inside}, area(A, R, C), {left}(R, C), moon_sun(R, C).")
        o.rule(f"area_pass_{taken}(A) :- area(A, R, C), {taken}(R, C), moon_sun(R, C).")
        o.rule(f":- area_adj_loop(A1, A2), {inside.replace('A', 'A1')}, {inside.replace('A', 'A2')}.")
    o.rule(":- area(A, _, _), not area_pass_moon(A), not area_pass_sun(A).")
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        if s == "sun_moon__1":
            o.clue(f"moon({r}, {c}).")
        if s == "sun_moon__2":
            o.clue(f"sun({r}, {c}).")
    lines(p, o)


def edge_loop(p, o, color):
    """A loop along the edges of the board: through the corners of the cells."""
    o.rule(grid(p.row + 1, p.col + 1), direction("lurd"), shade_c(color), fill_path(color), adjacent("loop"), connected(color, "loop"))
    o.rule(single_loop(color), direction_to_edge())
    edge_marks(p, o)
    o.show("edge_top")
    o.show("edge_left")


def myopia(p, o):
    edge_loop(p, o, "myopia")
    far = max(p.row, p.col) + 1
    for (r, c, d, pos), s in p.symbol.items():
        centre(d)
        need(pos == "multiple")
        kind, style = s.split("__")
        bits = int(style)
        need(kind == "arrow_cross")
        need(bits & 64 or bits & 128 or bits & 16 or bits & 32)
        # distance to the nearest line in each direction (far: none)
        top = f"Mt = #max {{ R : grid(R, {c}), edge_top(R, {c}), R <= {r} }}"
        low = f"Mb = #min {{ R : grid(R, {c}), edge_top(R + 1, {c}), R >= {r} }}"
        left = f"Ml = #max {{ C : grid({r}, C), edge_left({r}, C), C <= {c} }}"
        right = f"Mr = #min {{ C : grid({r}, C), edge_left({r}, C + 1), C >= {c} }}"
        o.clue(f"top({r}, {c}, {r} - Mt) :- {top}, grid(Mt, _).", f"top({r}, {c}, {far}) :- {top}, not grid(Mt, _).")
        o.clue(f"bottom({r}, {c}, Mb - {r}) :- {low}, grid(Mb, _).", f"bottom({r}, {c}, {far}) :- {low}, not grid(Mb, _).")
        o.clue(f"left({r}, {c}, {c} - Ml) :- {left}, grid(_, Ml).", f"left({r}, {c}, {far}) :- {left}, not grid(_, Ml).")
        o.clue(f"right({r}, {c}, Mr - {c}) :- {right}, grid(_, Mr).", f"right({r}, {c}, {far}) :- {right}, not grid(_, Mr).")
        # arrows point to the nearest lines
        t = "=" if bits & 64 else "<"
        l = "=" if bits & 128 else "<"
        b = "=" if bits & 16 else "<"
        r_ = "=" if bits & 32 else "<"
        o.clue(f"opia({r}, {c}) :- top({r}, {c}, N1), bottom({r}, {c}, N2), left({r}, {c}, N3), right({r}, {c}, N4), N {t} N1, N {b} N2, N {l} N3, N {r_} N4.")
        o.clue(f":- not opia({r}, {c}).")


def nothing(p, o):
    loop_on(p, o, "anything")
    o.rule(adjacent(4), area_same_color("anything"), "nothing(A) :- area(A, R, C), not anything(R, C).")
    o.rule(":- area(A, R, C), area(A1, R1, C1), adj_4(R, C, R1, C1), A < A1, not anything(R, C), not anything(R1, C1).")
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), borders(i, cells, p.edge))
        o.rule(f":- not nothing({i}), #count {{ R, C, D : area_border({i}, R, C, D), grid_direction(R, C, D) }} != 2.")
    lines(p, o)


def pipelink(p, o):
    t = "reachable_grid_adj_loop_intersection_pipelink"
    o.rule(grid(p.row, p.col), direction("lurd"), "pipelink(R, C) :- grid(R, C).", fill_path("pipelink"), intersect_loop("pipelink"))
    # horizontal and vertical part of a cell; connected inside the cell unless the line crosses itself there
    o.rule('direction_type("H"; "V").', 'adj_loop_intersect(R, C, "H", R, C, "V") :- grid(R, C), not intersection(R, C).')
    o.rule('adj_loop_intersect(R, C, "H", R, C + 1, "H") :- grid(R, C), grid(R, C + 1), grid_direction(R, C, "r").')
    o.rule('adj_loop_intersect(R, C, "V", R + 1, C, "V") :- grid(R, C), grid(R + 1, C), grid_direction(R, C, "d").')
    o.rule("adj_loop_intersect(R0, C0, T0, R, C, T) :- adj_loop_intersect(R, C, T, R0, C0, T0).")
    o.rule(f'{t}(R, C, "H") :- (R, C) = #min {{ (R1, C1) : grid(R1, C1), pipelink(R1, C1) }}.')
    o.rule(f"{t}(R, C, T) :- {t}(R1, C1, T1), grid(R, C), pipelink(R, C), adj_loop_intersect(R, C, T, R1, C1, T1).")
    o.rule(f":- grid(R, C), pipelink(R, C), direction_type(T), not {t}(R, C, T).")
    for (r, c, _, _), drawn in p.line.items():
        need(drawn)
        for d in "lurd":
            if Point(r, c, Direction.CENTER, d) in p.line:
                o.clue(f'grid_direction({r}, {c}, "{d}").')
            else:
                o.clue(f'not grid_direction({r}, {c}, "{d}").')
    o.show("grid_direction", 3)


def railpool(p, o):
    k = "railpool"
    loop_on(p, o, k, False)
    o.rule(defined("black"), f"{k}(R, C) :- grid(R, C), not black(R, C).")
    for a, first, back, prev, end, at_end, own in (
            ("horizontal", "r", "l", "R, C - 1", "R, C + N", "r", "R, C - N"), ("vertical", "d", "u", "R - 1, C", "R + N, C", "d", "R - N, C")):
        o.rule(f'nth_{a}(R, C, 0) :- grid_direction(R, C, "{first}"), not grid_direction(R, C, "{back}").')
        o.rule(f'nth_{a}(R, C, N) :- grid_direction(R, C, "{back}"), nth_{a}({prev}, N - 1).')
        o.rule(f'len_{a}(R, C, N) :- nth_{a}(R, C, 0), {k}({end}), nth_{a}({end}, N), not grid_direction({end}, "{at_end}").')
        o.rule(f"len_{a}(R, C, L) :- {k}(R, C), nth_{a}(R, C, N), len_{a}({own}, L).")
        o.rule(f"area_len(A, L) :- {k}(R, C), area(A, R, C), len_{a}(R, C, L).")
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        if at:
            kinds = 0
            for j in range(4):
                n = p.text.get(Point(*at, Direction.CENTER, f"tapa_{j}"))
                if isinstance(n, int):
                    o.clue(f":- not area_len({i}, {n}).")
                    kinds += 1
                kinds += n == "?"
            o.clue(f":- #count {{ N : area_len({i}, N) }} != {kinds}.")
    holes(p, o)
    lines(p, o)


def simpleloop(p, o):
    loop_on(p, o, "simpleloop", False)
    o.rule(defined("black"), "simpleloop(R, C) :- grid(R, C), not black(R, C).")
    holes(p, o)
    lines(p, o)


def slitherlink(p, o):
    edge_loop(p, o, "slither")
    if p.param["vslither"] or p.param["tslither"]:
        for e in ("edge_top(R, C)", "edge_left(R, C)", "grid(R, C), edge_top(R, C - 1)", "grid(R, C), edge_left(R - 1, C)"):
            o.rule(f"passed_vertex(R, C) :- {e}.")
    if p.param["swslither"]:
        o.rule(inside_outside("sheep", "wolf"))
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if p.param["swslither"] and n == "W":
            o.clue(f"wolf({r}, {c}).")
        elif p.param["swslither"] and n == "S":
            o.clue(f"sheep({r}, {c}).")
        else:
            need(isinstance(n, int))
            corners = "{ " + "; ".join(f"passed_vertex({r + i}, {c + j})" for i in (0, 1) for j in (0, 1)) + " }"
            sides = f"{{ edge_left({r}, {c}); edge_left({r}, {c + 1}); edge_top({r}, {c}); edge_top({r + 1}, {c}) }}"
            if p.param["vslither"]:
                o.clue(f":- {corners} != {n}.")
            elif p.param["tslither"]:
                o.clue(f":- {corners} = C1, {sides} = C2, C1 - C2 != {n}.")
            else:
                o.clue(f":- {sides} != {n}.")


def yajilin(p, o):
    o.rule(defined("gray"), "{ black(R, C); white(R, C) } = 1 :- grid(R, C), not gray(R, C).")
    o.rule(adjacent(4), avoid_adjacent("black"))
    loop_on(p, o, "white", False)
    for (r, c, d, pos), x in p.text.items():
        centre(d)
        need(pos == "normal")
        o.clue(f"gray({r}, {c}).")
        if not (isinstance(x, str) and (len(x) == 0 or x.isspace() or x == "?")):
            n, a = arrow_clue(x)
            o.clue(count_arrow(n, (r, c), a, "black", False))
    dark_only(p, o, everywhere=False)
    o.show("black")
    lines(p, o)


def yajilin_regions(p, o):
    o.rule(shade_cc(["black", "white"]), adjacent(4), avoid_adjacent("black"))
    loop_on(p, o, "white", False)
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        if at:
            n = p.text.get(Point(*at, Direction.CENTER, "sudoku_0"))
            if isinstance(n, int):
                o.clue(count_area(n, "black", i))
    dark_only(p, o)
    o.show("black")
    lines(p, o)


def doubleback(p, o):
    k = "doubleback"
    loop_on(p, o, k, False)
    o.rule(defined("black"), f"{k}(R, C) :- grid(R, C), not black(R, C).")
    holes(p, o)
    # dark cells are walled in
    edges = dict(p.edge)
    for r, c, _, _ in p.surface:
        for at in (Point(r, c, Direction.TOP), Point(r, c, Direction.LEFT), Point(r + 1, c, Direction.TOP), Point(r, c + 1, Direction.LEFT)):
            edges[at] = True
    for i, cells in enumerate(full_bfs(p.row, p.col, edges)):
        if not all(Point(r, c) in p.surface and p.surface[Point(r, c)] in Color.DARK for r, c in cells):
            o.rule(borders(i, cells, edges), count_area_pass(2, i))
    lines(p, o)


def haisu(p, o):
    need("S" in p.text.values() and "G" in p.text.values())
    k = "haisu"
    o.rule(defined("number", 3), grid(p.row, p.col), direction("lurd"), f"{k}(R, C) :- grid(R, C).", fill_path_directed(k), directed_loop(k, True))
    for d, (_, n) in OPP.items():
        o.rule(f'adj_before({n}, R, C) :- grid(R, C), grid_in(R, C, "{d}").')
    # the path leads from S through every cell
    o.rule("reachable_path(R, C) :- path_start(R, C).", f"reachable_path(R, C) :- {k}(R, C), reachable_path(R1, C1), adj_before(R1, C1, R, C).")
    o.rule(f":- grid(R, C), {k}(R, C), not reachable_path(R, C).")
    # visits of the rooms that have a number, along the path
    o.rule("clue(R, C) :- number(R, C, _).", "clue_area(A) :- clue(R, C), area(A, R, C).")
    o.rule("area_max_num(A, N) :- clue_area(A), #max { N0 : area(A, R, C), number(R, C, N0) } = N.")
    o.rule("area_possible_num(A, 0..N) :- clue_area(A), area_max_num(A, N).")
    o.rule("haisu_count(R, C, A, 0) :- path_start(R, C), clue_area(A).", "area_in(A, R, C) :- area_border(A, R, C, D), grid_in(R, C, D).")
    for before, entered in (("N", "not area_in"), ("N - 1", "area_in")):
        o.rule(f"haisu_count(R, C, A, N) :- clue_area(A), area_possible_num(A, N), grid(R, C), adj_before(R1, C1, R, C), haisu_count(R1, C1, A, {before}), {entered}(A, R, C).")
    o.rule(":- clue_area(A), grid(R, C), haisu_count(R, C, A, N1), haisu_count(R, C, A, N2), N1 < N2.")
    o.rule(":- number(R, C, N), area(A, R, C), not haisu_count(R, C, A, N).")
    home = []
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), borders(i, cells, p.edge))
        if any(clue_of(p, cell) == "S" for cell in cells):
            home = cells
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if n == "S":
            o.clue(f"path_start({r}, {c}).")
        if n == "G":
            o.clue(f"path_end({r}, {c}).")
        if isinstance(n, int):
            # the path starts inside the room of S: that visit is not counted as an entry
            if (r, c) in home:
                o.clue(f"number({r}, {c}, {n - 1}).")
            else:
                o.clue(f"number({r}, {c}, {n}).")
    o.show("grid_in", 3)
    o.show("grid_out", 3)


WIND = {"1": "l", "3": "u", "5": "r", "7": "d"}


def nagare_wind(o, k, cell, x, lo, hi, w):
    o.clue(f':- {k}({cell}), {lo} <= {x}, {x} <= {hi}, not grid_out({cell}, "{w}"), not grid_in({cell}, "{OPP[w][0]}").')


def nagare(p, o):
    k = "nagare"
    o.rule(grid(p.row, p.col), direction("lurd"), shade_c(k), fill_path_directed(k), adjacent("loop_directed"), connected(k, "loop_directed"), directed_loop(k))
    for (r, c, d, _), s in p.symbol.items():
        centre(d)
        kind, style = s.split("__")
        need(style in WIND)
        w = WIND[style]
        back = OPP[w][0]
        if kind == "arrow_B_B":
            o.clue(f"{k}({r}, {c}).", f'grid_in({r}, {c}, "{back}").', f'grid_out({r}, {c}, "{w}").')
        if kind == "arrow_B_W":
            o.clue(f"not {k}({r}, {c}).")
            # the wind blows over the cells from the arrow to the next symbol or dark cell
            free = lambda x, y: not p.symbol.get(Point(x, y)) and not p.surface.get(Point(x, y))
            if w == "l" and c > 0:
                a = c - 1
                while a >= 0 and free(r, a):
                    a -= 1
                nagare_wind(o, k, f"{r}, C", "C", a + 1, c - 1, w)
            if w == "r" and c < p.col - 1:
                b = c + 1
                while b < p.col and free(r, b):
                    b += 1
                nagare_wind(o, k, f"{r}, C", "C", c + 1, b - 1, w)
            if w == "u" and r > 0:
                a = r - 1
                while a >= 0 and free(a, c):
                    a -= 1
                nagare_wind(o, k, f"R, {c}", "R", a + 1, r - 1, w)
            if w == "d" and r < p.row - 1:
                b = r + 1
                while b < p.row and free(b, c):
                    b += 1
                nagare_wind(o, k, f"R, {c}", "R", r + 1, b - 1, w)
    for (r, c, _, _), color in p.surface.items():
        need(color in Color.DARK)
        o.clue(f"not {k}({r}, {c}).")
    o.show("grid_in", 3)
    o.show("grid_out", 3)


def numlin(p, o):
    k = "numlin"
    t = "reachable_grid_bit_adj_loop"
    square = ("R, C", "R, C + 1", "R + 1, C", "R + 1, C + 1")
    ends = {}
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        ends.setdefault(n, []).append((r, c))
    need(len(ends) > 0)
    for n in ends:
        need(len(ends[n]) == 2)
    nbit = bits(len(ends))
    o.rule(f"bit_range(0..{nbit - 1}).", grid(p.row, p.col), direction("lurd"), fill_path(k), adjacent("loop"), single_loop(k, True))
    if p.param["visit_all"]:
        o.rule(f"{k}(R, C) :- grid(R, C).")
    else:
        o.rule(shade_c(k))
    if p.param["no_2x2"]:
        o.rule(f"bit_same(R, C, B) :- grid(R, C), bit_range(B), {', '.join(f'{t}({x}, B)' for x in square)}.")
        o.rule(f"bit_no(R, C, B) :- grid(R, C), bit_range(B), {', '.join(f'not {t}({x}, B)' for x in square)}.")
        o.rule("bit_same(R, C, B) :- bit_no(R, C, B).", "no_2x2(R, C) :- grid(R, C), bit_range(B), not bit_same(R, C, B).")
        o.rule("no_empty(R, C) :- grid(R, C), bit_range(B), not bit_no(R, C, B).", ":- grid(R, C), no_empty(R, C), not no_2x2(R, C).")
    i = 0
    for n in ends:
        i += 1
        for r, c in ends[n]:
            o.clue(clue_bit(r, c, i, nbit))
    o.rule(f"{k}(R, C) :- clue(R, C).", "dead_end(R, C) :- clue(R, C).", bit_connected(k, "loop"), avoid_unknown_bit(k, "loop"))
    lines(p, o)


def onsen(p, o):
    k = "onsen_loop"
    o.rule(grid(p.row, p.col), direction("lurd"), shade_c(k), fill_path(k), adjacent("loop"), single_loop(k))
    j = 0
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells), borders(i, cells, p.edge), count_area(("gt", 0), k, i))
        for r, c in cells:
            n = clue_of(p, (r, c))
            if n is not None:
                o.clue(f"{k}({r}, {c}).", f"onsen({j}, {r}, {c}).", f"onsen({j}, R, C) :- grid(R, C), adj_loop(R, C, R1, C1), onsen({j}, R1, C1).")
                # in every room it visits, the loop of the clue visits this many cells
                here = f"#count {{ R1, C1 : area(A, R1, C1), onsen({j}, R1, C1) }}"
                if isinstance(n, int):
                    o.clue(f":- area(A, R, C), onsen({j}, R, C), {here} != {n}.")
                else:
                    o.clue(f":- area(A, R, C), onsen({j}, R, C), #count {{ R1, C1 : area({i}, R1, C1), onsen({j}, R1, C1) }} = N, {here} != N.")
                o.clue(f":- {k}(R, C), not onsen(_, R, C).")
                j += 1
    need(j > 0)
    o.rule(":- area(A, _, _), onsen(O, _, _), #count { R, C, D : onsen(O, R, C), area_border(A, R, C, D), grid_direction(R, C, D) } > 2.")
    o.rule(":- onsen(O1, R, C), onsen(O2, R, C), O1 != O2.")
    lines(p, o)


# the ring of cells around a clue in clockwise order, with the way to the next one; then the corners' outward sides
AROUND = ((-1, -1, "r"), (-1, 0, "r"), (-1, 1, "d"), (0, 1, "d"), (1, 1, "l"), (1, 0, "l"), (1, -1, "u"), (0, -1, "u"))
OUTWARD = ((-1, -1, "l"), (-1, 1, "u"), (1, 1, "r"), (1, -1, "d"))


def ring_visits(inner, outer):
    """Lengths of the visits of the loop around a clue, or None if the line ends cannot belong to a loop.

    inner: which of the 8 steps around the ring the loop takes; outer: the outward side of each corner named in OUTWARD.
    Every cell of the ring has four sides: towards the previous and the next cell of the ring, and others, of which those
    recorded in `outer` are known, those towards the clue are never used, and at most one is unknown.
    """
    for i in range(8):
        known = inner[i - 1] + inner[i]
        if i % 2 == 0:
            known += outer[i // 2]
        if known > 2:
            return None
    if sum(inner) == 8:
        return (8,)
    start = [i for i in range(8) if inner[i] == 0 and inner[i - 1] == 0] if sum(inner) == 0 else [i for i in range(8) if inner[i] == 0]
    out = []
    k = start[0]
    n = 0
    for j in range(1, 9):
        i = (k + j) % 8
        # cell i comes before step i and after step i - 1
        if inner[i - 1] == 0 and inner[i] == 0:
            if i % 2 == 0 and outer[i // 2] == 1:
                out.append(1)
        if inner[i - 1] == 0 and inner[i] == 1:
            n = 1
        if inner[i - 1] == 1:
            n += 1
            if inner[i] == 0:
                out.append(n)
    return tuple(sorted(out)) if out else (0,)


def ring_kinds():
    kinds = {}
    for m in range(4096):
        b = [(m // 2 ** (11 - j)) % 2 for j in range(12)]
        v = ring_visits(b[:8], b[8:])
        if v is not None:
            kinds.setdefault(v, []).append(m)
    return kinds


def tapaloop(p, o):
    k = "tapaloop"
    loop_on(p, o, k, False)
    o.rule(defined("black"))
    if p.param["visit_all"]:
        o.rule(f"{k}(R, C) :- grid(R, C), not black(R, C).")
    else:
        o.rule(f"{{ {k}(R, C) }} :- grid(R, C), not black(R, C).")
    o.rule(f"binary(R, C, D, 0) :- -1 <= R, R <= {p.row}, -1 <= C, C <= {p.col}, not grid(R, C), direction(D).")
    o.rule("binary(R, C, D, 0) :- grid(R, C), direction(D), not grid_direction(R, C, D).", "binary(R, C, D, 1) :- grid(R, C), grid_direction(R, C, D).")
    kinds = ring_kinds()
    for i, v in enumerate(kinds):
        for m in kinds[v]:
            o.rule(f"valid_tapaloop_map({i}, {m}).")
    clues = {}
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos.startswith("tapa"))
        clues.setdefault((r, c), []).append(n)
    for r, c in clues:
        seen = ", ".join(f'binary({r + dr}, {c + dc}, "{w}", N{j})' for j, (dr, dc, w) in enumerate(AROUND + OUTWARD))
        o.clue(f"black({r}, {c}).")
        o.clue(f":- not valid_tapaloop({r}, {c}, P), valid_tapaloop_map(P, N), {seen}, N = {' + '.join(f'{2 ** (11 - j)} * N{j}' for j in range(12))}.")
        known = [n for n in clues[(r, c)] if n != "?"]
        for i, v in enumerate(kinds):
            rest = list(v)
            for n in known:
                if n in rest:
                    rest.remove(n)
            if len(v) == len(clues[(r, c)]) and len(rest) == len(v) - len(known):
                o.clue(f"valid_tapaloop({r}, {c}, {i}).")
    lines(p, o)
