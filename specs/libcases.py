"""Contract cases for the rule library: (property, id, function, args, kwargs, demanded text).

The numbers are symbolic (they stand for every value); predicate names and the finite options are enumerated.
The demanded text is a call of a function of specs.lib, or RAISES (the library must refuse the arguments).
"""
import z3

from pyvc.values import Areas, Cells, SDict
from specs import lib

I = z3.Int
RAISES = "raises ValueError"
OPS = ["eq", "ge", "gt", "le", "lt", "ne"]
COLORS = ["black", "not gray", "white"]
N, R, C, A, H, W, K = (I(x) for x in ("n", "r", "c", "a", "h", "w", "k"))
HW = [H >= 1, W >= 1]


class Call:
    def __init__(self, f, *args, **kw):
        self.f, self.args, self.kw = f, args, kw


def targets():
    return [N] + [(op, N) for op in OPS]


def cases():
    out = []

    def add(prop, fn, args, kw, spec, pre=(), note=""):
        out.append((prop, f"{fn}({note or ', '.join(map(str, args))}{', ' if kw else ''}{', '.join(f'{k}={v}' for k, v in kw.items())})", fn, args, kw, spec, list(pre)))

    c, nb, rc, lp, sh, vr = ("noqx.rule." + x for x in ("common", "neighbor", "reachable", "loop", "shape", "variety"))
    # ---- C11: board, colours, numbers, counting
    P = "C11"
    for item, size in (("black", 2), ("number", 3), ("content", 5)):
        add(P, f"{c}.display", [], {"item": item, "size": size}, Call(lambda i, s: f"#show {i}/{s}.", item, size))
        add(P, f"{c}.defined", [], {"item": item, "size": size}, Call(lib.defined, item, size))
    add(P, f"{c}.grid", [H, W], {}, Call(lib.grid, H, W), HW)
    add(P, f"{c}.grid", [H, W], {"with_holes": True}, Call(lib.holed_grid, H, W), HW)
    room = Cells(Areas("bfs[edge]", (H, W), None), K)
    add(P, f"{c}.area", [A, room], {}, Call(lib.area, A, room), note="any id, any room")
    for i in range(4):
        cells = [(I(f"r{j}"), I(f"c{j}")) for j in range(i)]
        add(P, f"{c}.area", [A, cells], {}, Call(lib.area, A, cells))
    for color in COLORS:
        add(P, f"{c}.shade_c", [], {"color": color}, Call(lib.shade_c, color))
        add(P, f"{c}.invert_c", [], {"color": color, "invert": "white"}, Call(lib.invert_c, color, "white"))
    add(P, f"{c}.invert_c", ["gray"], {}, Call(lib.invert_c, "gray"))
    for cs in (["black"], ["black", "white"], ["red", "green", "blue"]):
        add(P, f"{c}.shade_cc", [cs], {}, Call(lib.shade_cc, cs))
    add(P, f"{c}.edge", [H, W], {}, Call(lib.edge, H, W), HW)
    for d in ("lurd", ["l", "u", "r", "d"], ["ul", "ur", "dl", "dr"], "lu"):
        add(P, f"{c}.direction", [d], {}, Call(lib.direction, d))
    for color in ("black", "white"):
        add(P, f"{c}.fill_path", [], {"color": color}, Call(lib.fill_path, color))
        add(P, f"{c}.fill_path", [], {"color": color, "directed": True}, Call(lib.fill_path_directed, color))
    for color in ("black", "grid", "white"):
        for t in ("row", "col", "area"):
            add(P, f"{c}.unique_num", [], {"color": color, "_type": t}, Call(lib.unique_num, color, t))
    add(P, f"{c}.unique_num", [], {"_type": "room"}, RAISES)
    for t in targets():
        for color in COLORS:
            add(P, f"{c}.count", [t], {"color": color}, Call(lib.count_grid, t, color))
            add(P, f"{c}.count", [t], {"color": color, "_type": "row", "_id": K}, Call(lib.count_row, t, color, K))
            add(P, f"{c}.count", [t], {"color": color, "_type": "col", "_id": K}, Call(lib.count_col, t, color, K))
            add(P, f"{c}.count", [t], {"color": color, "_type": "area", "_id": A}, Call(lib.count_area, t, color, A))
        add(P, f"{c}.count", [t], {"_type": "row"}, Call(lib.count_row, t, "black"))
        add(P, f"{c}.count", [t], {"_type": "col"}, Call(lib.count_col, t, "black"))
    add(P, f"{c}.count", [N], {"_type": "diagonal"}, RAISES)
    # ---- C12: neighbourhood and connectivity
    P = "C12"
    for kind in (4, "x", 8, "edge", "loop", "loop_directed"):
        for me in (False, True):
            add(P, f"{nb}.adjacent", [kind, me], {}, Call(lib.adjacent, kind, me))
        add(P, f"{nb}.avoid_num_adjacent", [kind], {}, Call(lib.avoid_num_adjacent, kind))
        for color in COLORS:
            add(P, f"{nb}.avoid_adjacent_color", [color, kind], {}, Call(lib.avoid_adjacent, color, kind))
        for color in (None, "black"):
            add(P, f"{nb}.area_adjacent", [kind, color], {}, Call(lib.area_adjacent, kind, color))
        for t in targets():
            add(P, f"{nb}.count_adjacent", [t, (R, C), "black", kind], {}, Call(lib.count_adjacent, t, (R, C), "black", kind))
    for bad in (5, "y", None):
        add(P, f"{nb}.adjacent", [bad], {}, RAISES)
    for t in targets():
        add(P, f"{nb}.count_adjacent_edges", [t, (R, C)], {}, Call(lib.count_adjacent_edges, t, (R, C)))
    for color in COLORS:
        add(P, f"{nb}.area_same_color", [color], {}, Call(lib.area_same_color, color))
        for kind in (4, 8, "x"):
            add(P, f"{vr}.nori_adjacent", [color, kind], {}, Call(lib.nori_adjacent, color, kind))
            add(P, f"{rc}.area_color_connected", [color, kind], {}, Call(lib.area_connected, color, kind))
            add(P, f"{rc}.border_color_connected", [H, W, color, kind], {}, Call(lib.border_connected, H, W, color, kind), HW)
        for kind in (4, 8, "x", "loop", "loop_directed"):
            add(P, f"{rc}.grid_color_connected", [color, kind], {}, Call(lib.connected, color, kind))
            add(P, f"{rc}.grid_color_connected", [color, kind, (H, W)], {}, Call(lib.connected, color, kind, (H, W)), HW)
            add(P, f"{rc}.grid_bit_color_connected", [color, kind], {}, Call(lib.bit_connected, color, kind))
            add(P, f"{rc}.avoid_unknown_src_bit", [color, kind], {}, Call(lib.avoid_unknown_bit, color, kind))
        for kind in (4, 8, "x", "edge"):
            add(P, f"{rc}.grid_branch_color_connected", [color, kind], {}, Call(lib.branch_connected, color, kind))
        for kind in (4, 8, "loop", "loop_directed"):
            add(P, f"{rc}.avoid_unknown_src", [color, kind], {}, Call(lib.avoid_unknown_src, color, kind))
        for kind in (4, 8, "x", "edge", "loop", "loop_directed"):
            add(P, f"{rc}.grid_src_color_connected", [(R, C)], {"color": color, "adj_type": kind}, Call(lib.src_connected, (R, C), color, kind))
            inc, exc = [(I("i0"), I("i1")), (I("i2"), I("i3"))], [(I("e0"), I("e1"))]
            add(P, f"{rc}.grid_src_color_connected", [(R, C)], {"include_cells": inc, "exclude_cells": exc, "color": color, "adj_type": kind},
                Call(lib.src_connected, (R, C), color, kind, inc, exc))
            for t in targets():
                add(P, f"{rc}.count_reachable_src", [t, (R, C)], {"color": color, "adj_type": kind}, Call(lib.count_reachable, t, (R, C), color, kind))
        for kind in (4, "edge"):
            add(P, f"{rc}.bulb_src_color_connected", [(R, C), color, kind], {}, Call(lib.bulb_connected, (R, C), color, kind))
        for t in targets():
            add(P, f"{rc}.count_reachable_src", [t, (R, C)], {"main_type": "bulb", "color": color}, Call(lib.count_reachable, t, (R, C), color, 4, "bulb"))
            add(P, f"{rc}.count_rect_src", [t, (R, C), color], {}, Call(lib.count_rect, t, (R, C), color))
    for t in targets():
        add(P, f"{rc}.count_reachable_src", [t, (R, C)], {"main_type": "bulb", "color": None, "adj_type": "edge"}, Call(lib.count_reachable, t, (R, C), None, "edge", "bulb"))
        add(P, f"{rc}.count_reachable_src", [t, (R, C)], {"color": None, "adj_type": "edge"}, Call(lib.count_reachable, t, (R, C), None, "edge"))
        add(P, f"{rc}.count_rect_src", [t, (R, C)], {"adj_type": "edge"}, Call(lib.count_rect, t, (R, C), None, "edge"))
    add(P, f"{rc}.bulb_src_color_connected", [(R, C), None, "edge"], {}, Call(lib.bulb_connected, (R, C), None, "edge"))
    add(P, f"{rc}.grid_src_color_connected", [(R, C)], {"color": None, "adj_type": "edge"}, Call(lib.src_connected, (R, C), None, "edge"))
    add(P, f"{rc}.grid_branch_color_connected", [None, "edge"], {}, Call(lib.branch_connected, None, "edge"))
    add(P, f"{rc}.avoid_unknown_src", [None, "edge"], {}, Call(lib.avoid_unknown_src, None, "edge"))
    for fn, args, kw in ((f"{rc}.grid_color_connected", ["black", "edge"], {}), (f"{rc}.grid_color_connected", ["black", None], {}),
                         (f"{rc}.border_color_connected", [H, W, "black", "edge"], {}), (f"{rc}.area_color_connected", ["black", "loop"], {}),
                         (f"{rc}.grid_src_color_connected", [(R, C)], {"color": None, "adj_type": 4}),
                         (f"{rc}.bulb_src_color_connected", [(R, C), "black", 8], {}),
                         (f"{rc}.bulb_src_color_connected", [(R, C), None, 4], {}),
                         (f"{rc}.count_reachable_src", [N, (R, C)], {"main_type": "bulb", "adj_type": 8}),
                         (f"{rc}.count_reachable_src", [N, (R, C)], {"main_type": "rect"}),
                         (f"{rc}.count_rect_src", [N, (R, C)], {"adj_type": 4}),
                         (f"{rc}.avoid_unknown_src", ["black", "edge"], {}), (f"{rc}.avoid_unknown_src", [None, 4], {}),
                         (f"{rc}.grid_bit_color_connected", ["black", "edge"], {}),
                         (f"{rc}.grid_branch_color_connected", [None, 4], {}), (f"{rc}.grid_branch_color_connected", ["black", "loop"], {})):
        add(P, fn, args, kw, RAISES, HW)
    for nbit in range(1, 7):
        for i in range(2**nbit):
            add(P, f"{rc}.clue_bit", [R, C, i, nbit], {}, Call(lib.clue_bit, R, C, i, nbit))
    edges, cells = SDict("edge", z3.BoolSort()), Cells(Areas("bfs[edge]", (H, W), None), K)
    add(P, f"{nb}.area_border", [A, cells, edges], {}, Call(lib.borders, A, cells, edges), note="any id, any room, any edges")
    # ---- C13: loops
    P = "C13"
    for color in COLORS:
        for path in (False, True):
            for f, s in (("single_loop", lib.single_loop), ("intersect_loop", lib.intersect_loop), ("directed_loop", lib.directed_loop)):
                add(P, f"{lp}.{f}", [color, path], {}, Call(s, color, path))
        for f, s in (("loop_sign", lib.loop_sign), ("loop_straight", lib.loop_straight), ("loop_turning", lib.loop_turning)):
            add(P, f"{lp}.{f}", [color], {}, Call(s, color))
    add(P, f"{lp}.count_area_pass", [N, A], {}, Call(lib.count_area_pass, N, A))
    add(P, f"{lp}.loop_segment", [(R, C)], {}, Call(lib.loop_segment, (R, C)))
    for i, o in (("black", "white"), ("", "white"), ("black", ""), ("", "")):
        add(P, f"{lp}.separate_item_from_loop", [i, o], {}, Call(lib.inside_outside, i, o), note=f"'{i}', '{o}'")
    add(P, f"{lp}.convert_direction_to_edge", [], {}, Call(lib.direction_to_edge))
    add(P, f"{lp}.convert_direction_to_edge", [], {"directed": True}, Call(lib.direction_to_edge, ("grid_in", "grid_out")))
    add(P, f"{lp}.convert_direction_to_edge", [], {"diagonal": True}, Call(lib.direction_to_diagonal))
    add(P, f"{lp}.convert_direction_to_edge", [], {"directed": True, "diagonal": True}, Call(lib.direction_to_diagonal, ("grid_in", "grid_out")))
    # ---- C14: rectangles, shapes, sight
    P = "C14"
    for color in ("black", "gray"):
        for square in (False, True):
            add(P, f"{sh}.all_rect", [color, square], {}, Call(lib.all_rect, color, square))
        add(P, f"{sh}.no_rect", [color], {}, Call(lib.no_rect, color))
    add(P, f"{sh}.all_rect", ["not black"], {}, RAISES)
    for square in (False, True):
        add(P, f"{sh}.all_rect_region", [square], {}, Call(lib.all_rect_region, square))
    add(P, f"{sh}.avoid_region_border_crossover", [], {}, Call(lib.no_crossing_edges))
    for h in range(1, 5):
        for w in range(1, 5):
            for color in COLORS:
                add(P, f"{sh}.avoid_rect", [h, w, color], {}, Call(lib.avoid_rect, h, w, color))
                add(P, f"{sh}.avoid_rect", [h, w, color], {"corner": (R, C)}, Call(lib.avoid_rect_at, h, w, color, (R, C)))
    for t in targets():
        for d in range(4):
            for color in COLORS:
                for un in (True, False):
                    add(P, f"{vr}.yaji_count", [t, (R, C), d, color, un] if t is N else [N, (R, C), d, color, un], {}, Call(lib.count_arrow, N, (R, C), d, color, not un))
    add(P, f"{vr}.yaji_count", [N, (R, C), 4], {}, RAISES)
    for n in lib.OMINO:
        for k, cells in lib.OMINO[n].items():
            for color in ("black", "grid"):
                for where in ("grid", "area"):
                    for adj in (4, 8, "x", "edge"):
                        for simple in (False, True):
                            if n == 5 and k not in "FIW" and (adj != 4 or where == "area"):
                                continue
                            add(P, f"{sh}.general_shape", [f"OMINO_{n}_{k}", A, list(cells), color, where, adj, simple], {},
                                Call(lib.shape, f"OMINO_{n}_{k}", A, list(cells), color, where, adj, simple))
    add(P, f"{sh}.general_shape", ["x"], {}, RAISES)
    add(P, f"{sh}.general_shape", ["x", 0, [(0, 0)], "black", "row"], {}, RAISES)
    for where in ("grid", "area"):
        for color in COLORS:
            add(P, f"{sh}.all_shapes", ["OMINO_4", color, where], {}, Call(lib.all_shapes, "OMINO_4", color, where))
            for t in targets():
                for i in (None, "_", A):
                    add(P, f"{sh}.count_shape", [t, "OMINO_4", i, color, where], {}, Call(lib.count_shape, t, "OMINO_4", i, color, where))
        add(P, f"{sh}.all_shapes", ["OMINO_4", "black", "row"], {}, RAISES)
        add(P, f"{sh}.count_shape", [N, "OMINO_4", None, "black", "row"], {}, RAISES)
    return out
