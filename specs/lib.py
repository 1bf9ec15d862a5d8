"""Contract vocabulary: the meaning-bearing program fragments the contracts are written in.

Every function returns the program text that expresses one rule.  The fragments are written here independently of
noqx.rule; the C11-C14 checks prove that noqx.rule produces these texts for all arguments, and validate the meaning
of the texts against plain Python definitions on small grids (checks/meaning.py).
"""
from noqx.puzzle import Color, Direction, Point
from noqx.rule.helper import full_bfs  # used through its contract (C09)

NEG = {"eq": "!=", "ge": "<", "gt": "<=", "le": ">", "lt": ">=", "ne": "="}


class Out:
    """Collects what the program must contain, by the role of the statement."""

    def __init__(self):
        self.rules = ""
        self.clues = ""
        self.marks = ""
        self.shows = ""

    def rule(self, *texts):
        for t in texts:
            self.rules += t + "\n"

    def clue(self, *texts):
        for t in texts:
            self.clues += t + "\n"

    def mark(self, *texts):
        for t in texts:
            self.marks += t + "\n"

    def show(self, item, size=2):
        self.shows += f"#show {item}/{size}.\n"


def need(cond):
    """A board that violates cond is ill-formed."""
    if not cond:
        raise ValueError("ill-formed board")


def centre(d):
    need(d == Direction.CENTER)


def cmp(target):
    """(negated comparison, value): the constraint body that is true when the target is missed."""
    if isinstance(target, int):
        return "!=", target
    return NEG[target[0]], target[1]


def tag(*parts):
    """Predicate name made of the parts that are given."""
    out = ""
    for p in parts:
        if p is not None:
            out += ("_" if out != "" else "") + str(p).replace("-", "_").replace(" ", "_")
    return out


# ---------------------------------------------------------------------------------------------- board and colours
def defined(item, size=2):
    return f"#defined {item}/{size}."


def grid(rows, cols):
    return f"grid(0..{rows - 1}, 0..{cols - 1})."


def holed_grid(rows, cols):
    return f"grid(R, C) :- R = 0..{rows - 1}, C = 0..{cols - 1}, not hole(R, C)."


def area(i, cells):
    return "\n".join(f"area({i}, {r}, {c})." for r, c in cells)


def shade_c(color):
    return f"{{ {color}(R, C) }} :- grid(R, C)."


def shade_cc(colors):
    return "{ " + "; ".join(f"{x}(R, C)" for x in colors) + " } = 1 :- grid(R, C)."


def invert_c(color, invert="white"):
    return f"{invert}(R, C) :- grid(R, C), not {color}(R, C)."


def edge(rows, cols):
    """Every edge may be drawn, the border of the board is."""
    return f"""
        vertical_range(0..{rows - 1}, 0..{cols}).
        horizontal_range(0..{rows}, 0..{cols - 1}).
        {{ edge_left(R, C) }} :- vertical_range(R, C).
        {{ edge_top(R, C) }} :- horizontal_range(R, C).
        edge_left(0..{rows - 1}, 0).
        edge_left(0..{rows - 1}, {cols}).
        edge_top(0, 0..{cols - 1}).
        edge_top({rows}, 0..{cols - 1})."""


def direction(ds):
    return "direction(" + ";".join(f'"{d}"' for d in ds) + ")."


def fill_path(color):
    return f"{{ grid_direction(R, C, D): direction(D) }} :- grid(R, C), {color}(R, C)."


def fill_path_directed(color):
    return f"""
        {{ grid_in(R, C, D): direction(D) }} <= 1 :- grid(R, C), {color}(R, C).
        {{ grid_out(R, C, D): direction(D) }} <= 1 :- grid(R, C), {color}(R, C)."""


def fill_num(pool, color=None, where="grid(R, C)"):
    """pool: program text of the number pool, e.g. "1..4"."""
    part = "" if color is None else f"; {color}(R, C)"
    return f"{{ number(R, C, ({pool})){part} }} = 1 :- {where}."


def rng(lo, hi):
    """The pool of the numbers lo..hi (inclusive); empty if there is none."""
    if lo > hi:
        return ""
    return f"{lo}..{hi}"


def unique_num(color, where):
    if where == "row":
        return f":- grid(_, C), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
    if where == "col":
        return f":- grid(R, _), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
    return f":- area(A, _, _), number(_, _, N), {{ {color}(R, C) : area(A, R, C), number(R, C, N) }} > 1."


# ---------------------------------------------------------------------------------------------- counting
def count_grid(target, color):
    op, n = cmp(target)
    return f":- #count {{ grid(R, C) : {color}(R, C) }} {op} {n}."


def count_row(target, color, i="R"):
    op, n = cmp(target)
    return f":- grid({i}, _), #count {{ C : {color}({i}, C) }} {op} {n}."


def count_col(target, color, i="C"):
    op, n = cmp(target)
    return f":- grid(_, {i}), #count {{ R : {color}(R, {i}) }} {op} {n}."


def count_area(target, color, i):
    op, n = cmp(target)
    return f":- #count {{ R, C : area({i}, R, C), {color}(R, C) }} {op} {n}."


def count_adjacent(target, cell, color, adj=4):
    r, c = cell
    op, n = cmp(target)
    return f":- #count {{ R, C : {color}(R, C), adj_{adj}(R, C, {r}, {c}) }} {op} {n}."


def count_adjacent_edges(target, cell):
    r, c = cell
    op, n = cmp(target)
    return f":- {{ edge_left({r}, {c}); edge_left({r}, {c + 1}); edge_top({r}, {c}); edge_top({r + 1}, {c}) }} {op} {n}."


def count_arrow(n, cell, arrow, color, skip_if_shaded):
    """The n cells of the colour seen in direction 0 up, 1 left, 2 right, 3 down (a shaded clue may be void)."""
    r, c = cell
    void = f"not {color}({r}, {c}), " if skip_if_shaded else ""
    if arrow == 0:
        return f":- {void}#count {{ R : {color}(R, {c}), R < {r} }} != {n}."
    if arrow == 3:
        return f":- {void}#count {{ R : {color}(R, {c}), R > {r} }} != {n}."
    if arrow == 1:
        return f":- {void}#count {{ C : {color}({r}, C), C < {c} }} != {n}."
    return f":- {void}#count {{ C : {color}({r}, C), C > {c} }} != {n}."


# ---------------------------------------------------------------------------------------------- neighbourhood
def adjacent(kind=4, itself=False):
    me = f"adj_{kind}(R, C, R, C) :- grid(R, C).\n" if itself else ""
    ortho = f"adj_{kind}(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| + |C - C1| = 1.\n"
    diag = f"adj_{kind}(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| = 1, |C - C1| = 1.\n"
    sym = f"adj_{kind}(R, C, R1, C1) :- adj_{kind}(R1, C1, R, C).\n"
    if kind == 4:
        return me + ortho
    if kind == "x":
        return me + diag
    if kind == 8:
        return me + ortho + diag
    if kind == "edge":
        return me + sym + """
            adj_edge(R, C, R, C + 1) :- grid(R, C), grid(R, C + 1), not edge_left(R, C + 1).
            adj_edge(R, C, R + 1, C) :- grid(R, C), grid(R + 1, C), not edge_top(R + 1, C)."""
    if kind == "loop":
        return me + sym + "\n".join(
            f'adj_loop(R0, C0, R, C) :- {step}, grid(R, C), grid(R0, C0), grid_direction(R, C, "{d}").'
            for step, d in (("R = R0, C = C0 + 1", "l"), ("R = R0 + 1, C = C0", "u")))
    return me + sym + "\n".join(
        f'adj_loop_directed(R0, C0, R, C) :- {step}, grid(R, C), grid(R0, C0), {end}(R, C, "{d}").'
        for step, d in (("R = R0, C = C0 + 1", "l"), ("R = R0 + 1, C = C0", "u")) for end in ("grid_in", "grid_out"))


def avoid_adjacent(color, adj=4):
    return f":- {color}(R, C), {color}(R1, C1), adj_{adj}(R, C, R1, C1)."


def avoid_num_adjacent(adj=4):
    return f":- number(R, C, N), number(R1, C1, N), adj_{adj}(R, C, R1, C1)."


def area_adjacent(adj=4, color=None):
    own = "" if color is None else f", {color}(R, C), {color}(R1, C1)"
    return f"{tag('area_adj', adj, color)}(A, A1) :- area(A, R, C), area(A1, R1, C1), adj_{adj}(R, C, R1, C1), A < A1{own}."


def area_same_color(color):
    return f":- area(A, R, C), area(A, R1, C1), {color}(R, C), not {color}(R1, C1)."


def nori_adjacent(color="gray", adj=4):
    return f":- grid(R, C), {color}(R, C), #count {{ R1, C1 : {color}(R1, C1), adj_{adj}(R, C, R1, C1) }} != 1."


# ---------------------------------------------------------------------------------------------- connectivity
def spread(t, color, adj, extra=""):
    return f"{t}(R, C) :- {t}(R1, C1), {color}(R, C), adj_{adj}(R, C, R1, C1)."


def connected(color, adj=4, size=None):
    """All cells of the colour are connected (size: start the search in the middle of the board)."""
    t = tag("reachable_grid_adj", adj, color)
    if size is None:
        start = f"{t}(R, C) :- (R, C) = #min {{ (R1, C1) : grid(R1, C1), {color}(R1, C1) }}."
    else:
        mr, mc = size[0] // 2, size[1] // 2
        start = f"{t}(R, C) :- (_, R, C) = #min {{ (|R1 - {mr}| + |C1 - {mc}|, R1, C1) : grid(R1, C1), {color}(R1, C1) }}."
    return f"{start}\n{spread(t, color, adj)}\n:- grid(R, C), {color}(R, C), not {t}(R, C)."


def border_connected(rows, cols, color, adj=4):
    """Every cell of the colour is connected to the border of the board."""
    t = tag("reachable_border_adj", adj, color)
    start = ""
    for r in range(rows):
        for c in range(cols):
            if r == 0 or r == rows - 1 or c == 0 or c == cols - 1:
                start += f"{t}({r}, {c}) :- {color}({r}, {c}).\n"
    return start + f"{spread(t, color, adj)}\n:- grid(R, C), {color}(R, C), not {t}(R, C)."


def area_connected(color, adj=4):
    """In every room the cells of the colour are connected inside the room."""
    t = tag("reachable_area_adj", adj, color)
    return f"""
        {t}(A, R, C) :- area(A, _, _), (R, C) = #min {{ (R1, C1) : area(A, R1, C1), {color}(R1, C1) }}.
        {t}(A, R, C) :- {t}(A, R1, C1), area(A, R, C), {color}(R, C), adj_{adj}(R, C, R1, C1).
        :- area(A, R, C), {color}(R, C), not {t}(A, R, C)."""


def src_connected(cell, color="black", adj=4, include=(), exclude=()):
    """Cells reached from a source over cells of the colour; region kind: over undrawn edges, nothing cut inside."""
    t = tag("reachable_grid_src_adj", adj, color)
    r, c = cell
    out = f"{t}({r}, {c}, {r}, {c}).\n"
    for r1, c1 in include:
        out += f"{t}({r}, {c}, {r1}, {c1}).\n"
    for r1, c1 in exclude:
        out += f"not {t}({r}, {c}, {r1}, {c1}).\n"
    if adj == "edge":
        return out + f"""
            {t}({r}, {c}, R, C) :- {t}({r}, {c}, R1, C1), grid(R, C), adj_edge(R, C, R1, C1).
            :- {t}({r}, {c}, R, C), {t}({r}, {c}, R, C + 1), edge_left(R, C + 1).
            :- {t}({r}, {c}, R, C), {t}({r}, {c}, R + 1, C), edge_top(R + 1, C)."""
    return out + f"{t}({r}, {c}, R, C) :- {t}({r}, {c}, R1, C1), grid(R, C), {color}(R, C), adj_{adj}(R, C, R1, C1)."


def bulb_connected(cell, color="black", adj=4):
    """Cells seen from a source in the four directions over cells of the colour (or over undrawn edges)."""
    t = tag("reachable_bulb_src_adj", adj, color)
    r, c = cell
    own = f"{color}(R, C), " if adj == 4 else ""
    return f"""{t}({r}, {c}, {r}, {c}).
        {t}({r}, {c}, R, C) :- {t}({r}, {c}, R1, C1), {own}adj_{adj}(R, C, R1, C1), (R - {r}) * (C - {c}) = 0."""


def count_reachable(target, cell, color="black", adj=4, main="grid"):
    t = tag("reachable", main, "src_adj", adj, color)
    op, n = cmp(target)
    return f":- {{ {t}({cell[0]}, {cell[1]}, R, C) }} {op} {n}."


def count_rect(target, cell, color=None, adj=4):
    t = tag("reachable_bulb_src_adj", adj, color)
    r, c = cell
    op, n = cmp(target)
    return f":- #count {{ R : {t}({r}, {c}, R, C) }} = CR, #count {{ C : {t}({r}, {c}, R, C) }} = CC, CR * CC {op} {n}."


def avoid_unknown_src(color="black", adj=4):
    t = tag("reachable_grid_src_adj", adj, color)
    own = "" if color is None else f"{color}(R, C), "
    return f":- grid(R, C), {own}not {t}(_, _, R, C)."


def branch_connected(color="black", adj=4):
    """Cells reached from every cell of the colour; region kind: over undrawn edges, nothing cut inside."""
    t = tag("reachable_grid_branch_adj", adj, color)
    if adj == "edge":
        return f"""
            {t}(R, C, R, C) :- grid(R, C).
            {t}(R0, C0, R, C) :- {t}(R0, C0, R1, C1), grid(R, C), adj_edge(R, C, R1, C1).
            :- {t}(R, C, R, C + 1), edge_left(R, C + 1).
            :- {t}(R, C, R + 1, C), edge_top(R + 1, C).
            :- {t}(R, C + 1, R, C), edge_left(R, C + 1).
            :- {t}(R + 1, C, R, C), edge_top(R + 1, C)."""
    return f"""
        {t}(R, C, R, C) :- grid(R, C), {color}(R, C).
        {t}(R0, C0, R, C) :- {t}(R0, C0, R1, C1), grid(R, C), {color}(R, C), adj_{adj}(R, C, R1, C1)."""


def bits(n):
    """Number of binary digits of n >= 1."""
    k = 0
    while n > 0:
        n = n // 2
        k += 1
    return k


def clue_bit(r, c, i, nbit):
    out = f"clue({r}, {c}).\n"
    for b in range(nbit):
        if (i // 2**b) % 2 == 1:
            out += f"clue_bit({r}, {c}, {b}).\n"
    return out


def bit_connected(color, adj):
    t = tag("reachable_grid_bit_adj", adj)
    return f"""
        {t}(R, C, B) :- clue_bit(R, C, B).
        not {t}(R, C, B) :- grid(R, C), {color}(R, C), bit_range(B), clue(R, C), not clue_bit(R, C, B).
        {t}(R, C, B) :- {t}(R1, C1, B), grid(R, C), bit_range(B), {color}(R, C), adj_{adj}(R, C, R1, C1).
        not {t}(R, C, B) :- not {t}(R1, C1, B), grid(R, C), grid(R1, C1), bit_range(B), {color}(R, C), {color}(R1, C1), adj_{adj}(R, C, R1, C1)."""


def avoid_unknown_bit(color, adj):
    return f":- grid(R, C), {color}(R, C), not {tag('reachable_grid_bit_adj', adj)}(R, C, _)."


# ---------------------------------------------------------------------------------------------- loops
OPP = {"l": ("r", "R, C - 1"), "r": ("l", "R, C + 1"), "u": ("d", "R - 1, C"), "d": ("u", "R + 1, C")}
TURNS = ("lu", "ld", "ru", "rd")
STRAIGHTS = ("lr", "ud")


def fits(p="grid_direction", q="grid_direction"):
    """A line end p towards a neighbour has its counterpart q there."""
    return "\n".join(f':- grid(R, C), {p}(R, C, "{d}"), not {q}({n}, "{e}").' for d, (e, n) in OPP.items())


def single_loop(color="white", path=False):
    ends = ", not dead_end(R, C)" if path else ""
    out = "pass_by_loop(R, C) :- grid(R, C), #count { D : grid_direction(R, C, D) } = 2.\n"
    if path:
        out += ":- dead_end(R, C), grid(R, C), #count { D : grid_direction(R, C, D) } != 1.\n"
    return out + f":- grid(R, C), {color}(R, C), not pass_by_loop(R, C){ends}.\n" + fits()


def intersect_loop(color="white", path=False):
    return single_loop(color, path) + """
        intersection(R, C) :- grid(R, C), #count { D : grid_direction(R, C, D) } = 4.
        pass_by_loop(R, C) :- intersection(R, C)."""


def directed_loop(color="white", path=False):
    out = f"pass_by_loop(R, C) :- grid(R, C), {color}(R, C), #count {{ D : grid_in(R, C, D) }} = 1, #count {{ D : grid_out(R, C, D) }} = 1, grid_in(R, C, D0), not grid_out(R, C, D0).\n"
    ends = ""
    if path:
        ends = ", not path_start(R, C), not path_end(R, C)"
        for end, i, o in (("path_start", 0, 1), ("path_end", 1, 0)):
            out += f":- {end}(R, C), grid(R, C), #count {{ D : grid_out(R, C, D) }} != {o}.\n"
            out += f":- {end}(R, C), grid(R, C), #count {{ D : grid_in(R, C, D) }} != {i}.\n"
    out += f":- grid(R, C), {color}(R, C), not pass_by_loop(R, C){ends}.\n"
    return out + fits("grid_in", "grid_out") + "\n" + fits("grid_out", "grid_in")


def count_area_pass(n, i):
    """The loop enters and leaves room i n times."""
    return f":- #count {{ R, C, D : area_border({i}, R, C, D), grid_direction(R, C, D) }} != {2 * n}."


def inside_outside(inside, outside):
    """Cells of kind `inside` are inside the loop, those of kind `outside` outside (text empty: no demand)."""
    out = """
        outside_loop(-1, C) :- grid(_, C).
        outside_loop(R, C) :- grid(R, C), outside_loop(R - 1, C), not grid_direction(R, C, "r").
        outside_loop(R, C) :- grid(R, C), not outside_loop(R - 1, C), grid_direction(R, C, "r").\n"""
    if inside != "":
        out += f":- {inside}(R, C), outside_loop(R, C).\n"
    if outside != "":
        out += f":- {outside}(R, C), not outside_loop(R, C).\n"
    return out


def two_ends(head, color, d):
    return f'{head} :- grid(R, C), {color}(R, C), grid_direction(R, C, "{d[0]}"), grid_direction(R, C, "{d[1]}").'


def loop_sign(color="white"):
    return "\n".join(two_ends(f'loop_sign(R, C, "{d}")', color, d) for d in TURNS + STRAIGHTS)


def loop_straight(color="white"):
    return "\n".join(two_ends("straight(R, C)", color, d) for d in STRAIGHTS)


def loop_turning(color="white"):
    return "\n".join(two_ends("turning(R, C)", color, d) for d in TURNS)


def loop_segment(cell):
    """Ends of the straight runs of the loop through a cell."""
    r, c = cell
    end = {
        "u": f'#max {{ R0 : grid(R0 + 1, {c}), not loop_sign(R0, {c}, "ud"), R0 < {r} }}',
        "d": f'#min {{ R0 : grid(R0 - 1, {c}), not loop_sign(R0, {c}, "ud"), R0 > {r} }}',
        "l": f'#max {{ C0 : grid({r}, C0 + 1), not loop_sign({r}, C0, "lr"), C0 < {c} }}',
        "r": f'#min {{ C0 : grid({r}, C0 - 1), not loop_sign({r}, C0, "lr"), C0 > {c} }}',
    }
    out = ""
    for sign, a, b, kind in (("lu", "u", "l", "T"), ("ld", "d", "l", "T"), ("ru", "u", "r", "T"), ("rd", "d", "r", "T"),
                             ("ud", "u", "d", "V"), ("lr", "l", "r", "H")):
        out += f'segment({r}, {c}, N1, N2, "{kind}") :- loop_sign({r}, {c}, "{sign}"), N1 = {end[a]}, N2 = {end[b]}.\n'
    return out


def direction_to_edge(ends=("grid_direction",)):
    return "\n".join(f'edge_top(R, C) :- {e}(R, C, "r").\nedge_left(R, C) :- {e}(R, C, "d").' for e in ends)


def direction_to_diagonal(ends=("grid_direction",)):
    return "\n".join(f'edge_diag_down(R, C) :- {e}(R, C, "dr").\nedge_diag_up(R, C) :- {e}(R + 1, C, "ur").' for e in ends)


# ---------------------------------------------------------------------------------------------- rectangles and shapes
def rect_parts(up0, left0, keep_l, keep_u):
    """Recursive marking of a rectangle from its top left cell: first column, first row, the rest."""
    out = ""
    for head, prev, back, keep in (("left", ("upleft", "left"), "R - 1, C", keep_l), ("up", ("upleft", "up"), "R, C - 1", keep_u)):
        for p in prev:
            out += f"{head}(R, C) :- grid(R, C), {p}({back}), {keep}.\n"
    for a in ("left", "remain"):
        for b in ("up", "remain"):
            out += f"remain(R, C) :- grid(R, C), {a}(R, C - 1), {b}(R - 1, C).\n"
    return out


def all_rect(color, square=False):
    """The cells of the colour form rectangles that touch at most diagonally."""
    k = color
    out = f"upleft(R, C) :- grid(R, C), {k}(R, C), not {k}(R - 1, C), not {k}(R, C - 1).\n"
    out += rect_parts("", "", f"{k}(R, C), {k}(R - 1, C), not {k}(R, C - 1)", f"{k}(R, C), {k}(R, C - 1), not {k}(R - 1, C)")
    out += f":- grid(R, C), {k}(R, C), not upleft(R, C), not left(R, C), not up(R, C), not remain(R, C).\n"
    out += f":- grid(R, C), remain(R, C), not {k}(R, C).\n"
    if square:
        out += f":- upleft(R, C), MR = #min {{ R0 : grid(R0 - 1, C), not {k}(R0, C), R0 > R }}, MC = #min {{ C0 : grid(R, C0 - 1), not {k}(R, C0), C0 > C }}, MR - R != MC - C.\n"
        out += ":- upleft(R, C), left(R + 1, C), not up(R, C + 1).\n:- upleft(R, C), not left(R + 1, C), up(R, C + 1).\n"
    return out


def all_rect_region(square=False):
    """The edges divide the board into rectangles."""
    out = "upleft(R, C) :- grid(R, C), edge_left(R, C), edge_top(R, C).\n"
    out += rect_parts("", "", "edge_left(R, C), not edge_top(R, C)", "edge_top(R, C), not edge_left(R, C)")
    out += ":- grid(R, C), { upleft(R, C); left(R, C); up(R, C); remain(R, C) } != 1.\n"
    for n, e in (("R, C + 1", "edge_left"), ("R + 1, C", "edge_top")):
        first = "left" if e == "edge_left" else "up"
        out += f":- grid(R, C), remain(R, C), {first}({n}), not {e}({n}).\n"
        out += f":- grid(R, C), remain(R, C), upleft({n}), not {e}({n}).\n"
        out += f":- grid(R, C), {first}(R, C), remain({n}), {e}({n}).\n"
        out += f":- grid(R, C), remain(R, C), remain({n}), {e}({n}).\n"
    if square:
        out += ":- upleft(R, C), MR = #min { R0 : grid(R0 - 1, C), edge_top(R0, C), R0 > R }, MC = #min { C0 : grid(R, C0 - 1), edge_left(R, C0), C0 > C }, MR - R != MC - C.\n"
    return out


def avoid_rect(h, w, color):
    """No h x w rectangle of the colour anywhere."""
    cells = ", ".join(f"{color}(R + {i}, C + {j})" for i in range(h) for j in range(w))
    return f":- {cells}, grid(R, C), grid(R + {h - 1}, C + {w - 1})."


def avoid_rect_at(h, w, color, cell):
    """The h x w rectangle with this corner is not all of the colour."""
    r, c = cell
    cells = ", ".join(f"{color}({r + i}, {c + j})" for i in range(h) for j in range(w))
    return f":- {cells}."


def no_rect(color):
    """No connected group of the colour is a rectangle."""
    t = tag("reachable_Lshape_adj_4", color)
    k = color
    square = ("R, C", "R, C + 1", "R + 1, C", "R + 1, C + 1")
    out = ""
    for out_cell in square:
        at = "R + 1, C + 1" if out_cell == "R, C" else "R, C"
        body = ", ".join(f"not {k}({x})" if x == out_cell else f"{k}({x})" for x in square)
        out += f"{t}({at}) :- grid(R, C), grid(R + 1, C + 1), {body}.\n"
    return out + f"{t}(R, C) :- {t}(R1, C1), {k}(R, C), adj_4(R, C, R1, C1).\n:- grid(R, C), {k}(R, C), not {t}(R, C)."


def no_crossing_edges():
    return ":- grid(R, C), edge_left(R, C + 1), edge_left(R + 1, C + 1), edge_top(R + 1, C), edge_top(R + 1, C + 1)."


def normal_shape(cells):
    """Translate so that the first cell in reading order is (0, 0)."""
    s = sorted(cells)
    return tuple((r - s[0][0], c - s[0][1]) for r, c in s)


def orientations(cells):
    out = set()
    for k in range(8):
        t = cells
        if k >= 4:
            t = [(r, -c) for r, c in t]
        for _ in range(k % 4):
            t = [(c, -r) for r, c in t]
        out.add(normal_shape(t))
    return sorted(out)


def at(v, d):
    return f"{v} + {d}"


def shape(name, i, cells, color, where="grid", adj=4, simple=False):
    """shape_<name>(.., R, C, i, v): a placement of orientation v at (R, C), exactly these cells (maximal unless simple);
    belong_to_shape_<name>: its cells."""
    t, b = tag("shape", name, color), tag("belong_to_shape", name, color)
    near = ((-1, 0), (1, 0), (0, -1), (0, 1))
    diag = ((-1, -1), (-1, 1), (1, -1), (1, 1))
    steps = near if adj == 4 else diag if adj == "x" else near + diag if adj == 8 else near
    a = "A, " if where == "area" else ""
    out = ""
    for v, cs in enumerate(orientations(cells)):
        body = []
        for r, c in cs:
            here = f"R + {r}, C + {c}"
            body.append(f"{where}({a}{here})")
            body.append(f"{color}({here})")
            out += f"{b}({a}{here}, {i}, {v}) :- {where}({a}{here}), {t}({a}R, C, {i}, {v}).\n"
            for dr, dc in steps:
                there = f"R + {r + dr}, C + {c + dc}"
                if (r + dr, c + dc) in cs:
                    if adj not in (4, 8, "x") and (dr, dc) > (0, 0):
                        body.append(f"adj_{adj}({here}, {there})")
                        body.append(f"{color}({there})")
                elif not simple:
                    if color == "grid":
                        body.append(f"not adj_{adj}({here}, {there})")
                    else:
                        body.append(f"{{ not adj_{adj}({here}, {there}); not {color}({there}) }} > 0")
        out += f"{t}({a}R, C, {i}, {v}) :- {where}({a}R, C), {', '.join(body)}.\n"
    return out


def all_shapes(name, color, where="grid"):
    b = tag("belong_to_shape", name, color)
    if where == "area":
        return f":- area(A, R, C), {color}(R, C), not {b}(A, R, C, _, _)."
    return f":- grid(R, C), {color}(R, C), not {b}(R, C, _, _)."


def count_shape(target, name, i, color, where="grid"):
    op, n = cmp(target)
    t = tag("shape", name, color)
    i = "_" if i is None else i
    if where == "area":
        return f":- area(A, _, _), {{ {t}(A, R, C, {i}, _) }} {op} {n}."
    return f":- {{ {t}(R, C, {i}, _) }} {op} {n}."


# named polyominoes (drawings; letters as usual)
PICTURES = {
    1: {".": "#"},
    2: {"I": "##"},
    3: {"I": "###", "L": "## #."},
    4: {"T": "### .#.", "O": "## ##", "I": "####", "L": "### #..", "S": ".## ##."},
    5: {"F": ".## ##. .#.", "I": "#####", "L": "#### #...", "N": "##.. .###", "P": "## ## #.", "T": "### .#. .#.",
        "U": "#.# ###", "V": "#.. #.. ###", "W": "#.. ##. .##", "X": ".#. ### .#.", "Y": "#### .#..", "Z": "##. .#. .##"},
}


def picture(s):
    return tuple((r, c) for r, row in enumerate(s.split(" ")) for c, ch in enumerate(row) if ch == "#")


OMINO = {n: {k: picture(s) for k, s in d.items()} for n, d in PICTURES.items()}


# ---------------------------------------------------------------------------------------------- what users draw
def marks(p, o, color):
    """A dark cell drawn by the user has the colour, any other colour drawn means it has not."""
    for (r, c, _, _), k in p.surface.items():
        if k in Color.DARK:
            o.mark(f"{color}({r}, {c}).")
        else:
            o.mark(f"not {color}({r}, {c}).")


def walls(p, o, color):
    """A dark cell of the board is part of the puzzle, not of the answer."""
    for (r, c, _, _), k in p.surface.items():
        if k in Color.DARK:
            o.clue(f"{color}({r}, {c}).")
        else:
            o.clue(f"not {color}({r}, {c}).")


def clue_of(p, cell):
    """The value written in the middle of a cell, if any."""
    return p.text.get(Point(*cell, Direction.CENTER, "normal"))


def rooms(p, o):
    """Rooms without clues."""
    for i, cells in enumerate(full_bfs(p.row, p.col, p.edge)):
        o.rule(area(i, cells))


def room_counts(p, o, color, rest=None):
    """Rooms; a number in a room is the number of its cells of the colour (a room without one: rest)."""
    for i, (cells, at) in enumerate(full_bfs(p.row, p.col, p.edge, p.text).items()):
        o.rule(area(i, cells))
        if at:
            n = clue_of(p, at)
            if isinstance(n, int):
                o.clue(count_area(n, color, i))


def line_marks(p, o):
    """A drawn line end is in the answer, one with an x is not."""
    for (r, c, _, d), drawn in p.line.items():
        if drawn:
            o.mark(f':- not grid_direction({r}, {c}, "{d}").')
        else:
            o.mark(f':- grid_direction({r}, {c}, "{d}").')


def edge_marks(p, o):
    """A drawn edge is in the answer, an edge with an x is not."""
    for (r, c, d, _), drawn in p.edge.items():
        if drawn:
            o.mark(f":- not edge_{d.value}({r}, {c}).")
        else:
            o.mark(f":- edge_{d.value}({r}, {c}).")


def arrow_clue(x):
    """(number, direction) of a clue with an arrow."""
    need(isinstance(x, str) and "_" in x)
    n, a = x.split("_")
    need(n.isdigit() and a.isdigit())
    need(int(a) in (0, 1, 2, 3))
    return int(n), int(a)


def borders(i, cells, edges):
    """The drawn borders of the cells of room i, with their side."""
    out = ""
    for r, c in cells:
        if edges.get(Point(r, c, Direction.TOP)) is True:
            out += f'area_border({i}, {r}, {c}, "u").\n'
        if edges.get(Point(r + 1, c, Direction.TOP)) is True:
            out += f'area_border({i}, {r}, {c}, "d").\n'
        if edges.get(Point(r, c, Direction.LEFT)) is True:
            out += f'area_border({i}, {r}, {c}, "l").\n'
        if edges.get(Point(r, c + 1, Direction.LEFT)) is True:
            out += f'area_border({i}, {r}, {c}, "r").\n'
    return out


def dark_only(p, o, color="black", everywhere=True):
    """Only dark cells may be drawn; they have the colour (where not every cell can have it: no answer lacks it there)."""
    for (r, c, _, _), k in p.surface.items():
        need(k in Color.DARK)
        if everywhere:
            o.mark(f"{color}({r}, {c}).")
        else:
            o.mark(f":- not {color}({r}, {c}).")


def holes(p, o, color="black"):
    """Only dark cells may be drawn; they are holes in the board."""
    for (r, c, _, _), k in p.surface.items():
        need(k in Color.DARK)
        o.clue(f"{color}({r}, {c}).")


def outside_counts(p, o, color):
    """Numbers above (left of) the board count the cells of the colour in their column (row)."""
    for (r, c, d, pos), n in p.text.items():
        centre(d)
        need(pos == "normal")
        if r == -1 and 0 <= c < p.col and isinstance(n, int):
            o.clue(count_col(n, color, c))
        if c == -1 and 0 <= r < p.row and isinstance(n, int):
            o.clue(count_row(n, color, r))


def contract(f, p):
    """Run contract f on puzzle p: the demanded program, by role."""
    o = Out()
    f(p, o)
    return o.rules, o.clues, o.marks, o.shows
