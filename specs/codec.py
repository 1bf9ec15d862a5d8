"""Contracts of the board codec: what a drawing means, and how a solution is drawn.

The same text is executed symbolically (for arbitrary boards) and natively (on concrete boards).  Geometry: the editor
numbers the points of a (rows + 4) x (columns + 4) grid, two spare rows/columns on every side of the board with its
margins, first all cell centres, then all bottom-right corners, then all bottom edges, then all right edges.
"""
import json
from base64 import b64decode, b64encode
from zlib import compress, decompress

from noqx.puzzle import Color, Direction, Point

PREFIX = "m=edit&p="
ABBREVIATIONS = {
    "z9": '"qa"', "zQ": '"pu_q"', "zA": '"pu_a"', "zG": '"grid"', "zM": '"edit_mode"', "zS": '"surface"', "zL": '"line"',
    "zE": '"edge"', "zW": '"wall"', "zC": '"cage"', "zN": '"number"', "z1": '"sudoku"', "zY": '"symbol"', "zP": '"special"',
    "zB": '"board"', "zR": '"command_redo"', "zU": '"command_undo"', "z8": '"command_replay"', "zF": '"freeline"',
    "z2": '"freeedge"', "zT": '"thermo"', "z3": '"arrows"', "zD": '"d"', "z0": '"squareframe"', "z5": '"polygon"',
    "z4": '"deleteedge"', "z6": '"killercages"', "z7": '"nobulbthermo"', "z_": '"__a"', "zO": "null",
}


def expand(text):
    for short, long in ABBREVIATIONS.items():
        text = text.replace(short, long)
    return text


def abbreviate(text):
    for short, long in ABBREVIATIONS.items():
        text = text.replace(long, short)
    return text


class Drawing:
    """A board: its geometry and its elements."""

    def __init__(self, name, content):
        self.puzzle_name = name
        self.content = content
        self.row = 0
        self.col = 0
        self.margin = (0, 0, 0, 0)
        self.parts = []
        self.surface = {}
        self.text = {}
        self.symbol = {}
        self.edge = {}
        self.line = {}


# -------------------------------------------------------------------------------------------------- geometry
def grid_rows(b):
    top, bottom, left, right = b.margin
    return b.row + top + bottom + 4


def grid_cols(b):
    top, bottom, left, right = b.margin
    return b.col + left + right + 4


def locate(b, index):
    """(row, column, category) of an editor index."""
    top, bottom, left, right = b.margin
    category, place = divmod(index, grid_rows(b) * grid_cols(b))
    return place // grid_cols(b) - 2 - top, place % grid_cols(b) - 2 - left, category


def number_of(b, r, c, category):
    """The editor index of a position."""
    top, bottom, left, right = b.margin
    return (category * grid_rows(b) * grid_cols(b)) + (r + 2 + top) * grid_cols(b) + c + 2 + left


def spot(b, index, pos="normal"):
    """The point an index of any category stands for: a centre, or the corner/edge of the cell below or right of it."""
    r, c, category = locate(b, index)
    if category == 0:
        return Point(r, c, Direction.CENTER, pos)
    if category == 1:
        return Point(r + 1, c + 1, Direction.TOP_LEFT, pos)
    if category == 2:
        return Point(r + 1, c, Direction.TOP, pos)
    if category == 3:
        return Point(r, c + 1, Direction.LEFT, pos)
    raise ValueError("no such category")


# -------------------------------------------------------------------------------------------------- reading
def value_of(x):
    """Texts that are decimal numbers are numbers."""
    if isinstance(x, int):
        return x
    if x.isdecimal():
        return int(x)
    return x


def style_number(flags):
    """The number whose binary digits are the flags."""
    return int("".join(map(str, flags)), 2)


def read_size(b):
    head = b.parts[0].split(",")
    kind = head[0]
    if kind != "square" and kind != "sudoku" and kind != "kakuro":
        raise NotImplementedError("only square boards")
    b.margin = json.loads(b.parts[1])
    top, bottom, left, right = b.margin
    b.row = int(head[2]) - top - bottom
    b.col = int(head[1]) - left - right


def read_surface(b, doc):
    for index, colour in doc["surface"].items():
        r, c, category = locate(b, int(index))
        if colour == 1 or colour == 3 or colour == 8:
            b.surface[Point(r, c)] = Color.GRAY
        if colour == 4:
            b.surface[Point(r, c)] = Color.BLACK
        if colour == 2:
            b.surface[Point(r, c)] = Color.GREEN


def read_text(b, doc):
    for index, data in doc["number"].items():
        # subtype 4: several numbers in one cell; subtype 7: candidates, no givens
        if data[2] == "4":
            for k, x in enumerate(map(value_of, list(data[0]))):
                b.text[spot(b, int(index), f"tapa_{k}")] = x
        elif data[2] != "7":
            b.text[spot(b, int(index))] = value_of(data[0])


def read_corners(b, doc):
    # four small numbers per cell corner (category 1) or side (category 2)
    for index, data in doc["sudoku"].items():
        r, c, category = locate(b, int(index) // 4)
        k = (category - 1) * 4 + int(index) % 4
        b.text[Point(r, c, Direction.CENTER, f"sudoku_{k}")] = value_of(data[0])


def read_symbol(b, doc):
    for index, (style, shape, layer) in doc["symbol"].items():
        if isinstance(style, list):
            b.symbol[spot(b, int(index), "multiple")] = f"{shape}__{style_number(style)}"
        elif b.puzzle_name == "nondango" and f"{shape}__{style}" == "circle_M__4":
            # the circles of nondango leave room for the answer in the same cell
            b.symbol[spot(b, int(index), "nondango_mark")] = f"{shape}__{style}"
        else:
            b.symbol[spot(b, int(index))] = f"{shape}__{style}"


def read_edge(b, doc):
    for index, kind in doc["edge"].items():
        if "," in index:
            a, z = index.split(",")
            # the corners it joins, each named by the cell it is the bottom-right corner of
            ra, ca, _ = locate(b, int(a))
            rz, cz, _ = locate(b, int(z))
            if ra == rz:
                b.edge[Point(rz + 1, cz, Direction.TOP)] = True
            elif ca == cz:
                b.edge[Point(rz, cz + 1, Direction.LEFT)] = True
            elif rz == ra + 1 and cz == ca - 1:
                b.edge[Point(rz, ca, Direction.DIAG_UP)] = True
            elif rz == ra + 1 and cz == ca + 1:
                b.edge[Point(rz, cz, Direction.DIAG_DOWN)] = True
        else:
            # a cross on an edge
            r, c, category = locate(b, int(index))
            if category == 2:
                b.edge[Point(r + 1, c, Direction.TOP)] = False
            if category == 3:
                b.edge[Point(r, c + 1, Direction.LEFT)] = False


def read_line(b, doc):
    for index, kind in doc["line"].items():
        if "," in index:
            a, z = index.split(",")
            ra, ca, _ = locate(b, int(a))
            rz, cz, category = locate(b, int(z))
            count = ""
            if b.puzzle_name == "hashi":
                count = "_2" if kind == 30 else "_1"
            if category == 0:
                # between two cell centres: both cells are left towards each other
                if ra == rz:
                    b.line[Point(ra, ca, Direction.CENTER, f"r{count}")] = True
                    b.line[Point(rz, cz, Direction.CENTER, f"l{count}")] = True
                else:
                    b.line[Point(ra, ca, Direction.CENTER, f"d{count}")] = True
                    b.line[Point(rz, cz, Direction.CENTER, f"u{count}")] = True
            # from a cell centre to the middle of the bottom (2) or right (3) edge of cell z
            elif category == 2:
                b.line[Point(ra, ca, Direction.CENTER, ("d" if ra == rz and ca == cz else "u") + count)] = True
            else:
                b.line[Point(ra, ca, Direction.CENTER, ("r" if ra == rz and ca == cz else "l") + count)] = True
        else:
            # a cross on an edge cuts both halves of the line through it
            r, c, category = locate(b, int(index))
            if category == 2:
                b.line[Point(r, c, Direction.CENTER, "d")] = False
                b.line[Point(r + 1, c, Direction.CENTER, "u")] = False
            if category == 3:
                b.line[Point(r, c, Direction.CENTER, "r")] = False
                b.line[Point(r, c + 1, Direction.CENTER, "l")] = False


def read_layer(b, doc):
    read_surface(b, doc)
    read_text(b, doc)
    read_corners(b, doc)
    read_symbol(b, doc)
    read_edge(b, doc)
    read_line(b, doc)


def read_board(b):
    """The answer layer first, so that the question wins where both draw."""
    for part in (4, 3):
        read_layer(b, json.loads(expand(b.parts[part])))


def open_(b):
    b.parts = decompress(b64decode(b.content[len(PREFIX):]), -15).decode().split("\n")
    read_size(b)


def read(name, content):
    b = Drawing(name, content)
    open_(b)
    read_board(b)
    return b


# -------------------------------------------------------------------------------------------------- writing
def write_board(b, given, answer):
    """Draw the elements of b into answer, except where the question has one of the kind."""
    for p, colour in b.surface.items():
        k = f"{number_of(b, p.r, p.c, 0)}"
        if colour == Color.BLACK and not given["surface"].get(k):
            answer["surface"][k] = 4
        if colour == Color.GRAY and not given["surface"].get(k):
            answer["surface"][k] = 8
    for p, x in b.text.items():
        k = f"{number_of(b, p.r, p.c, 0)}"
        if not given["number"].get(k):
            answer["number"][k] = [str(x), 2, "1"]
    for p, name in b.symbol.items():
        shape, style = name.split("__")
        k = f"{number_of(b, p.r, p.c, 0)}"
        # (the given circles of nondango are in the cells that the answer draws in)
        if b.puzzle_name == "nondango" or not given["symbol"].get(k):
            answer["symbol"][k] = [int(style), shape, 1]
    for p in b.edge:
        # the two corners it joins, the upper or left one first
        a = z = number_of(b, p.r - 1, p.c - 1, 1)
        if p.d == Direction.TOP:
            z = number_of(b, p.r - 1, p.c, 1)
        if p.d == Direction.LEFT:
            z = number_of(b, p.r, p.c - 1, 1)
        if p.d == Direction.DIAG_UP:
            a, z = number_of(b, p.r - 1, p.c, 1), number_of(b, p.r, p.c - 1, 1)
        if p.d == Direction.DIAG_DOWN:
            z = number_of(b, p.r, p.c, 1)
        if not given["edge"].get(f"{a},{z}"):
            answer["edge"][f"{a},{z}"] = 3
    for p in b.line:
        # from the centre of the cell to the middle of one of its sides; whole is the line between the two cell centres
        a = number_of(b, p.r, p.c, 0)
        if p.pos.startswith("r"):
            z, whole = number_of(b, p.r, p.c, 3), f"{a},{number_of(b, p.r, p.c + 1, 0)}"
        elif p.pos.startswith("d"):
            z, whole = number_of(b, p.r, p.c, 2), f"{a},{number_of(b, p.r + 1, p.c, 0)}"
        elif p.pos.startswith("l"):
            z, whole = number_of(b, p.r, p.c - 1, 3), f"{number_of(b, p.r, p.c - 1, 0)},{a}"
        elif p.pos.startswith("u"):
            z, whole = number_of(b, p.r - 1, p.c, 2), f"{number_of(b, p.r - 1, p.c, 0)},{a}"
        else:
            raise ValueError("no such direction")
        # (the bridges of hashi are drawn over the given lines)
        if b.puzzle_name == "hashi":
            answer["line"][f"{a},{z}"] = 3 if p.pos.endswith("_1") else 30
        elif not given["line"].get(f"{a},{z}") and not given["line"].get(whole):
            answer["line"][f"{a},{z}"] = 3


def write(b):
    given = json.loads(expand(b.parts[3]))
    answer = json.loads(expand(b.parts[4]))
    write_board(b, given, answer)
    b.parts[4] = abbreviate(json.dumps(answer))
    return PREFIX + b64encode(compress("\n".join(b.parts).encode())[2:-4]).decode()


# -------------------------------------------------------------------------------------------------- round trip
def reread(b):
    """What reading the written solution b gives (the answer layer having been empty): its elements that are not given,
    and then the question."""
    given = json.loads(expand(b.parts[3]))
    out = Drawing(b.puzzle_name, b.content)
    out.parts, out.margin, out.row, out.col = b.parts, b.margin, b.row, b.col
    for p, colour in b.surface.items():
        if not given["surface"].get(f"{number_of(b, p.r, p.c, 0)}"):
            out.surface[p] = colour
    for p, x in b.text.items():
        if not given["number"].get(f"{number_of(b, p.r, p.c, 0)}"):
            out.text[p] = x
    for p, name in b.symbol.items():
        if b.puzzle_name == "nondango" or not given["symbol"].get(f"{number_of(b, p.r, p.c, 0)}"):
            pos = "nondango_mark" if b.puzzle_name == "nondango" and name == "circle_M__4" else "normal"
            out.symbol[Point(p.r, p.c, Direction.CENTER, pos)] = name
    for p in b.edge:
        a = z = number_of(b, p.r - 1, p.c - 1, 1)
        if p.d == Direction.TOP:
            z = number_of(b, p.r - 1, p.c, 1)
        if p.d == Direction.LEFT:
            z = number_of(b, p.r, p.c - 1, 1)
        if p.d == Direction.DIAG_UP:
            a, z = number_of(b, p.r - 1, p.c, 1), number_of(b, p.r, p.c - 1, 1)
        if p.d == Direction.DIAG_DOWN:
            z = number_of(b, p.r, p.c, 1)
        if not given["edge"].get(f"{a},{z}"):
            out.edge[p] = True
    for p in b.line:
        a = number_of(b, p.r, p.c, 0)
        if p.pos.startswith("r"):
            z, whole = number_of(b, p.r, p.c, 3), f"{a},{number_of(b, p.r, p.c + 1, 0)}"
        elif p.pos.startswith("d"):
            z, whole = number_of(b, p.r, p.c, 2), f"{a},{number_of(b, p.r + 1, p.c, 0)}"
        elif p.pos.startswith("l"):
            z, whole = number_of(b, p.r, p.c - 1, 3), f"{number_of(b, p.r, p.c - 1, 0)},{a}"
        else:
            z, whole = number_of(b, p.r - 1, p.c, 2), f"{number_of(b, p.r - 1, p.c, 0)},{a}"
        if b.puzzle_name == "hashi" or not given["line"].get(f"{a},{z}") and not given["line"].get(whole):
            out.line[p] = True
    read_layer(out, given)
    return out


def given_elements(b):
    """The elements of the solution b whose place already has one of the kind in the question."""
    given = json.loads(expand(b.parts[3]))
    out = Drawing(b.puzzle_name, b.content)
    out.margin, out.row, out.col = b.margin, b.row, b.col
    for p, colour in b.surface.items():
        if given["surface"].get(f"{number_of(b, p.r, p.c, 0)}"):
            out.surface[p] = colour
    for p, x in b.text.items():
        if given["number"].get(f"{number_of(b, p.r, p.c, 0)}"):
            out.text[p] = x
    for p, name in b.symbol.items():
        # (the given circles of nondango are in the cells that the answer draws in)
        if b.puzzle_name != "nondango" and given["symbol"].get(f"{number_of(b, p.r, p.c, 0)}"):
            out.symbol[p] = name
    for p in b.edge:
        a = z = number_of(b, p.r - 1, p.c - 1, 1)
        if p.d == Direction.TOP:
            z = number_of(b, p.r - 1, p.c, 1)
        if p.d == Direction.LEFT:
            z = number_of(b, p.r, p.c - 1, 1)
        if p.d == Direction.DIAG_UP:
            a, z = number_of(b, p.r - 1, p.c, 1), number_of(b, p.r, p.c - 1, 1)
        if p.d == Direction.DIAG_DOWN:
            z = number_of(b, p.r, p.c, 1)
        if given["edge"].get(f"{a},{z}"):
            out.edge[p] = True
    for p in b.line:
        a = number_of(b, p.r, p.c, 0)
        half = whole = ""
        if p.pos.startswith("r"):
            half, whole = f"{a},{number_of(b, p.r, p.c, 3)}", f"{a},{number_of(b, p.r, p.c + 1, 0)}"
        if p.pos.startswith("d"):
            half, whole = f"{a},{number_of(b, p.r, p.c, 2)}", f"{a},{number_of(b, p.r + 1, p.c, 0)}"
        if p.pos.startswith("l"):
            half, whole = f"{a},{number_of(b, p.r, p.c - 1, 3)}", f"{number_of(b, p.r, p.c - 1, 0)},{a}"
        if p.pos.startswith("u"):
            half, whole = f"{a},{number_of(b, p.r - 1, p.c, 2)}", f"{number_of(b, p.r - 1, p.c, 0)},{a}"
        # (the bridges of hashi are drawn over the given lines)
        if b.puzzle_name != "hashi" and (given["line"].get(half) or given["line"].get(whole)):
            out.line[p] = True
    return out


# -------------------------------------------------------------------------------------------------- refinements
def refine_easyasabc(b):
    letters = b.param["letters"]
    for (r, c, d, pos), n in b.text.items():
        b.text[Point(r, c, d, pos)] = letters[n - 1]


def refine_news(b):
    for (r, c, d, pos), n in b.text.items():
        if n == 1:
            b.text[Point(r, c, d, pos)] = "N"
        if n == 2:
            b.text[Point(r, c, d, pos)] = "E"
        if n == 3:
            b.text[Point(r, c, d, pos)] = "W"
        if n == 4:
            b.text[Point(r, c, d, pos)] = "S"


def refine_battleship(b):
    # the part of the ship in a cell follows from which orthogonal neighbours are ship parts
    for (r, c, d, pos), name in b.symbol.items():
        up, down = (r - 1, c, d, pos) in b.symbol, (r + 1, c, d, pos) in b.symbol
        left, right = (r, c - 1, d, pos) in b.symbol, (r, c + 1, d, pos) in b.symbol
        fleet = name.split("__")[0]
        if not up and not down and not left and not right:
            b.symbol[Point(r, c, d, pos)] = f"{fleet}__1"
        if up and down or left and right:
            b.symbol[Point(r, c, d, pos)] = f"{fleet}__2"
        if right and not left and not up and not down:
            b.symbol[Point(r, c, d, pos)] = f"{fleet}__3"
        if down and not up and not left and not right:
            b.symbol[Point(r, c, d, pos)] = f"{fleet}__4"
        if left and not right and not up and not down:
            b.symbol[Point(r, c, d, pos)] = f"{fleet}__5"
        if up and not down and not left and not right:
            b.symbol[Point(r, c, d, pos)] = f"{fleet}__6"


REFINE = {"easyasabc": refine_easyasabc, "news": refine_news, "battleship": refine_battleship}
