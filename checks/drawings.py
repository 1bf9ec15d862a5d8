"""Concrete boards for the codec checks: elements are drawn at places, the editor text is made from them, and what reading
or writing must give is stated on the elements (independently of the code and of the symbolic contracts)."""
import json
import random
import zlib
from base64 import b64decode, b64encode

from noqx.puzzle import Color, Direction, Point

PREFIX = "m=edit&p="
ABBR = [('"qa"', "z9"), ('"pu_q"', "zQ"), ('"pu_a"', "zA"), ('"grid"', "zG"), ('"edit_mode"', "zM"), ('"surface"', "zS"), ('"line"', "zL"),
        ('"edge"', "zE"), ('"wall"', "zW"), ('"cage"', "zC"), ('"number"', "zN"), ('"sudoku"', "z1"), ('"symbol"', "zY"), ('"special"', "zP"),
        ('"board"', "zB"), ('"command_redo"', "zR"), ('"command_undo"', "zU"), ('"command_replay"', "z8"), ('"freeline"', "zF"),
        ('"freeedge"', "z2"), ('"thermo"', "zT"), ('"arrows"', "z3"), ('"d"', "zD"), ('"squareframe"', "z0"), ('"polygon"', "z5"),
        ('"deleteedge"', "z4"), ('"killercages"', "z6"), ('"nobulbthermo"', "z7"), ('"__a"', "z_"), ("null", "zO")]
C = Direction.CENTER
KINDS = {0: C, 1: Direction.TOP_LEFT, 2: Direction.TOP, 3: Direction.LEFT}
SIDES = {"r": (0, 1), "l": (0, -1), "d": (1, 0), "u": (-1, 0)}


def short(text):
    for a, b in ABBR:
        text = text.replace(a, b)
    return text


def long(text):
    for a, b in ABBR:
        text = text.replace(b, a)
    return text


class Board:
    """A concrete board being drawn."""

    def __init__(self, rng, name="test", answer=True, big=False):
        self.rng, self.name = rng, name
        hi = 9 if big else 5
        self.row, self.col = rng.randint(1, hi), rng.randint(1, hi)
        self.margin = tuple(rng.choice((0, 0, 1, 2, 3)) for _ in range(4))
        self.kind = rng.choice(("square", "square", "sudoku", "kakuro"))
        self.layers = {3: self.blank(), 4: self.blank()}
        self.drawn = {3: {m: {} for m in ("surface", "text", "symbol", "edge", "line")}, 4: {m: {} for m in ("surface", "text", "symbol", "edge", "line")}}
        self.places = {3: {"surface": set(), "number": set(), "symbol": set(), "edge": set(), "line": set()}}
        self.places[4] = {k: set() for k in self.places[3]}
        n = rng.randint(0, 8)
        for layer in (3, 4):
            if layer == 4 and not answer:
                continue
            for _ in range(rng.randint(0, n)):
                self.add(layer)
            # the editor keeps an object in the order of drawing
            for s in self.layers[layer].values():
                if isinstance(s, dict):
                    items = list(s.items())
                    rng.shuffle(items)
                    s.clear()
                    s.update(items)
        size = 38
        self.parts = [f"{self.kind},{self.width()},{self.height()},{size},0,1,1,{size * self.width()},{size * self.height()},26,27",
                      json.dumps(list(self.margin), separators=(",", ":")), '["1","2","1","~zQ"]' if rng.random() < 0.5 else "[0,0,0,0]",
                      self.dump(3), self.dump(4), '"x"', "[1,1,[2]]", *[rng.choice(("", "z9z8", "[3]", '"sol":"edge"', "null")) for _ in range(rng.randint(0, 6))]]

    def blank(self):
        z = {"__a": []}
        return {"command_redo": dict(z), "command_undo": dict(z), "command_replay": dict(z), "surface": {}, "number": {}, "numberS": {}, "sudoku": {},
                "symbol": {}, "freeline": {}, "freelineE": {}, "thermo": [], "nobulbthermo": [], "arrows": [], "direction": [], "squareframe": [],
                "polygon": [], "line": {}, "lineE": {}, "wall": {}, "cage": {}, "deleteedge": {}, "killercages": [], "edge": {}, "z": None}

    def dump(self, layer):
        return short(json.dumps(self.layers[layer], separators=(",", ":")))

    def height(self):
        return self.row + self.margin[0] + self.margin[1]

    def width(self):
        return self.col + self.margin[2] + self.margin[3]

    def key(self, r, c, cat=0):
        return cat * (self.height() + 4) * (self.width() + 4) + (r + 2 + self.margin[0]) * (self.width() + 4) + c + 2 + self.margin[2]

    def content(self):
        return PREFIX + b64encode(zlib.compress("\n".join(self.parts).encode())[2:-4]).decode()

    def spot(self):
        t, b, l, r = self.margin
        return self.rng.randint(-t, self.row + b - 1), self.rng.randint(-l, self.col + r - 1)

    def add(self, layer):
        rng, doc, out, at = self.rng, self.layers[layer], self.drawn[layer], self.places[layer]
        kind = rng.choice(("surface", "number", "tapa", "candidates", "sudoku", "symbol", "symbols", "edge", "edge", "edgex", "line", "half", "linex"))
        r, c = self.spot()
        cat = rng.randint(0, 3)
        point = {0: (r, c), 1: (r + 1, c + 1), 2: (r + 1, c), 3: (r, c + 1)}[cat]
        k = str(self.key(r, c, cat))
        text = rng.choice(("0", "3", "12", "?", "", "A", "1,2", "3_0", "²", "-1", "١", "x y", "007", "a&b"))
        if kind == "surface":
            code = rng.randint(1, 12)
            doc["surface"][str(self.key(r, c))] = code
            at["surface"].add((r, c))
            out["surface"].pop(Point(r, c), None)
            if code in (1, 3, 8):
                out["surface"][Point(r, c)] = Color.GRAY
            elif code == 4:
                out["surface"][Point(r, c)] = Color.BLACK
            elif code == 2:
                out["surface"][Point(r, c)] = Color.GREEN
        elif kind in ("number", "tapa", "candidates"):
            if k in doc["number"]:
                return
            sub = {"number": rng.choice(("1", "2", "3", "5", "6", "8", "9", "10")), "tapa": "4", "candidates": "7"}[kind]
            doc["number"][k] = [text, rng.randint(1, 9), sub]
            if cat == 0:
                at["number"].add((r, c))
            if kind == "number":
                out["text"][Point(*point, KINDS[cat], "normal")] = int(text) if text.isdecimal() else text
            elif kind == "tapa":
                for i, ch in enumerate(text):
                    out["text"][Point(*point, KINDS[cat], f"tapa_{i}")] = int(ch) if ch.isdecimal() else ch
        elif kind == "sudoku":
            corner, where = rng.randint(1, 2), rng.randint(0, 3)
            doc["sudoku"][str(self.key(r, c, corner) * 4 + where)] = [text, 1, "5"]
            out["text"][Point(r, c, C, f"sudoku_{(corner - 1) * 4 + where}")] = int(text) if text.isdecimal() else text
        elif kind in ("symbol", "symbols"):
            if k in doc["symbol"]:
                return
            shape = rng.choice(("circle_M", "star", "arrow_cross", "ox_E", "tri", "firefly"))
            if kind == "symbols":
                flags = [rng.randint(0, 1) for _ in range(rng.randint(1, 8))]
                doc["symbol"][k] = [flags, shape, rng.randint(1, 2)]
                out["symbol"][Point(*point, KINDS[cat], "multiple")] = f"{shape}__{sum(b << i for i, b in enumerate(reversed(flags)))}"
            else:
                style = rng.randint(0, 9)
                doc["symbol"][k] = [style, shape, rng.randint(1, 2)]
                mark = self.name == "nondango" and (shape, style) == ("circle_M", 4)
                out["symbol"][Point(*point, KINDS[cat], "nondango_mark" if mark else "normal")] = f"{shape}__{style}"
            if cat == 0:
                at["symbol"].add((r, c))
        elif kind in ("edge", "edgex"):
            d = rng.choice((Direction.TOP, Direction.LEFT)) if kind == "edgex" else rng.choice((Direction.TOP, Direction.LEFT, Direction.DIAG_UP, Direction.DIAG_DOWN))
            if Point(r, c, d) in out["edge"]:
                return
            if kind == "edgex":
                i = self.key(r - 1, c, 2) if d == Direction.TOP else self.key(r, c - 1, 3)
                doc["edge"][str(i)] = 98
                out["edge"][Point(r, c, d)] = False
            else:
                doc["edge"][self.edge_key(r, c, d)] = rng.choice((1, 2, 3, 8, 13, 80))
                at["edge"].add((r, c, d))
                out["edge"][Point(r, c, d)] = True
        else:
            d = rng.choice("rd")
            r2, c2 = r + SIDES[d][0], c + SIDES[d][1]
            back = {"r": "l", "d": "u"}[d]
            if any(p.r == a and p.c == b and p.pos[0] == s for p in out["line"] for a, b, s in ((r, c, d), (r2, c2, back))):
                return
            mid = self.key(r, c, 3 if d == "r" else 2)
            if kind == "linex":
                doc["line"][str(mid)] = 98
                out["line"][Point(r, c, C, d)] = False
                out["line"][Point(r2, c2, C, back)] = False
                return
            code = rng.choice((1, 2, 3, 5, 30, 30))
            n = ("_2" if code == 30 else "_1") if self.name == "hashi" else ""
            if kind == "line":
                doc["line"][f"{self.key(r, c)},{self.key(r2, c2)}"] = code
                out["line"][Point(r, c, C, d + n)] = True
                out["line"][Point(r2, c2, C, back + n)] = True
                at["line"] |= {(r, c, d), (r2, c2, back)}
            elif rng.random() < 0.5:
                doc["line"][f"{self.key(r, c)},{mid}"] = code
                out["line"][Point(r, c, C, d + n)] = True
                at["line"].add((r, c, d))
            else:
                doc["line"][f"{self.key(r2, c2)},{mid}"] = code
                out["line"][Point(r2, c2, C, back + n)] = True
                at["line"].add((r2, c2, back))

    def edge_key(self, r, c, d):
        a = {Direction.DIAG_UP: (r - 1, c)}.get(d, (r - 1, c - 1))
        z = {Direction.TOP: (r - 1, c), Direction.LEFT: (r, c - 1), Direction.DIAG_UP: (r, c - 1), Direction.DIAG_DOWN: (r, c)}[d]
        return f"{self.key(*a, 1)},{self.key(*z, 1)}"

    def line_key(self, r, c, d):
        return f"{self.key(r, c)},{self.key(r, c, 3) if d == 'r' else self.key(r, c, 2) if d == 'd' else self.key(r, c - 1, 3) if d == 'l' else self.key(r - 1, c, 2)}"

    def elements(self):
        """What reading must give: the answer layer, overdrawn by the question."""
        return {m: {**self.drawn[4][m], **self.drawn[3][m]} for m in self.drawn[3]}


def solution(b, rng):
    """Random solution elements over board b: {map: {Point: value}}."""
    out = {m: {} for m in ("surface", "text", "symbol", "edge", "line")}
    spots = [(r, c) for r in range(b.row) for c in range(b.col)]
    # prefer places where something is drawn
    near = [tuple(p[:2]) for s in b.places[3].values() for p in s]
    for _ in range(rng.randint(0, 8)):
        r, c = rng.choice(near) if near and rng.random() < 0.5 else rng.choice(spots)
        m = rng.choice(list(out))
        if m == "surface":
            out[m][Point(r, c)] = rng.choice((Color.GRAY, Color.BLACK))
        elif m == "text":
            out[m][Point(r, c, C, "normal")] = rng.choice((0, 1, 7, 12, "A", "N"))
        elif m == "symbol":
            out[m][Point(r, c, C)] = rng.choice(("circle_M__1", "star__2", "tri__4", "ox_E__1", "battleship_B__3", "circle_M__4"))
        elif m == "edge":
            d = rng.choice((Direction.TOP, Direction.LEFT, Direction.DIAG_UP, Direction.DIAG_DOWN))
            out[m][Point(r, c, d)] = True
        else:
            d = rng.choice("udlr")
            if not any((p.r, p.c, p.pos[0]) == (r, c, d) for p in out[m]):
                out[m][Point(r, c, C, d + (rng.choice(("_1", "_2")) if b.name == "hashi" else ""))] = True
    return out


def entries(b, sol):
    """(section, key, value, given?) of every solution element."""
    at = b.places[3]
    for p, v in sol["surface"].items():
        yield "surface", str(b.key(p.r, p.c)), {Color.GRAY: 8, Color.BLACK: 4}[v], (p.r, p.c) in at["surface"]
    for p, v in sol["text"].items():
        yield "number", str(b.key(p.r, p.c)), [str(v), 2, "1"], (p.r, p.c) in at["number"]
    for p, v in sol["symbol"].items():
        shape, style = v.split("__")
        yield "symbol", str(b.key(p.r, p.c)), [int(style), shape, 1], (p.r, p.c) in at["symbol"] and b.name != "nondango"
    for p in sol["edge"]:
        yield "edge", b.edge_key(p.r, p.c, p.d), 3, (p.r, p.c, p.d) in at["edge"]
    for p in sol["line"]:
        yield "line", b.line_key(p.r, p.c, p.pos[0]), 30 if p.pos.endswith("_2") else 3, (p.r, p.c, p.pos[0]) in at["line"] and b.name != "hashi"


def place(p, sol):
    return p


def unpack(content):
    return zlib.decompress(b64decode(content[len(PREFIX):]), -15).decode().split("\n")


def elements_of(puzzle):
    return {m: dict(getattr(puzzle, m)) for m in ("surface", "text", "symbol", "edge", "line")}


def show(x):
    return {m: sorted((f"{tuple(k) if not isinstance(k, str) else k}", str(v)) for k, v in d.items()) for m, d in x.items() if d}


def board_diff(got, want):
    out = []
    for m in want:
        for k in sorted(set(got[m]) | set(want[m]), key=str):
            if k not in want[m]:
                out.append(f"{m}: {tuple(k)} = {got[m][k]!r} was not drawn")
            elif k not in got[m]:
                out.append(f"{m}: {tuple(k)} = {want[m][k]!r} is missing")
            elif got[m][k] != want[m][k] or type(got[m][k]) is not type(want[m][k]):
                out.append(f"{m}: {tuple(k)} is {got[m][k]!r}, not {want[m][k]!r}")
    return out
