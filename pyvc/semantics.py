"""Do two program fragments mean the same?  Random interpretations of what they use, all answers compared."""
import random
import re

from . import asp

PRED = re.compile(r'(?<![A-Za-z0-9_"])([a-z_][A-Za-z0-9_]*)\s*\(')
SKIP = {"not"}


def signatures(text):
    """(heads, all) predicate signatures of a fragment without choice/aggregate subtleties: name/arity."""
    out = {}
    t = re.sub(r"#show[^.]*\.", "", text)
    t = re.sub(r"#defined[^.]*\.", "", t)
    for m in PRED.finditer(t):
        name = m.group(1)
        if name in SKIP:
            continue
        i, depth, args, nonempty = m.end(), 1, 1, False
        instr = False
        while i < len(t) and depth:
            ch = t[i]
            if ch == '"':
                instr = not instr
            elif not instr:
                if ch == "(":
                    depth += 1
                elif ch == ")":
                    depth -= 1
                elif ch in ",;" and depth == 1:
                    args += ch == ","
            if depth and not ch.isspace():
                nonempty = True
            i += 1
        out[(name, args if nonempty else 0)] = True
    return set(out)


def strings(text):
    return sorted(set(re.findall(r'"([^"\n]*)"', text))) or ["x"]


FIRST_INT = re.compile(r"-?\d+")


def interpretation(sigs, strs, rnd, ints):
    """Random facts: grid is a full board, adjacency is real or random, the rest random."""
    rows, cols = rnd.randint(1, 3), rnd.randint(1, 3)
    facts = [f"grid(0..{rows - 1}, 0..{cols - 1})."]
    inside = [(r, c) for r in range(rows) for c in range(cols)]
    for name, k in sorted(sigs):
        if name == "grid":
            continue
        dens = rnd.choice([0.15, 0.4, 0.7])
        if name.startswith("adj_") and k == 4 and rnd.random() < 0.7:
            for r, c in inside:
                for r1, c1 in inside:
                    if abs(r - r1) + abs(c - c1) == 1 or ("8" in name or "x" in name) and abs(r - r1) == abs(c - c1) == 1:
                        facts.append(f"{name}({r},{c},{r1},{c1}).")
            continue
        if k == 0:
            if rnd.random() < 0.5:
                facts.append(f"{name}.")
            continue
        n = max(1, round(dens * rows * cols * (1 if k <= 2 else 2)))
        for _ in range(n):
            r, c = rnd.choice(inside)
            if rnd.random() < 0.15:
                r, c = r + rnd.choice([-1, 0, 1]), c + rnd.choice([-1, 0, 1])
            if k == 1:
                args = [rnd.choice(ints)]
            elif k == 2:
                args = [r, c]
            elif k == 3 and name in ("area",):
                args = [rnd.choice([0, 1] + ints[:1]), r, c]
            elif k == 3:
                args = [r, c, rnd.choice([f'"{rnd.choice(strs)}"', rnd.choice(ints)])]
            elif k == 4:
                r1, c1 = rnd.choice(inside)
                args = [r, c, r1, c1] if rnd.random() < 0.7 else [r, c, rnd.choice(ints), f'"{rnd.choice(strs)}"']
            else:
                args = [r, c] + [rnd.choice(ints) for _ in range(k - 2)]
            facts.append(f"{name}({','.join(map(str, args))}).")
    return "\n".join(sorted(set(facts)))


def answers(text, facts, n=60):
    from clingo.control import Control

    err, out = [], set()
    try:
        ctl = Control([str(n)], logger=lambda c, m: err.append(m))
        ctl.add("base", [], text + "\n" + facts)
        ctl.ground([("base", [])])
        with ctl.solve(on_model=lambda m: out.add(frozenset(str(s) for s in m.symbols(atoms=True))), async_=True) as h:
            if not h.wait(5):
                h.cancel()
                return None
    except RuntimeError as e:
        return f"error: {(err or [str(e)])[0].splitlines()[0]}"
    return out if len(out) < n else None


def differ(a, b, tries=150, seed=1):
    """(facts, answers of a not of b, answers of b not of a) or None."""
    rnd = random.Random(seed)
    sa, sb = signatures(a), signatures(b)
    ints = sorted({int(x) for x in FIRST_INT.findall(a + " " + b)} | {0, 1, 2})[:12]
    strs = sorted(set(strings(a) + strings(b)))
    for i in range(tries):
        facts = interpretation(sa | sb, strs, rnd, ints)
        # what the fragments define is derived as well, but may also be given
        x, y = answers(a, facts), answers(b, facts)
        if x is None or y is None:
            continue
        if x != y:
            if isinstance(x, str) or isinstance(y, str):
                if isinstance(x, str) and isinstance(y, str):
                    continue
                return facts, [x] if isinstance(x, str) else [], [y] if isinstance(y, str) else []
            return facts, [sorted(s) for s in sorted(x - y, key=sorted)][:1], [sorted(s) for s in sorted(y - x, key=sorted)][:1]
    return None
