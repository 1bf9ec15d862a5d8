"""check <property>: decide one property on /repo's current tree."""
import importlib
import sys
import traceback

from .common import Report, finish

PLAN = {
    **{f"C0{k}": ("codec", f"C0{k}") for k in range(1, 7)},
    "C07": ("roles", "C07"), "C15": ("roles", "C15"), "C16": ("roles", "C16"),
    "C08": ("history", None), "C09": ("rooms", None), "C10": ("shapes", None),
    "C22": ("request", None), "C23": ("registry", None),
    "C11": ("library", "C11"), "C12": ("library", "C12"), "C13": ("library", "C13"), "C14": ("library", "C14"),
    "C17": ("puzzles", "shade"), "C18": ("puzzles", "loop"), "C19": ("puzzles", "num"), "C20": ("puzzles", "region"), "C21": ("puzzles", "var"),
}


def main():
    prop = sys.argv[1]
    mod, arg = PLAN[prop]
    r = Report(prop)
    try:
        level = importlib.import_module(f"checks.{mod}").run(r, arg) or "proof"
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(finish(r, level))


if __name__ == "__main__":
    main()
