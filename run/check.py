"""python3 run/check.py PROPERTY: runs the check of a property.

Exit code 0: the property held. 1: it is broken, with VIOLATION lines in
stdout. 2: the check could not give an answer.
"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import lib  # noqa: E402

FAMILIES = {
    "reader": ["P01", "P02", "P03"],
    "layout": ["P04", "P05"],
    "render": ["S01", "S02", "S03", "S04"],
    "mo": ["M01", "M02", "M03", "M04"],
    "catalog": ["C01", "C02", "C03", "C04", "C05", "C06"],
    "binding": ["B01", "B02"],
}


def main():
    prop = sys.argv[1]
    for family, props in FAMILIES.items():
        if prop in props:
            module = importlib.import_module(family)
            break
    else:
        print(f"no check for {prop}", file=sys.stderr)
        return 2
    try:
        c = lib.Check(prop)
        getattr(module, prop)(c)
        return c.finish()
    except lib.ToolError as e:
        print(f"ERROR {prop}: {e}", file=sys.stderr)
        # violations already found are an answer
        if "c" in locals() and c.violations:
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
