#!/usr/bin/env python3
"""run.py PROPERTY: decide one property (exit 0 held, 1 violated, 2 the check could not run)."""
import sys
import traceback

import vlib

GROUPS = {
    "life": ["C02", "C03", "C04", "C05", "C06", "C11", "C13", "C14"],
    "reloc": ["C07", "C08", "C09", "C10"],
    "sig": ["C01", "C15", "C16", "C17", "C19"],
    "probe": ["C12", "C20"],
    "handle": ["C18"],
}


def main():
    prop = sys.argv[1]
    mod = next((m for m, ps in GROUPS.items() if prop in ps), None)
    if mod is None:
        print(f"no check for {prop}", file=sys.stderr)
        return 2
    try:
        return __import__(mod).run(prop)
    except vlib.ToolError as e:
        print(f"CHECK-ERROR {prop}: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    # what was found before the check broke down still counts
    check = vlib.Check.current
    return check.finish() if check and check.violations else 2


if __name__ == "__main__":
    sys.exit(main())
