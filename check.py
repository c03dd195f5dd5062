#!/opt/venv/bin/python
"""check.py PROPERTY: decide one property on /repo's working tree.

Exit 0: held on everything explored. Exit 1: VIOLATION printed. 2: no answer.
"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import importlib
import traceback

from harness import core


def main():
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = p.parse_args()
    module = importlib.import_module(f"harness.checks.{a.property.lower()}")
    check = core.Check(a.property, a.tier, a.seed)
    core._worker_init()
    try:
        module.run(check)
        code = check.finish()
    except core.ToolError as err:
        print(err, file=sys.stderr)
        code = 2
    except Exception as err:
        traceback.print_exc()
        where = core.raised_by_code(err)
        code = 2
        if where:
            # Not foreseen by the check, as it doesn't happen as long as the
            # property holds.
            check.violation("raised", error=f"{type(err).__name__}: {err}", where=where)
            code = check.finish()
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
