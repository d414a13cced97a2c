#!/usr/bin/env python3
"""run.py setup | run.py check <property> | run.py replay <file>"""
import json
import os
import shutil
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import common, native, python_side, units, welltyped  # noqa: E402


def checker(prop):
    if prop == "C07":
        return native.check_c07
    if prop in ("C24", "C25"):
        return python_side.check_extension
    if prop in ("C26", "C27"):
        return python_side.check_lanes
    if prop == "C28":
        return welltyped.check_welltyped
    if prop == "C30":
        return units.check_units
    if prop in native.TUPLE_PROPS + native.RPC_PROPS:
        return native.check_native
    raise SystemExit(f"no check for {prop}")


def main():
    if sys.argv[1:] == ["setup"]:
        # Nothing is kept between runs: check that what the checks build with is there
        directory = tempfile.mkdtemp(prefix="setup-")
        try:
            native.build_harness(directory)
        finally:
            shutil.rmtree(directory, ignore_errors=True)
        return 0
    if len(sys.argv) != 3 or sys.argv[1] not in ("check", "replay"):
        print(__doc__)
        return 2
    if sys.argv[1] == "check":
        check = common.Check(sys.argv[2])
        try:
            return checker(sys.argv[2])(check)
        except common.CheckError as e:
            print(f"{sys.argv[2]}: the check could not decide: {e}")
            if check.violations:
                return check.finish()
            return 2
        except Exception:
            traceback.print_exc()
            return 2
        finally:
            shutil.rmtree(check.dir, ignore_errors=True)
    d = json.load(open(sys.argv[2]))
    os.makedirs(os.path.join(common.VERIF, "build"), exist_ok=True)
    directory = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(common.VERIF, "build"))
    try:
        module = {"C24": python_side, "C25": python_side, "C26": python_side, "C27": python_side, "C28": welltyped, "C30": units}.get(d["property"], native)
        m = module.replay(d, directory)
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    print(f"still fails: {m}" if m else "does not fail on the current tree")
    return 1 if m else 0


if __name__ == "__main__":
    sys.exit(main())
