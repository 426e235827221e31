#!/usr/bin/env python3
"""Entry point: check.py <property id> [quick|thorough]."""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True

import core  # noqa: E402


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("p_" + pid.lower())
    c = core.Check(pid)
    try:
        mod.check(c)
        return c.finish(getattr(mod, "ASSUMPTIONS", ()))
    except core.MachineryError as e:
        sys.stderr.write(f"{pid}: machinery failure: {e}\n")
        return 2
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
