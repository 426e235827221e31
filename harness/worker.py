"""Replay worker: runs one driver on a list of scenarios, writes an ndjson trace."""

import importlib
import json
import os
import sys
import time
import traceback

import jax

jax.config.update("jax_enable_x64", True)


def claim(box):
    """Yields tasks of the box until none is left; renaming a file claims it."""
    for name in sorted(os.listdir(box)):
        if name.endswith(".todo"):
            try:
                os.rename(os.path.join(box, name), os.path.join(box, name + f".{os.getpid()}"))
            except FileNotFoundError:
                continue
            with open(os.path.join(box, name + f".{os.getpid()}")) as f:
                yield json.load(f)


def main():
    driver, box, out = sys.argv[1:4]
    mod = importlib.import_module(driver)
    with open(out, "w") as f:
        for s in (s for task in claim(box) for s in task):
            t0 = time.time()
            jax.config.update("jax_enable_x64", not s.get("x32", False))
            try:
                events = list(mod.run(s))
            except Exception as e:  # Raised by the code under test on a valid input.
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{t.filename.split('/')[-1]}:{t.name}" for t in tb][-3:]
                events = [{"ev": "raised", "type": type(e).__name__, "msg": str(e)[:200], "where": where}]
            for e in events:
                e["sid"] = s["sid"]
                f.write(json.dumps(e) + "\n")
            if os.environ.get("VERIF_TIMES"):  # development aid
                with open(os.environ["VERIF_TIMES"], "a") as g:
                    g.write(json.dumps([round(time.time() - t0, 2), os.getpid(), s]) + "\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
