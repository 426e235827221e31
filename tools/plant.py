#!/usr/bin/env python3
"""Authoring aid for planted bugs (not used by any check).

  plant.py new ID PROPERTY FILE <<< JSON   {"edits": [[old, new], ...], "needs":, "what":, "demo": python text}
  plant.py demo ID...     runs each demo on a clean and on a patched scratch copy
  plant.py tests ID...    runs the repository's tests on a scratch copy with ALL given patches applied
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO_SH = """#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def copy(patches):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    for p in patches:
        subprocess.run(["git", "apply", os.path.join(SEED, p, "patch.diff")], cwd=d, check=True)
    return d


def new(bid, prop, files):
    spec = json.load(sys.stdin)
    d = copy([])
    for f, old, new_ in spec["edits"]:
        path = os.path.join(d, "src/fmmax", f)
        s = open(path).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(path, "w").write(s.replace(old, new_))
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
    out = os.path.join(SEED, bid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    open(os.path.join(out, "demo.py"), "w").write(spec["demo"])
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(d)


def demo(ids):
    for b in ids:
        res = []
        for patches in ([], [b]):
            d = copy(patches)
            r = subprocess.run(["bash", os.path.join(SEED, b, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
            res.append((r.returncode, (r.stdout + r.stderr)[-300:]))
            shutil.rmtree(d)
        ok = res[0][0] == 0 and res[1][0] != 0
        print(b, "ok" if ok else "BAD", res if not ok else res[1][1][-120:].replace("\n", " | "), flush=True)


def tests(ids, sel):
    d = copy(ids)
    env = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=os.path.join(d, "src"),
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "6",
                        *(sel or ["tests"])], cwd=d, env=env, capture_output=True, text=True)
    print("\n".join(x for x in r.stdout.splitlines()[-40:] if "FAILED" in x or "passed" in x or "failed" in x or "ERROR" in x))
    shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new":
        new(a[1], a[2], None)
    elif a[0] == "demo":
        demo(a[1:] or sorted(os.listdir(SEED)))
    else:
        i = [x for x in a[1:] if not x.startswith("tests/")]
        tests(i or sorted(os.listdir(SEED)), [x for x in a[1:] if x.startswith("tests/")])
