#!/usr/bin/env python3
"""setup_cmd: verifies that the tools are present and every specification parses."""

import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "harness"))
import core  # noqa: E402

os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
specs = sorted(f for f in os.listdir(core.SPEC) if f.endswith(".tla"))
with tempfile.TemporaryDirectory() as tmp:
    subprocess.run([core.PYTHON, "-c", "import fmmax"], check=True, env=core.worker_env(tmp))
    p = subprocess.run(
        ["java", f"-Djava.io.tmpdir={tmp}", "-cp", core.JARS, "tla2sany.SANY", *specs],
        cwd=core.SPEC, capture_output=True, text=True)
    if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
        print(p.stdout[-3000:], p.stderr[-1000:])
        sys.exit(1)
print(f"{len(specs)} specifications parse")
