"""Runner shared by all checks: TLC invocation, replay workers, verdicts, evidence.

A check goes through three stages.

1. `model`:  TLC explores the design specification (spec/<ID>.tla) with small
   constants and evaluates its invariants; behaviours/scenarios are exported as JSON.
2. `replay`: worker processes replay the exported scenarios in the real code
   (imported from /repo/src) and record what was observed as an ndjson trace of
   integers (fixed point).
3. `judge`:  TLC evaluates the trace specification (spec/<ID>Trace.tla) on the
   recorded trace. Each event gets a total verdict: the set of violated clauses.

The python side never decides: it only builds inputs, calls public functions and
rounds results.  Exit codes: 0 held, 1 violated, 2 machinery failure.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4


class MachineryError(Exception):
    pass


def seed() -> int:
    return int(os.environ.get("VERIF_SEED", "1"))


def tier() -> str:
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


class Tlc:
    """One TLC run; `lines` are decoded PrintT strings, by leading tag."""

    def __init__(self, module, cfg, env=None, args=(), workers=None, timeout=600, scratch=None,
                 defs=None):
        self.module = module
        own = scratch is None
        scratch = scratch or tempfile.mkdtemp(prefix="vtlc_")
        run = tempfile.mkdtemp(prefix="run_", dir=scratch)
        try:
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(SPEC, f), run)
            if defs:  # Constants that cfg syntax cannot express.
                module = "MC_" + module
                with open(os.path.join(run, module + ".tla"), "w") as f:
                    f.write(f"---- MODULE {module} ----\nEXTENDS {self.module}\n")
                    for k, v in defs.items():
                        f.write(f"def_{k} == {v}\n")
                        cfg += f"CONSTANT {k} <- def_{k}\n"
                    f.write("====\n")
            with open(os.path.join(run, "M.cfg"), "w") as f:
                f.write(cfg)
            cmd = [
                "java", "-XX:+UseParallelGC", "-Xss32m", f"-Djava.io.tmpdir={run}",
                "-Xmx%s" % os.environ.get("VERIF_TLC_MEM", "6g"),
                "-cp", JARS, "tlc2.TLC", "-nowarning",
                "-metadir", os.path.join(run, "meta"),
                "-workers", str(workers or 1),
                "-config", "M.cfg", *args, module,
            ]
            e = dict(os.environ)
            e.update({k: str(v) for k, v in (env or {}).items()})
            t0 = time.time()
            try:
                p = subprocess.run(cmd, cwd=run, env=e, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired as ex:
                raise MachineryError(f"TLC timed out on {module}") from ex
            self.wall = time.time() - t0
            self.out = "\n".join(
                x for x in (p.stdout + p.stderr).splitlines()
                if not x.startswith(("Parsing file", "Semantic processing")))
            self.rc = p.returncode
        finally:
            shutil.rmtree(run, ignore_errors=True)
            if own:
                shutil.rmtree(scratch, ignore_errors=True)
        self.lines = {}
        for line in self.out.splitlines():
            if line.startswith('"@'):
                try:
                    s = json.loads(line)
                except ValueError:
                    continue
                tag, _, rest = s[1:].partition(" ")
                self.lines.setdefault(tag, []).append(rest)
        self.states = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.out)
        if m:
            self.states = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", self.out)
        if m:
            self.states = int(m[-1].replace(",", ""))
            self.distinct = self.states

    @property
    def ok(self):
        return self.rc == 0 and "Error:" not in self.out

    def require_ok(self):
        if not self.ok:
            raise MachineryError(f"TLC failed on {self.module} (rc={self.rc}):\n" + self.out[-4000:])
        return self

    def json(self, tag):
        return [json.loads(x) for x in self.lines.get(tag, [])]


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraint=None,
        postcondition=None, view=None, extra=""):
    out = [f"SPECIFICATION {spec}", "CHECK_DEADLOCK FALSE"]
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            if isinstance(v, bool):
                v = "TRUE" if v else "FALSE"
            out.append(f"  {k} = {v}")
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for i in properties:
        out.append(f"PROPERTY {i}")
    if constraint:
        out.append(f"CONSTRAINT {constraint}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    if view:
        out.append(f"VIEW {view}")
    return "\n".join(out) + "\n" + extra


class Check:
    """Collects the outcome of one check run."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.states = 0
        self.transitions = 0
        self.events = 0
        self.scenarios = {}
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.exhaustive_model = None

    # -- model ------------------------------------------------------------------

    def model(self, module, cfg_text, **kw):
        """Model-checks a design spec; failure of an invariant of the *design* is a
        machinery error: the model does not read the code under test."""
        t = Tlc(module, cfg_text, scratch=self.scratch, **kw).require_ok()
        self.states += t.distinct
        self.transitions += t.states
        self.notes.setdefault("model_runs", []).append(
            {"module": module, "distinct": t.distinct, "generated": t.states, "wall_s": round(t.wall, 2)})
        return t

    def pick(self, fields, num=None):
        """Scenarios from PickGen: all of them, or `num` sampled by TLC simulation (duplicates removed).

        fields: list of (name, list of values); values: int, str, bool or (nested) lists."""
        def tla(v):
            if isinstance(v, bool):
                return "TRUE" if v else "FALSE"
            if isinstance(v, str):
                return f'"{v}"'
            if isinstance(v, (list, tuple)):
                return "<<" + ", ".join(map(tla, v)) + ">>"
            return str(v)
        d = "<<" + ", ".join(f'<<"{n}", {{{", ".join(map(tla, vs))}}}>>' for n, vs in fields) + ">>"
        args = [] if num is None else ["-simulate", f"num={num}", "-depth", str(len(fields) + 3), "-seed", str(seed())]
        g = self.model("PickGen", cfg(invariants=["Emit"]), defs={"Fields": d}, args=args)
        seen, out = set(), []
        for r in g.lines.get("SCN", []):
            if r not in seen:
                seen.add(r)
                out.append(json.loads(r))
        if num is not None:
            out = out[:num]
        else:
            out.sort(key=lambda r: json.dumps(r, sort_keys=True))
        for i, r in enumerate(out):
            r["sid"], r["seed"] = i, seed()
        return out

    # -- replay -----------------------------------------------------------------

    def replay(self, driver, scenarios, jobs=None, timeout=780, chunk_key=None):
        """Runs `harness/<driver>.py` workers on the scenarios; returns the trace path."""
        for i, s in enumerate(scenarios):
            s.setdefault("sid", i)
        self.scenarios.update({s["sid"]: s for s in scenarios})
        limit = int(os.environ.get("VERIF_LIMIT", "0"))  # development aid
        if limit and len(scenarios) > limit:
            scenarios = scenarios[:: max(1, len(scenarios) // limit)]
        # Tasks (lists of scenarios that share compiled shapes) are claimed by the workers one by one.
        jobs = max(1, min(jobs or NCPU, len(scenarios)))
        num = min(len(scenarios), 8 * jobs)
        tasks = [scenarios[k::num] for k in range(num)]
        if chunk_key is not None:
            groups = {}
            for s in scenarios:
                groups.setdefault(chunk_key(s), []).append(s)
            size = max(1, len(scenarios) // (3 * jobs))
            tasks = [g[i:i + size] for g in groups.values() for i in range(0, len(g), size)]
            tasks.sort(key=len, reverse=True)
        jobs = min(jobs, len(tasks))
        box = tempfile.mkdtemp(prefix="tasks_", dir=self.scratch)
        for k, t in enumerate(tasks):
            with open(os.path.join(box, f"{k:05d}.todo"), "w") as f:
                json.dump(t, f)
        procs = []
        env = worker_env(self.scratch)
        for k in range(jobs):
            out = os.path.join(box, f"trc{k}.ndjson")
            err = open(os.path.join(box, f"err{k}.txt"), "w")
            procs.append((subprocess.Popen(
                [PYTHON, os.path.join(VERIF, "harness", "worker.py"), driver, box, out],
                env=env, stdout=err, stderr=subprocess.STDOUT, cwd=self.scratch), out, err))
        deadline = time.time() + timeout
        events = []
        failed = None
        for p, out, err in procs:
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                failed = failed or "replay worker timed out"
                for q, _, _ in procs:
                    q.kill()
                rc = p.wait()
            err.close()
            if rc != 0 and failed is None:
                with open(err.name) as f:
                    failed = f"replay worker failed rc={rc}: " + f.read()[-3000:]
            if os.path.exists(out):
                with open(out) as f:
                    events += [json.loads(line) for line in f]
        if failed:
            raise MachineryError(failed)
        order = {s["sid"]: i for i, s in enumerate(scenarios)}
        events.sort(key=lambda e: order[e["sid"]])
        return events

    def single(self, driver, module, scenarios, num, constants=None, keep=None, chunk_key=None, judge=None):
        """Replays an evenly spaced sample of the scenarios in single precision, jax's default,
        and judges it with `constants` (coarser tolerances)."""
        pool = [s for s in scenarios if "finding" not in s and (keep is None or keep(s))]
        if core_only := os.environ.get("VERIF_X32"):  # development aid
            num = int(core_only)
        step = max(1, len(pool) // max(1, num))
        low = [dict(s, x32=True, sid=1000000 + int(s["sid"])) for s in pool[seed() % step::step][:num]]
        if not low:
            raise MachineryError(f"{driver}: no scenario for single precision")
        ev = self.replay(driver, low, chunk_key=chunk_key)
        return self.judge(module, ev, cfg(spec="TraceSpec", postcondition="TraceDone", constants=constants or {}), **(judge or {}))

    # -- judge ------------------------------------------------------------------

    def judge(self, module, events, cfg_text=None, parts=None, known=None, sample=2, timeout=600, env=None, defs=None):
        """Validates a recorded trace against the trace specification, in `parts`
        parallel TLC runs (split between scenarios)."""
        cfg_text = cfg_text or cfg(spec="TraceSpec", postcondition="TraceDone")
        groups = []
        for e in events:
            if groups and groups[-1][0]["sid"] == e["sid"]:
                groups[-1].append(e)
            else:
                groups.append([e])
        self.traces += len(groups)
        self.events += len(events)
        for g in groups[:: max(1, len(groups) // max(1, sample))][:sample]:
            s = json.dumps(self.scenarios.get(g[0]["sid"], {}))
            self.samples.append({"module": module, "scenario": s[:1500], "first_event": json.dumps(g[0])[:600]})
        parts = parts or (NCPU if len(groups) >= 64 else min(4, len(groups)))
        parts = max(1, min(parts, len(groups)))
        files = []
        for k in range(parts):
            path = os.path.join(self.scratch, f"judge_{module}_{k}.ndjson")
            lines = [e for g in groups[k::parts] for e in g]
            with open(path, "w") as f:
                for e in lines:
                    f.write(json.dumps(e) + "\n")
            files.append((path, lines))
        import concurrent.futures as cf

        def tlc(path, lines):
            en = {"VTRACE": path}
            en.update(env or {})
            t = Tlc(module, cfg_text, env=en, scratch=self.scratch, timeout=timeout, defs=defs)
            done = t.lines.get("DONE", [])
            good = t.ok and done and int(done[-1]) == len(lines)
            if not good and ("semantic analysis failed" in t.out or "ConfigFileException" in t.out
                             or "OutOfMemory" in t.out):
                raise MachineryError(f"{module}: " + t.out[-3000:])
            return t, good

        def one(item):
            path, lines = item
            t, good = tlc(path, lines)
            if good:
                return t, lines, None
            # The specification is total on well-formed observations. Find the scenario whose
            # observation it cannot evaluate (wrong length, missing value, out of range).
            groups = []
            for e in lines:
                if groups and groups[-1][0]["sid"] == e["sid"]:
                    groups[-1].append(e)
                else:
                    groups.append([e])
            while len(groups) > 1:
                half = groups[:len(groups) // 2]
                sub = [e for g in half for e in g]
                p2 = path + ".half"
                with open(p2, "w") as f:
                    f.writelines(json.dumps(e) + "\n" for e in sub)
                _, g2 = tlc(p2, sub)
                groups = groups[len(groups) // 2:] if g2 else half
            sub = groups[0]
            with open(path + ".half", "w") as f:
                f.writelines(json.dumps(e) + "\n" for e in sub)
            t2, g2 = tlc(path + ".half", sub)
            if g2:
                raise MachineryError(f"{module}: TLC failed but no scenario reproduces it\n" + t.out[-3000:])
            return t, lines, (sub[min(len(sub) - 1, max(0, t2.states - 1))], t2.out[-1500:])

        with cf.ThreadPoolExecutor(max_workers=parts) as ex:
            results = list(ex.map(one, files))
        for t, lines, bad in results:
            if bad is not None:
                sys.stderr.write(f"{module}: observation cannot be evaluated:\n{bad[1]}\n")
                self._fail(module, bad[0], ["malformed_observation"], known)
            self.states += t.distinct
            self.transitions += t.states
            for f in t.json("FAIL"):
                e = lines[f["line"] - 1]
                self._fail(module, e, f["clauses"], known)
        return results

    def _fail(self, module, e, clauses, known):
        scn = self.scenarios.get(e["sid"], {})
        # A scenario that exercises a listed defect names it; anything else is a violation.
        k = findings(self.pid).get(scn.get("finding")) if known is None else known(scn, e, clauses)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        self.violations.append({"module": module, "scenario": scn, "event": e, "clauses": sorted(clauses)})

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- finish -----------------------------------------------------------------

    def finish(self, assumptions=()):
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": tier(), "seed": seed(), "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_judged": self.events,
                "samples": self.samples[:6] or [{"note": "no trace"}],
                **self.notes,
            },
            "assumptions": list(assumptions), "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            path = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1)
            for v in self.violations[:8]:
                sys.stderr.write(f"{self.pid}: clauses {v['clauses']} scenario "
                                 f"{json.dumps(v['scenario'])[:400]} event {json.dumps(v['event'])[:400]}\n")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: held; states={self.states} traces={self.traces} events={self.events} wall={wall:.1f}s")
        return 0


def findings(pid):
    """Entries "known: property=<id> key=<key> <text>" of KNOWN_FINDINGS.txt, by key."""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def worker_env(scratch):
    e = dict(os.environ)
    e.update({
        "PYTHONPATH": os.path.join(REPO, "src") + ":" + os.path.join(VERIF, "harness"),
        "PYTHONDONTWRITEBYTECODE": "1", "JAX_PLATFORMS": "cpu", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
                     "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        # Compiled programs are shared by the workers of this run, and removed with it.
        "JAX_COMPILATION_CACHE_DIR": os.path.join(scratch, "xla"), "JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS": "0",
        "JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES": "-1",
    })
    e.pop("JAX_ENABLE_X64", None)
    return e
