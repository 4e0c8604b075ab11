"""Common machinery of the checks: scratch space, TLC runs, verdicts, evidence.

A check is a module harness/cNN.py with a function run(ctx).  It
 * generates scenarios (integer data, seeded by VERIF_SEED),
 * lets TLC explore the TLA+ specification on them (ctx.tlc), which emits
   either the exact expected observations or the verdict on a recorded trace,
 * runs the real code of /repo on the same scenarios, and
 * reports every disagreement with ctx.fail(...).
"""
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    """The check could not be carried out (never a verdict on the code)."""


class TlcResult:
    def __init__(self, states, distinct, outdir, text, wall):
        self.states = states
        self.distinct = distinct
        self.outdir = outdir
        self.text = text
        self.wall = wall

    def json(self, name):
        with open(os.path.join(self.outdir, name + ".json")) as fin:
            return json.load(fin)

    def has(self, name):
        return os.path.exists(os.path.join(self.outdir, name + ".json"))

    def lines(self, name):
        """Records written with EmitLine, duplicates removed."""
        path = os.path.join(self.outdir, name + ".ndjson")
        if not os.path.exists(path):
            return []
        seen = {}
        with open(path) as fin:
            for line in fin:
                line = line.strip()
                if line:
                    seen[line] = None
        # workers write in any order: sort, so that a run can be repeated
        recs = [json.loads(line) for line in sorted(seen)]
        return [json.loads(r) if isinstance(r, str) else r for r in recs]


def long_lines(folder, limit=8000):
    """Whether some record is longer than one write of the runtime."""
    for name in os.listdir(folder):
        if name.endswith(".ndjson"):
            with open(os.path.join(folder, name)) as fin:
                if any(len(line) > limit for line in fin):
                    return True
    return False


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}:{seed}")
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.failures = []
        self.known = []
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.exhaustive = None
        self.t0 = time.time()
        self._ntlc = 0
        self.known_file = load_known()

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, scenarios=None, env=None, workers=None,
            timeout=None, simulate=None, allow_violation=False):
        """Explore specification `module` with configuration `cfg`."""
        self._ntlc += 1
        work = os.path.join(self.scratch, f"tlc{self._ntlc}")
        out = os.path.join(work, "out")
        os.makedirs(out)
        environ = dict(os.environ)
        environ["OUT"] = out
        environ["TIER"] = self.tier
        environ["SEED"] = str(self.seed)
        environ["IN"] = os.path.join(work, "in.ndjson")
        with open(environ["IN"], "w") as fout:
            for item in (scenarios or []):
                fout.write(json.dumps(item, separators=(",", ":")) + "\n")
        for key, val in (env or {}).items():
            environ[key] = str(val)
        cmd = ["java", "-Djava.io.tmpdir=" + work,
               "-XX:+UseParallelGC" if self.thorough
               else "-XX:+UseSerialGC", "-Xss64m", "-Xmx4g",
               "-XX:TieredStopAtLevel=" + ("4" if self.thorough else "1"),
               "-cp", TLA_CP, "tlc2.TLC",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"),
               "-metadir", os.path.join(work, "meta"),
               "-noGenerateSpecTE", "-deadlock", "-fp", "0",
               "-workers", str(workers or min(8, os.cpu_count() or 1))]
        cmd += ["-seed", str(self.seed)]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth",
                    str(simulate[1])]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        t_ini = time.time()
        try:
            proc = subprocess.run(cmd, cwd=work, env=environ,
                                  capture_output=True, text=True,
                                  timeout=timeout or self.pick(600, 6000))
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module}") from exc
        text = proc.stdout + proc.stderr
        wall = time.time() - t_ini
        ok = proc.returncode == 0
        if not ok and not (allow_violation and proc.returncode in (12, 13)):
            raise MachineryError(
                f"TLC failed on {module} (exit {proc.returncode}):\n"
                + text[-2000:])
        mat = re.findall(r"([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct",
                         text)
        if mat:
            gen, dist = (int(v.replace(",", "")) for v in mat[-1])
        else:
            mat = re.findall(r"The number of states generated: ([\d,]+)", text)
            gen = dist = int(mat[-1].replace(",", "")) if mat else 0
        if workers != 1 and not simulate and long_lines(out):
            # a long line is written in pieces, and two workers mix theirs
            return self.tlc(module, cfg, scenarios, env, 1, timeout, simulate,
                            allow_violation)
        self.states += dist
        self.transitions += gen
        return TlcResult(gen, dist, out, text, wall)

    # -- verdicts ------------------------------------------------------------
    def count(self, name, num=1):
        self.counts[name] = self.counts.get(name, 0) + num

    def trace(self, num=1):
        self.traces += num

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def fail(self, clause, detail):
        """Record a disagreement between specification and code."""
        if len(self.failures) < 50:
            self.failures.append({"clause": clause, "detail": detail})
        else:
            self.count("further_failures")

    def known_finding(self, key, text):
        """A listed finding is reported and does not fail the check."""
        if (self.prop, key) not in self.known_file:
            self.fail(key, text)
            return
        if key not in [k for k, _ in self.known]:
            self.known.append((key, self.known_file[(self.prop, key)]))

    def subdir(self, name):
        path = os.path.join(self.scratch, name)
        os.makedirs(path, exist_ok=True)
        return path


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>'."""
    path = os.path.join(VERIF, "known_findings.txt")
    found = {}
    if os.path.exists(path):
        with open(path) as fin:
            for line in fin:
                mat = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if mat:
                    found[(mat.group(1), mat.group(2))] = mat.group(3).strip()
    return found


def load_repo():
    """Import the code under test from /repo's working tree."""
    sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use("Agg", force=True)
    import solidspy
    here = os.path.realpath(os.path.dirname(solidspy.__file__))
    if here != os.path.realpath(os.path.join(REPO, "solidspy")):
        raise MachineryError(f"solidspy was imported from {here}")


def jsonable(obj):
    try:
        import numpy as np
    except ImportError:
        np = None
    if np is not None:
        if isinstance(obj, np.ndarray):
            return jsonable(obj.tolist())
        if isinstance(obj, np.generic):
            return jsonable(obj.item())
    if isinstance(obj, complex):
        return repr(obj)
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def main(argv):
    args = [a for a in argv if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if len(args) != 1:
        print("usage: check.py Cxx [--thorough]")
        return 2
    prop = args[0]
    ctx = Ctx(prop, tier, seed)
    os.environ["MPLCONFIGDIR"] = ctx.subdir("mpl")
    sys.pycache_prefix = ctx.subdir("pyc")
    # The code under test runs in a child, so that a crash of the
    # interpreter inside it is a verdict as well.
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            code = work(ctx)
            sys.stdout.flush()
        finally:
            os._exit(code)
    try:
        status = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(status):
            if os.WTERMSIG(status) not in CRASHES:
                print(f"MACHINERY-ERROR property={prop} killed by signal "
                      f"{os.WTERMSIG(status)}")
                return 3
            ctx.fail("crash", "the interpreter crashed (signal "
                     f"{os.WTERMSIG(status)}) inside the code under test")
            return report(ctx)
        return os.WEXITSTATUS(status)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT,
           signal.SIGILL)


def work(ctx):
    prop = ctx.prop
    try:
        load_repo_guarded(ctx)
        if not ctx.failures:
            module = importlib.import_module("harness." + prop.lower())
            os.chdir(ctx.subdir("cwd"))
            module.run(ctx)
        return report(ctx)
    except Exception as exc:
        if not isinstance(exc, MachineryError):
            traceback.print_exc()
            if from_library(exc):
                ctx.fail("raised", "the code under test raised where the "
                         f"check relies on a result: {exc!r}")
        if ctx.failures:
            # the disagreements recorded so far stand, whatever stopped
            # the check afterwards (usually a result they spoiled)
            print(f"  stopped early: {exc!r}"[:300])
            return report(ctx)
        print(f"MACHINERY-ERROR property={prop} {exc}")
        return 3
    finally:
        os.chdir("/")


def from_library(exc):
    """Whether the exception was on its way through the code under test."""
    root = os.path.realpath(os.path.join(REPO, "solidspy")) + os.sep
    return any(os.path.realpath(frame.filename).startswith(root)
               for frame in traceback.extract_tb(exc.__traceback__))


def load_repo_guarded(ctx):
    try:
        load_repo()
    except MachineryError:
        raise
    except Exception as exc:     # the library cannot even be imported
        ctx.fail("import", f"solidspy cannot be imported: {exc!r}")


def report(ctx):
    folder = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(folder, exist_ok=True)
    if ctx.traces == 0 and not ctx.failures:
        raise MachineryError("nothing was compared with the implementation")
    coverage = {"states": ctx.states, "transitions": ctx.transitions,
                "traces_validated_against_impl": ctx.traces,
                "samples": jsonable(ctx.samples) or ["none"],
                "explanation": "; ".join(ctx.notes)}
    coverage.update({k: v for k, v in ctx.counts.items()})
    if ctx.exhaustive is not None:
        coverage["exhaustive"] = ctx.exhaustive
    evidence = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
                "level": "model_checking", "coverage": coverage,
                "assumptions": ctx.assumptions,
                "wall_s": round(time.time() - ctx.t0, 3),
                "violations": len(ctx.failures)}
    with open(os.path.join(folder, ctx.prop + ".json"), "w") as fout:
        json.dump(evidence, fout, indent=1)
    for key, text in ctx.known:
        print(f"KNOWN-FINDING: property={ctx.prop} {text}")
    if ctx.failures:
        path = os.path.join(folder, f"{ctx.prop}.violation.json")
        with open(path, "w") as fout:
            json.dump({"property": ctx.prop, "seed": ctx.seed,
                       "tier": ctx.tier,
                       "failures": jsonable(ctx.failures)}, fout, indent=1)
        for fail in ctx.failures[:5]:
            print("  failed clause:", fail["clause"], "--",
                  json.dumps(jsonable(fail["detail"]))[:600])
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    if os.environ.get("VERIF_DIGEST"):
        print("digest", ctx.rng.getrandbits(64))
    print(f"OK property={ctx.prop} states={ctx.states} "
          f"traces={ctx.traces} {ctx.counts} "
          f"wall={time.time() - ctx.t0:.1f}s")
    return 0
