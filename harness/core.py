"""Shared by all checks: running TLC, running the real code, reporting."""

from __future__ import annotations

import contextlib
import functools
import json
import multiprocessing
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVIDENCE = VERIF / "evidence"
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
TLA = "/opt/veriftools/tla"
JOBS = min(8, os.cpu_count() or 1)


def codes(text):
    return [ord(c) for c in text]


def text(codes):
    return "".join(map(chr, codes))


def import_code():
    """Make pyudunits2 importable from the working tree."""
    if str(REPO) not in sys.path[:1]:
        sys.path.insert(0, str(REPO))
    if not (REPO / "pyudunits2" / "_version.py").exists():
        import types

        version = types.ModuleType("pyudunits2._version")
        version.__version__ = "0"
        sys.modules["pyudunits2._version"] = version
    import pyudunits2

    assert pathlib.Path(pyudunits2.__file__).is_relative_to(REPO), pyudunits2.__file__


class ToolError(Exception):
    pass


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="verif-")
    try:
        yield pathlib.Path(path)
    finally:
        shutil.rmtree(path, ignore_errors=True)


class EvaluationError(ToolError):
    """TLC could not evaluate the specification on a case."""

    def __init__(self, message, case):
        super().__init__(message)
        self.case = case  # its number, from 1


class TlcResult:
    def __init__(self, out):
        self.out = out
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        # The states which TLC generated, one by each transition (and the initial ones).
        self.transitions = int(m.group(1)) if m else 0
        self.states = int(m.group(2)) if m else 0

    def lines(self, tag):
        """The (number, JSON value) printed as '"<tag> <number> <json>"' (or without quotes)."""
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            if line.startswith(tag + " "):
                _, number, rest = line.split(" ", 2)
                yield int(number), json.loads(rest)


def tlc(module, cfg, env=None, workers=JOBS, timeout=800, expect_ok=True):
    with scratch() as tmp:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-Dfile.encoding=UTF-8",
               "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", str(tmp / "meta"),
               "-config", cfg, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, encoding="utf-8")
        except subprocess.TimeoutExpired as err:
            raise ToolError(f"TLC exceeded {timeout} s on {module}") from err
    if expect_ok and (p.returncode != 0 or "Model checking completed. No error" not in p.stdout):
        m = re.search(r"^(?:/\\ )?l = (\d+)$", p.stdout[p.stdout.find("Error:"):], re.M)
        if m and "java.lang.OutOfMemoryError" not in p.stdout:
            raise EvaluationError(f"TLC failed on {module} ({p.returncode}):\n" + p.stdout[-6000:], int(m.group(1)))
        raise ToolError(f"TLC failed on {module} ({p.returncode}):\n" + p.stdout[-6000:])
    r = TlcResult(p.stdout)
    r.rc = p.returncode
    return r


class Judged:
    def __init__(self):
        self.bad = {}
        self.plans = {}
        self.emitted = {}
        self.states = self.transitions = 0
        self.culprits = []  # cases which the specification cannot even be evaluated on


def without_culprits(judge):
    """The specification can be evaluated on everything that the unchanged code
    does. Leave out the few cases of which something else was recorded."""

    @functools.wraps(judge)
    def wrapper(module, cases, *args, **kwargs):
        culprits = []
        index = list(range(len(cases)))
        while True:
            try:
                out = judge(module, [cases[i] for i in index], *args, **kwargs)
                break
            except EvaluationError as err:
                culprits.append(index.pop(err.case - 1))
                message = str(err)
                if len(culprits) >= 4:
                    out = Judged()
                    break
        if culprits:
            if len(culprits) < 4:
                scale = 1000 if judge.__name__ == "judge_traces" else 1

                def back(d):
                    return {index[k // scale] * scale + k % scale: v for k, v in d.items()}

                out.bad, out.plans = back(out.bad), back(out.plans)
                out.emitted = {tag: back(d) for tag, d in out.emitted.items()}
            out.culprits = [(cases[i], message[-1500:]) for i in culprits]
        return out

    return wrapper


@without_culprits
def judge(module, cases, systems=None, emit=()):
    """Have TLC judge the recorded cases. Returns verdicts by index."""
    out = Judged()
    if not cases:
        return out
    with scratch() as tmp:
        env = {"CASES": str(tmp / "cases.ndjson")}
        with open(env["CASES"], "w") as f:
            for c in cases:
                f.write(json.dumps({k: v for k, v in c.items() if not k.startswith("_")}) + "\n")
        if systems is not None:
            env["SYSTEMS"] = write_systems(tmp, systems)
        t0 = time.time()
        r = tlc(module, "Judge.cfg", env)
        if os.environ.get("VERIF_VERBOSE"):
            print(f"TLC: {module}, {len(cases)} cases, {time.time() - t0:.1f} s")
    out.states, out.transitions = r.states, r.transitions
    judged_states = r.states - min(64, len(cases))
    if judged_states != len(cases):
        raise ToolError(f"{module}: {judged_states} of {len(cases)} cases were judged")
    out.bad = {i - 1: v for i, v in r.lines("BAD")}
    out.plans = {i - 1: v for i, v in r.lines("PLAN")}
    for tag in emit:
        out.emitted[tag] = {i - 1: v for i, v in r.lines(tag)}
    return out


def write_systems(tmp, systems):
    path = str(tmp / "systems.ndjson")
    with open(path, "w") as f:
        for regs in systems:
            line = {"doc": encode_doc(regs)} if isinstance(regs, Document) else {"r": [encode(r) for r in regs]}
            f.write(json.dumps(line) + "\n")
    return path


@without_culprits
def judge_traces(module, cases, systems=()):
    """Have TLC check the recorded traces (sequences ev of events)."""
    out = Judged()
    if not cases:
        return out
    with scratch() as tmp:
        env = {"CASES": str(tmp / "cases.ndjson")}
        with open(env["CASES"], "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        env["SYSTEMS"] = write_systems(tmp, systems or [[]])
        r = tlc(module, "Judge.cfg", env)
    out.states, out.transitions = r.states, r.transitions
    want = sum(1 + len(c["ev"]) for c in cases) + min(64, len(cases))
    if r.transitions != want:
        raise ToolError(f"{module}: {r.transitions} of {want} steps were taken")
    # keys: case * 1000 + event, both from zero
    out.bad = {i - 1000: v for i, v in r.lines("BAD")}
    out.plans = {i - 1000: v for i, v in r.lines("PLAN")}
    return out


def encode(r):
    """A registration with texts as sequences of code points."""
    if r["e"] == "prefix":
        return dict(e="prefix", n=codes(r["n"]), v=codes(r["v"]), s=[codes(x) for x in r["s"]])
    return dict(
        e="unit", k=r["k"], time=r["time"], d=codes(r["d"]), n=[codes(x) for x in r["n"]],
        s=[codes(x) for x in r["s"]], an=[[codes(x) for x in n] for n in r["an"]],
        **{"as": [codes(x) for x in r["as"]]}, rep=r.get("rep", False))


class Document(tuple):
    """A unit document, as a sequence of elements (as in Document.tla)."""


def encode_doc(doc):
    def name(x):
        return dict(sg=[codes(t) for t in x["sg"]], pl=[codes(t) for t in x["pl"]], np=x["np"])

    out = []
    for x in doc:
        if x["e"] == "prefix":
            out.append(dict(e="prefix", extra=x["extra"], **{k: [codes(t) for t in x[k]] for k in ("n", "v", "s")}))
        elif x["e"] == "unit":
            out.append(dict(e="unit", n=[name(n) for n in x["n"]], an=[name(n) for n in x["an"]], s=[codes(t) for t in x["s"]],
                            k=x["k"], d=codes(x["d"]), extra=x["extra"], **{"as": [codes(t) for t in x["as"]]}))
        else:
            out.append(dict(e="other"))
    return out


# ---- running the real code ----


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


@contextlib.contextmanager
def limit(seconds):
    """So much time of the processor, or (if it waits for something) much more
    time by the clock: other processes may slow this one down."""
    timers = [(signal.SIGPROF, signal.ITIMER_PROF, seconds), (signal.SIGALRM, signal.ITIMER_REAL, 12 * seconds)]
    old = [signal.signal(sig, _alarm) for sig, _, _ in timers]
    for _, timer, t in timers:
        signal.setitimer(timer, t)
    try:
        yield
    finally:
        for (sig, timer, _), handler in zip(timers, old):
            signal.setitimer(timer, 0)
            signal.signal(sig, handler)


_hangs = 0  # so many calls took too long that others get less time


def guarded(fn, *args, seconds=30):
    """fn(*args), or the exception it raised (a Hang, if it took too long)."""
    global _hangs
    try:
        with limit(seconds if _hangs < 2 else 1.5):
            return fn(*args)
    except (Exception, Hang, SystemExit) as err:
        _hangs += isinstance(err, Hang)
        return Raised(err)


class Raised:
    def __init__(self, err):
        self.name = type(err).__name__
        self.message = str(err)[:300]

    def __repr__(self):
        return f"{self.name}({self.message})"


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(5000)
    import_code()
    import warnings

    warnings.simplefilter("ignore")


def parallel(fn, items, chunk=None):
    items = list(items)
    if not items:
        return []
    if chunk is None:
        chunk = max(1, min(64, len(items) // (JOBS * 8)))
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    with ctx.Pool(JOBS, _worker_init) as pool:
        out = pool.map(fn, items, chunk)
    if os.environ.get("VERIF_VERBOSE"):
        print(f"{fn.__name__}: {len(items)} items, {time.time() - t0:.1f} s")
    return out


def raised_by_code(err):
    """Where in the code under test err was raised, if it was."""
    text = "".join(traceback.format_exception(err))
    cause = err.__cause__
    if type(cause).__name__ == "RemoteTraceback":
        text = cause.tb
    frames = [line.strip() for line in text.splitlines() if line.startswith('  File "')]
    ours = [f for f in frames if str(VERIF) + "/" in f or str(REPO) + "/" in f]
    return ours[-1] if ours and str(REPO) + "/" in ours[-1] else None


# ---- reporting ----


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.verbose = bool(os.environ.get("VERIF_VERBOSE"))
        path = VERIF / "known_findings.json"
        entries = json.loads(path.read_text()) if path.exists() else []
        self.findings = [e for e in entries if e.get("property") == prop and e["status"] == "known"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def saw(self, result):
        for case, message in getattr(result, "culprits", ()):
            self.violation("not-a-value-of-the-specification", case=case, message=message)
        self.cov["states"] += result.states
        self.cov["transitions"] += result.transitions

    def validated(self, n, label=None):
        self.cov["traces_validated_against_impl"] += n
        if label:
            self.cov[label] = self.cov.get(label, 0) + n

    def model_check(self, module, cfg=None, env=None):
        """Check the specification itself; it must hold."""
        r = tlc(module, (cfg or module) + ".cfg", env)
        self.saw(r)
        self.cov.setdefault("model_checked", []).append(
            dict(config=cfg or module, states=r.states, transitions=r.transitions))
        return r

    def sample(self, items, n=6):
        step = max(1, len(items) // n)
        self.cov["samples"] += list(items)[::step][:n]

    def violation(self, what, **data):
        """Report a violation, unless it is a known finding."""
        for f in self.findings:
            if what == f["what"] and all(data.get(k) == v for k, v in f["match"].items()):
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append(dict(property=self.prop, what=what, **data))

    def finish(self):
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {f['summary']}")
        replay = EVIDENCE / "replay"
        replay.mkdir(parents=True, exist_ok=True)
        for old in replay.glob(f"{self.prop}-*.json"):
            old.unlink()
        path = replay / f"{self.prop}-{self.tier}.json"
        if self.violations:
            path.write_text(json.dumps(self.violations[:200], indent=1, default=str))
            for v in self.violations[:10]:
                print(json.dumps(v, ensure_ascii=False, default=str)[:1500])
            print(f"{len(self.violations)} violations")
            print(f"VIOLATION property={self.prop} replay={path}")
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        evidence = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                        coverage=self.cov, assumptions=self.assumptions,
                        wall_s=round(time.time() - self.start, 1), violations=len(self.violations))
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
        c = self.cov
        print(f"{self.prop} {self.tier}: {c['states']} states, "
              f"{c['traces_validated_against_impl']} traces validated, "
              f"{len(self.violations)} violations, {evidence['wall_s']} s")
        return 1 if self.violations else 0
