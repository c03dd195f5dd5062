"""Makes /verif/seeded/<id>/ from the planted changes in seeds.py, and
confirms each one: it applies, passes the stable tests, changes original
lines, and its demonstration fails with it and passes without it.

seed.py make [ID...]     (re)make and confirm
seed.py run [ID...]      run the checks of the properties against them
seed.py run --check C05 ID   run another check against one
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent.parent
SEEDED = V / "seeded"
sys.path.insert(0, str(V / "tools"))
ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True, capture_output=True).stdout.split()[0]
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(next(BASE[k] for k in ("stable", "passed", "tests", "pass") if k in BASE))

DEMO_SH = """#!/bin/sh
# Run in the repository, after a build.
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""
DEMO_HEAD = """import os
import sys

sys.path.insert(0, os.getcwd())
"""


def sh(*cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout


def copy():
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    shutil.copytree("/repo", d / "repo", symlinks=True)
    return d


def make(seed):
    i = seed["id"]
    d = copy()
    repo = d / "repo"
    try:
        for file, old, new in seed["edits"]:
            p = repo / file
            s = p.read_text()
            if s.count(old) != 1:
                return f"{i}: {file}: {s.count(old)} matches for {old!r}"
            lines = s[:s.index(old)].count("\n") + 1
            p.write_text(s.replace(old, new))
        rc, diff = sh("git", "diff", cwd=repo)
        # are the changed lines original?
        ours = 0
        removed = 0
        for file in {e[0] for e in seed["edits"]}:
            _, blame = sh("git", "blame", "-s", "--abbrev=40", "HEAD", "--", file, cwd=repo)
            who = [line.split()[0].lstrip("^") for line in blame.splitlines()]
            _, fd = sh("git", "diff", "-U0", "--", file, cwd=repo)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a + n):
                    removed += 1
                    ours += not ROOT.startswith(who[k - 1][:39])
        if ours or not removed:
            return f"{i}: {ours} of {removed} removed lines are not original"
        # the tests
        rc, out = sh("bash", "-c", f"cd {repo} && PYTHONPATH={repo} /opt/venv/bin/python -B -m pytest -q -x --no-header -p no:cacheprovider pyudunits2 2>&1 | tail -15", cwd=repo)
        if "373 passed" not in out and " failed" in out or "error" in out.lower().split("warnings")[0]:
            return f"{i}: tests: {out[-700:]}"
        where = SEEDED / i
        tmp = d / "out"
        tmp.mkdir()
        (tmp / "patch.diff").write_text(diff)
        (tmp / "demo.py").write_text(DEMO_HEAD + seed["demo"].lstrip("\n"))
        (tmp / "demo.sh").write_text(DEMO_SH)
        (tmp / "demo.sh").chmod(0o755)
        (tmp / "meta.json").write_text(json.dumps(dict(property=seed["property"], needs=seed["needs"], what_it_breaks=seed["breaks"]), indent=1) + "\n")
        rc1, out1 = sh("sh", str(tmp / "demo.sh"), cwd=repo, timeout=300)
        rc0, out0 = sh("sh", str(tmp / "demo.sh"), cwd="/repo", timeout=300)
        if rc0 != 0 or rc1 == 0:
            return f"{i}: demo: unchanged {rc0}, changed {rc1}\n{out0[-500:]}\n{out1[-500:]}"
        shutil.rmtree(where, ignore_errors=True)
        shutil.copytree(tmp, where)
        return f"{i}: ok; demo: {out1.strip().splitlines()[-1][:150] if out1.strip() else rc1}"
    finally:
        shutil.rmtree(d)


def run(i, check=None, tier="quick"):
    d = copy()
    repo = d / "repo"
    try:
        rc, out = sh("git", "apply", str(SEEDED / i / "patch.diff"), cwd=repo)
        if rc:
            return f"{i}: does not apply: {out}"
        prop = check or json.load(open(SEEDED / i / "meta.json"))["property"]
        rc, out = sh(str(V / "check.py"), prop, "--tier", tier, cwd=V, env={"VERIF_REPO": str(repo)}, timeout=3000)
        first = next((line for line in out.splitlines() if line.startswith("{")), "")
        verdict = "caught" if rc == 1 and f"VIOLATION property={prop}" in out else "MISSED" if rc == 0 else "NO ANSWER"
        return f"{i}: {prop}: {verdict} {first[:300]}" + (out[-1500:] if rc == 2 else "")
    finally:
        shutil.rmtree(d)


def main():
    from seeds import SEEDS

    what, *ids = sys.argv[1:]
    check = None
    tier = "quick"
    if "--check" in ids:
        k = ids.index("--check")
        check = ids[k + 1]
        del ids[k:k + 2]
    if "--tier" in ids:
        k = ids.index("--tier")
        tier = ids[k + 1]
        del ids[k:k + 2]
    if what == "make":
        todo = [s for s in SEEDS if s["id"] in ids or not ids and not (SEEDED / s["id"]).exists()]
        with ThreadPoolExecutor(6) as pool:
            for line in pool.map(make, todo):
                print(line, flush=True)
    else:
        todo = ids or sorted(p.name for p in SEEDED.iterdir())
        for i in todo:
            print(run(i, check, tier), flush=True)


main()
