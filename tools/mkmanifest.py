"""Writes MANIFEST.json: one check per property with a module in harness/checks."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools" / "levels.json").read_text())
checks = []
for p in props:
    i = p["id"]
    if not (V / "harness" / "checks" / f"{i.lower()}.py").exists() or i not in NOTES:
        continue
    t, note = NOTES[i]
    checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=note))
done = {c["property"] for c in checks}
na = [dict(property=p["id"], reason="Its check is not built yet.") for p in props if p["id"] not in done]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, checked with TLC; conformance harness in harness/. No hooks in /repo are needed.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
