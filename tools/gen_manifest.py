"""Writes /verif/MANIFEST.json from the worlds that exist and the list of properties."""
import json, pathlib, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from sim.worlds import WORLDS  # noqa: E402

NA = {
    "C23": "Pure source-to-source translation of one module: a function of its input text with no schedule, time, I/O, shared state or failure for the property to depend on; needs translation validation, not simulation.",
    "C24": "Pure arithmetic on one tensor: no schedule, history, I/O or fault it could depend on.",
    "C25": "Pure index arithmetic on shapes: no schedule, history, I/O or fault it could depend on.",
    "C26": "Pure function of a query and a module tree: no schedule, history, I/O or fault it could depend on.",
}
PENDING = "No check built yet."
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in WORLDS and (ROOT / "sim" / "worlds" / f"{WORLDS[i]}.py").exists():
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over histories, schedules and fault sequences of the real code, checked against an executable reference model",
            "level": "exploration",
            "level_note": "Every run is one exactly repeatable execution decided by the seed; a pass means that no explored history broke the property, not that none can.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", [x["property"] for x in na])
