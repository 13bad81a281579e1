"""Writes /verif/DESIGN.md: tools/design.md, the findings and the planted bugs."""
import json, pathlib

R = pathlib.Path(__file__).resolve().parent.parent
out = [(R / "tools" / "design.md").read_text().rstrip(), "", "## Findings", "",
       "Genuine defects of the code under test that the checks found.  Repaired ones are `fix:` commits in /repo and suppress nothing.", "",
       "Not repaired (the checks print `KNOWN-FINDING` for exactly the committed histories in known_findings.json; generators avoid them):", ""]
F = json.loads((R / "known_findings.json").read_text())["findings"]
out += [f"* {f['property']}: {f['what']} ({f['where']})" for f in F if f["status"] == "known"]
out += ["", "Repaired:", ""]
out += [f"* {f['property']} {f['commit']}: {f['what']}" for f in F if f["status"] == "fixed"]
out += ["", "## Planted bugs", "",
        "Each is a change that passes the existing tests (seeded/<id>/); the check of its property reports it unless stated otherwise.", "",
        "| planted change | property | caught | what it needs |", "|---|---|---|---|"]
res = json.loads((R / "tools" / "planted.json").read_text()) if (R / "tools" / "planted.json").exists() else {}
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {res.get(d.name, 'yes')} | {m['needs']} |")
extra = R / "tools" / "design_end.md"
if extra.exists():
    out += ["", extra.read_text().rstrip()]
(R / "DESIGN.md").write_text("\n".join(out) + "\n")
