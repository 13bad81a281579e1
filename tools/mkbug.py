"""mkbug.py SPEC.py: build seeded/<id>/ from a spec defining ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS."""
import json, pathlib, runpy, subprocess, sys, shutil, os
for path in sys.argv[1:]:
    s = runpy.run_path(path)
    out = pathlib.Path("/verif/seeded") / s["ID"]
    out.mkdir(parents=True, exist_ok=True)
    tmp = pathlib.Path(f"/tmp/mkbug_{os.getpid()}")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(tmp)], check=True)
    for f, old, new in s["EDITS"]:
        p = tmp / f
        t = p.read_text()
        assert t.count(old) == 1, (s["ID"], f, t.count(old), old)
        p.write_text(t.replace(old, new))
        compile(p.read_text(), f, "exec")
    d = subprocess.run(["git", "-C", str(tmp), "diff"], capture_output=True, text=True, check=True).stdout
    # every removed line must be a line of the original repository
    for f in {e[0] for e in s["EDITS"]}:
        orig = set(subprocess.run(["git", "-C", "/repo", "show", f"59c340c:{f}"], capture_output=True, text=True, check=True).stdout.splitlines())
        t = subprocess.run(["git", "-C", str(tmp), "diff", "-U0", f], capture_output=True, text=True).stdout.splitlines()
        mine = [l for l in t if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
        if mine: print("WARNING", s["ID"], "changes lines that are not in the original:", mine)
    shutil.rmtree(tmp)
    (out / "patch.diff").write_text(d)
    (out / "demo.py").write_text(s["DEMO"].lstrip())
    (out / "demo.sh").write_text('#!/bin/bash\n# exit 0 when the property holds on this scenario, nonzero otherwise\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\nexec /opt/venv/bin/python "$HERE/demo.py"\n')
    (out / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    print(s["ID"], len(d.splitlines()))
