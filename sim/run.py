"""Runs the simulation check of one property.

    python -m sim.run C03            (VERIF_SEED, VERIF_TIER decide everything)
    python -m sim.run C03 --replay replays/C03-....json
    python -m sim.run C03 --digests N   (prints one digest per run; determinism proof)

Exit status: 0 held on everything explored; 1 VIOLATION; 2 error of the check itself.
"""

from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import subprocess
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

from sim import core  # noqa: E402
from sim.worlds import WORLDS  # noqa: E402

SESSION = 25  # runs per process; the unit of replay when a violation needs earlier runs
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


def load_world(prop: str):
    return importlib.import_module(f"sim.worlds.{WORLDS[prop]}")


def env() -> dict:
    e = dict(os.environ)
    e["PYTHONPATH"] = f"{core.SRC}:{ROOT}"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["CUDA_VISIBLE_DEVICES"] = ""
    e["HF_HUB_OFFLINE"] = "1"
    return e


# ------------------------------------------------------------------ sessions (worker side)

_WORLD = None


def _session(task):
    """Runs a contiguous block of run indices in this (fresh) process."""
    seed, config, start, count, deadline = task
    world = _WORLD
    out = []
    gc.collect()
    gc.freeze()
    gc.disable()
    for i in range(start, start + count):
        if time.monotonic() > deadline:
            break
        try:
            sc = core.generate(world, seed, config, i)
        except Exception:  # noqa: BLE001
            out.append({"index": i, "error": "generate: " + traceback.format_exc()[-2000:]})
            break
        r = core.run_scenario(world, sc)
        rec = {
            "index": i, "config": config, "digest": r.digest, "faults": r.faults, "probes": r.probes,
            "states": sorted(r.states), "steps": r.steps, "ops": r.ops, "n_events": r.n_events,
        }
        if i % 97 == 0 or r.violation or r.error:
            rec["scenario"] = sc
            rec["events"] = r.events[-200:]
        if r.error:
            rec["error"] = r.error
        if r.violation:
            rec["violation"] = r.violation
            rec["session_start"] = start
        out.append(rec)
        gc.collect(0)
        if r.violation or r.error:
            break
    return out


def _run_sequence(world, scs):
    """Runs scenarios one after another in this process; result of the last one."""
    r = None
    gc.collect(); gc.freeze(); gc.disable()
    for sc in scs:
        r = core.run_scenario(world, sc)
        gc.collect(0)
        if r.violation or r.error:
            break
    return r


def _seq_child(args):
    scs, kind = args
    r = _run_sequence(_WORLD, scs)
    return (r.violation, r.error, r.digest, r.events[-300:])


def _min_child(args):
    sc, kind, budget = args
    best, n = core.minimise(_WORLD, sc, kind, budget_s=budget)
    return best, n


def in_child(fn, arg, timeout=300):
    """Run fn(arg) in a fresh forked process."""
    ctx = mp.get_context("fork")
    with ctx.Pool(1, maxtasksperchild=1) as pool:
        return pool.apply_async(fn, (arg,)).get(timeout=timeout)


# ------------------------------------------------------------------ replay


def write_replay(prop, scs, violation, events, note=""):
    d = pathlib.Path(os.environ.get("VERIF_REPLAY_DIR", ROOT / "replays"))
    d.mkdir(parents=True, exist_ok=True)
    body = {"property": prop, "violation": violation, "sequence": scs, "trace": events, "note": note}
    h = hashlib.sha256(json.dumps(scs, sort_keys=True).encode()).hexdigest()[:10]
    p = d / f"{prop}-{h}.json"
    p.write_text(json.dumps(body, indent=1))
    return p


def replay_fresh(prop, path, timeout=300):
    e = env()
    e["PYTHONHASHSEED"] = "4242"
    try:
        p = subprocess.run(
            [sys.executable, "-m", "sim.run", prop, "--replay", str(path)],
            cwd=ROOT, env=e, capture_output=True, text=True, timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return None, "timeout"
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY-RESULT "):
            return json.loads(line[len("REPLAY-RESULT "):]), p.stdout
    return None, p.stdout + p.stderr


def do_replay(world, path) -> int:
    body = json.loads(pathlib.Path(path).read_text())
    r = _run_sequence(world, body["sequence"])
    for ev in r.events:
        print("  ", ev)
    res = {"violation": r.violation, "error": r.error, "digest": r.digest}
    print("REPLAY-RESULT " + json.dumps(res))
    if r.violation:
        print(f"VIOLATION property={world.PROPERTY} replay={path}")
        print(f"  {r.violation['kind']}: {r.violation['detail']}")
        return 1
    if r.error:
        print(r.error)
        return 2
    return 0


# ------------------------------------------------------------------ known findings


def known_findings(prop):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == prop and x["status"] == "known"]


# ------------------------------------------------------------------ main


def main() -> int:
    global _WORLD
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    ap.add_argument("--runs", type=int, help="override number of runs per config")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--config")
    ap.add_argument("--index", type=int)
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.prop
    t0 = time.monotonic()

    # VERIF_SEED decides everything: the interpreter's own hash seed is fixed as well.
    core.setup_process()
    world = load_world(prop)
    _WORLD = world
    if hasattr(world, "setup"):
        world.setup()

    if args.replay:
        return do_replay(world, args.replay)
    if args.index is not None:
        sc = core.generate(world, seed, args.config, args.index)
        print(json.dumps(sc, indent=1))
        r = core.run_scenario(world, sc)
        print("\n".join(r.events))
        print(r.violation, r.error, getattr(r, "error_trace", ""))
        return 1 if r.violation else 0
    if args.digests:
        for config in world.CONFIGS:
            for s in range(0, args.digests, SESSION):
                for rec in in_child(_session, (seed, config, s, min(SESSION, args.digests - s), time.monotonic() + 1e6), timeout=3600):
                    print(config, rec["index"], rec.get("digest"), (rec.get("error") or "")[:300])
        return 0

    tier = "thorough" if args.tier == "thorough" else "quick"
    plan = getattr(world, "PLAN", {})
    n_runs = args.runs or plan.get(tier, {"quick": 400, "thorough": 6000}[tier])
    budget = args.budget or plan.get(tier + "_s", {"quick": 150, "thorough": 780}[tier])
    print(f"SEED {seed} property {prop} tier {tier} runs/config {n_runs} budget {budget}s workers {WORKERS}", flush=True)

    total = {"runs": 0, "faults": {}, "probes": {}, "steps": 0, "ops": 0, "events": 0}
    digests: set[str] = set()
    nontrivial: set[str] = set()
    states: set[str] = set()
    per_config: dict[str, dict] = {}
    samples = []
    found = None
    error = None
    n_errors = 0
    truncated = False
    session = getattr(world, "SESSION", SESSION)
    deadline = t0 + budget
    tasks = []
    for s in range(0, n_runs, session):
        for config, cfg in world.CONFIGS.items():
            w = cfg.get("weight", 1.0)
            if s < n_runs * w:
                tasks.append((seed, config, s, min(session, int(n_runs * w + 0.999) - s), deadline))
    ctx = mp.get_context("fork")
    known_printed = set()
    search0 = time.monotonic()
    with ctx.Pool(WORKERS, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_session, tasks)
        hard = deadline + 240
        while True:
            try:
                recs = it.next(timeout=max(1.0, hard - time.monotonic()))
            except StopIteration:
                break
            except mp.TimeoutError:
                error = "worker made no progress before the wall limit"
                break
            for rec in recs:
                total["runs"] += 1
                if rec.get("error"):
                    error = error or rec["error"]
                    n_errors += 1
                pc = per_config.setdefault(rec.get("config", "?"), {"runs": 0, "faults": 0})
                pc["runs"] += 1
                nf = sum(rec.get("faults", {}).values())
                pc["faults"] += nf
                for k, v in rec.get("faults", {}).items():
                    total["faults"][k] = total["faults"].get(k, 0) + v
                for k, v in rec.get("probes", {}).items():
                    total["probes"][k] = total["probes"].get(k, 0) + v
                total["steps"] += rec.get("steps", 0)
                total["ops"] += rec.get("ops", 0)
                total["events"] += rec.get("n_events", 0)
                if rec.get("digest"):
                    digests.add(rec["digest"])
                    need_fault = world.CONFIGS[rec["config"]].get("faults", False)
                    if rec["ops"] >= 2 and (nf > 0 or not need_fault):
                        nontrivial.add(rec["digest"])
                states.update(rec.get("states", ()))
                if rec.get("scenario") and len(samples) < 3 and not rec.get("violation"):
                    samples.append({"scenario": rec["scenario"], "events": rec["events"][:60]})
                if rec.get("violation") and found is None:
                    found = rec
            if found or n_errors > 40:  # an error of the check does not end the search: a violation outweighs it
                break
        if found or error:
            pool.terminate()
    search_s = time.monotonic() - search0
    if total["runs"] < sum(t[3] for t in tasks) and not found and not error:
        truncated = True

    rc = 0
    replay_path = None
    repro = None
    if found:
        kind = found["violation"]["kind"]
        print(f"found: config={found['config']} run={found['index']} {kind}: {found['violation']['detail'][:500]}", flush=True)
        if os.environ.get("VERIF_FAST"):  # mutation campaigns: neither minimised nor replayed
            print(f"VIOLATION property={prop} replay=none")
            return 1
        sc = found["scenario"]
        seq = [sc]
        alone = in_child(_seq_child, ([sc], kind))
        if alone[0] and alone[0]["kind"] == kind:
            try:
                best, n = in_child(_min_child, (sc, kind, float(os.environ.get("VERIF_MIN_S", "45"))), timeout=400)
                seq = [best]
                print(f"minimised in {n} runs", flush=True)
            except Exception as e:  # noqa: BLE001
                print("minimiser stopped:", type(e).__name__, flush=True)
        else:
            # needs state left behind by earlier runs of the same process: keep the session
            first = found["session_start"]
            seq = [core.generate(world, seed, found["config"], i) for i in range(first, found["index"] + 1)]
            t1 = time.monotonic()
            i = 0
            while i < len(seq) - 1 and time.monotonic() - t1 < 60:
                cand = seq[:i] + seq[i + 1:]
                r = in_child(_seq_child, (cand, kind))
                if r[0] and r[0]["kind"] == kind:
                    seq = cand
                else:
                    i += 1
        final = in_child(_seq_child, (seq, kind))
        viol = final[0] or found["violation"]
        replay_path = write_replay(prop, seq, viol, final[3], f"seed {seed} config {found['config']} run {found['index']}")
        repro, out = replay_fresh(prop, replay_path)
        if not (repro and repro.get("violation") and repro["violation"]["kind"] == viol["kind"]):
            # fall back to the unminimised history
            seq = [core.generate(world, seed, found["config"], i) for i in range(found["session_start"], found["index"] + 1)]
            replay_path = write_replay(prop, seq, found["violation"], found["events"], "unminimised")
            repro, out = replay_fresh(prop, replay_path)
        if repro and repro.get("violation"):
            print(f"VIOLATION property={prop} replay={replay_path}")
            print(f"  {repro['violation']['kind']}: {repro['violation']['detail'][:800]}")
            rc = 1
        else:
            print("ERROR: violation did not replay in a fresh process:", out[-1500:])
            rc = 2
    elif error:
        print("ERROR of the check:", error)
        rc = 2

    # regressions and known findings: committed histories, run exactly
    if rc == 0:
        for kf in known_findings(prop):
            r = in_child(_seq_child, (kf["sequence"], ""))
            if r[0]:
                print(f"KNOWN-FINDING: property={prop} {kf['what']}")

    # determinism: replay a sample of runs in a fresh interpreter with another hash seed
    det = None
    if rc == 0 and not os.environ.get("VERIF_NO_DET"):
        det = determinism_sample(prop, seed, world, plan.get("det", 8))

    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(world, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": getattr(world, "RULE", "") + " A run is one seeded scenario executed to its end; it is non-trivial when at "
                    "least two operations completed and, in the fault-injecting configurations, at least one fault actually fired; "
                    "two runs are distinct when their event logs differ.",
            "samples": samples or [{"note": "no sample kept"}],
            "simulated_runs": total["runs"],
            "runs_per_hour": round(total["runs"] / max(search_s, 1e-6) * 3600),
            "seeds_per_hour": round(total["runs"] / max(search_s, 1e-6) * 3600),
            "simulated_time": {"unit": "logical steps (the system has no clock; every operation, scheduler decision and I/O call is one step)",
                               "steps": total["steps"], "operations": total["ops"], "events": total["events"]},
            "faults_fired": dict(sorted(total["faults"].items())),
            "per_config": per_config,
            "probes": dict(sorted(total["probes"].items())),
            "distinct_event_logs": len(digests),
            "distinct_states": len(states),
            "distinct_states_measure": getattr(world, "STATE_MEASURE", "hash of the abstract model state after each operation"),
            "real_components": getattr(world, "REAL", []),
            "stubbed_components": getattr(world, "STUB", []),
            "truncated_by_time": truncated,
            "determinism_sample": det,
        },
        "assumptions": getattr(world, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
    }
    evdir = ROOT / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} {tier}: {total['runs']} runs, {len(nontrivial)} distinct non-trivial, faults {total['faults']}, "
          f"probes {total['probes']}, {wall:.1f}s, rc={rc}")
    return rc


def determinism_sample(prop, seed, world, n):
    mine = []
    for config in world.CONFIGS:
        for rec in in_child(_session, (seed, config, 0, n, time.monotonic() + 1e6), timeout=600):
            mine.append(f"{config} {rec['index']} {rec.get('digest')}")
    e = env()
    e["PYTHONHASHSEED"] = "777"
    e["VERIF_SEED"] = str(seed)
    try:
        p = subprocess.run([sys.executable, "-m", "sim.run", prop, "--digests", str(n)], cwd=ROOT, env=e,
                           capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return {"runs": len(mine), "mismatches": "timeout"}
    theirs = [" ".join(l.split()[:3]) for l in p.stdout.splitlines() if len(l.split()) >= 3]
    mism = [a for a in mine if a not in set(theirs)]
    return {"runs": len(mine), "mismatches": len(mism), "other_hash_seed": 777, "first": mism[:2]}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        sys.exit(2)
