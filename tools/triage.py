"""Runs many scenarios of one world and prints a histogram of what they report (development aid)."""
import importlib, json, multiprocessing as mp, os, re, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 300
from sim import core
from sim.worlds import WORLDS
def one(a):
    cfg, i = a
    w = importlib.import_module("sim.worlds." + WORLDS[prop])
    sc = core.generate(w, 1, cfg, i)
    r = core.run_scenario(w, sc)
    return cfg, i, r.violation, r.error, r.probes, sc, getattr(r, "error_trace", "")
if __name__ == "__main__":
    core.setup_process()
    w = importlib.import_module("sim.worlds." + WORLDS[prop])
    jobs = [(c, i) for i in range(n) for c in w.CONFIGS]
    hist, ex, probes = collections.Counter(), {}, collections.Counter()
    with mp.get_context("fork").Pool(8) as p:
        for cfg, i, v, e, pr, sc, tr in p.imap_unordered(one, jobs, chunksize=4):
            probes.update(pr)
            if v or e:
                d = v["kind"] + ": " + re.sub(r"[0-9.\-+e]+", "#", v["detail"])[:110] if v else "ERR " + e[-300:]
                hist[d] += 1
                if d not in ex or len(json.dumps(sc)) < len(json.dumps(ex[d][1])):
                    ex[d] = ((cfg, i), sc, v, tr)
    print(len(jobs), "runs", dict(probes))
    for d, c in hist.most_common(25):
        print(c, d, ex[d][0], (ex[d][2] or {}).get("detail", "")[:300], ex[d][3][-600:])
