"""Runs one generated scenario with a traceback (development aid): one.py C12 plain 194 [seed]"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core
from sim.worlds import WORLDS
core.setup_process()
prop, cfg, i = sys.argv[1:4]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
w = importlib.import_module("sim.worlds." + WORLDS[prop])
sc = core.generate(w, seed, cfg, int(i)) if not cfg.endswith(".json") else json.load(open(cfg))["scenario"]
r = core.run_scenario(w, sc)
if r.violation:
    sc, n = core.minimise(w, sc, r.violation["kind"], budget_s=20)
print(json.dumps({k: v for k, v in sc.items() if k != "_origin"}))
import traceback
core.reset_globals()
try:
    w.execute(core.Sim(), sc)
except BaseException as e:
    traceback.print_exception(e)
