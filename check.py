#!/opt/venv/bin/python -B
"""check.py CXX [--tier quick|thorough] [--seed N] [--only family,...] [--procs N] [--scale X]
   check.py --replay FILE"""
import argparse, os, sys
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core
ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--only")
ap.add_argument("--procs", type=int)
ap.add_argument("--scale", type=float, default=1.0)
ap.add_argument("--replay")
a = ap.parse_args()
if a.replay:
    rc = core.replay(a.replay)
else:
    rc = core.run_check(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed,
                        a.only.split(",") if a.only else None, a.procs, a.scale)
sys.stdout.flush()
os._exit(rc)
