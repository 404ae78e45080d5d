#!/opt/venv/bin/python -B
"""tools/slow.py CXX [seed] [scale]: the slowest cases of a check"""
import os, sys
os.environ["PYTHONHASHSEED"] = "0"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import core
import importlib, concurrent.futures as cf, multiprocessing as mp
p = sys.argv[1]; seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; sc = float(sys.argv[3]) if len(sys.argv) > 3 else 1
mod = importlib.import_module("rv.props." + p.lower())
from rv import probes
probes.install()
core._G.update(mod=mod, known=core.load_known(p))
tasks = [(mod.__name__, [(f.name, i)], seed, "quick") for f in mod.FAMILIES for i in range(int(f.quick * sc))]
with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork"), initializer=core._quiet) as ex:
    R = [r for c in ex.map(core._run_chunk, tasks, chunksize=4) for r in c]
for r in sorted(R, key=lambda r: -r["cpu"])[:8]:
    print(round(r["cpu"], 2), r["family"], r["index"], r["status"], str(r["desc"])[:300], {k: v for k, v in r["events"].items() if not k.startswith("call")})
