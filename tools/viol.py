"""Group the violating cases of a check:  viol.py CXX [seed] [scale]"""
import collections, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import core
import importlib
from concurrent.futures import ProcessPoolExecutor
def go(a):
    return core.run_case(*a)
if __name__ == "__main__":
    p, seed, scale = sys.argv[1], int((sys.argv + ["1"] * 3)[2]), float((sys.argv + ["1"] * 3)[3])
    from rv import probes
    probes.install()
    mn = "rv.props." + p.lower()
    mod = importlib.import_module(mn)
    T = [(mn, f.name, i, seed, "quick") for f in mod.FAMILIES for i in range(max(1, int(f.quick * scale)))]
    out = sys.stdout
    with ProcessPoolExecutor(8, initializer=core._quiet) as ex:
        R = list(ex.map(go, T, chunksize=4))
    G = collections.defaultdict(list)
    for r in R:
        if r["status"] == "violation":
            G[r["family"], r["what"].split(": deviation")[0]].append(r)
    for k, v in G.items():
        print(len(v), k, [x["index"] for x in v[:8]], json.dumps(v[0]["info"])[:400])
        print("   ", json.dumps(v[0]["desc"])[:300])
        if "unexpected" in k[1]:
            print("   ", v[0]["tb"][-900:])
    print(collections.Counter(r["status"] for r in R), collections.Counter(r["what"] for r in R if r["status"] == "skip"))
