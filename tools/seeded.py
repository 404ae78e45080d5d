#!/usr/bin/env python3
"""Applies each planted change in a scratch copy of /repo and runs the check of its property; writes tools/planted.json."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(d)) for d in glob.glob(HERE + "/seeded/*/meta.json"))
out = HERE + "/tools/planted.json"
res = json.load(open(out)) if os.path.exists(out) else {}
for k in ids:
    prop = json.load(open(f"{HERE}/seeded/{k}/meta.json"))["property"]
    d = "/tmp/plant/s-" + k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    r = subprocess.run(["git", "apply", f"{HERE}/seeded/{k}/patch.diff"], cwd=d)
    if r.returncode:
        res[k] = "patch does not apply"
    else:
        r = subprocess.run([HERE + "/check.py", prop, "--tier", "quick", "--seed", "1"], cwd=HERE, env=dict(os.environ, CZONE_REPO=d, RV_EVIDENCE=d + "/ev"), capture_output=True, text=True)
        n = [l.split()[0] for l in r.stdout.splitlines() if "violating cases" in l]
        res[k] = f"{prop} ({n[0]} cases)" if r.returncode == 1 and n else f"MISSED (exit {r.returncode})"
    print(k, res[k], flush=True)
    shutil.rmtree(d)
    known = {os.path.basename(os.path.dirname(x)) for x in glob.glob(HERE + "/seeded/*/meta.json")}
    json.dump({a: b for a, b in sorted(res.items()) if a in known}, open(out, "w"), indent=1)
