#!/usr/bin/env python3
"""plant.py DEFS.py [id ...]: tries planted changes in scratch copies of /repo, and keeps the valid ones in seeded/.

DEFS.py defines BUGS: a list of dicts with id, prop, edits [(file, old, new)], demo (python), needs, breaks.
"""
import json, os, re, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
stable = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '#!/bin/bash\n# run with the repository as working directory\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def tests(d):
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -rA tests", cwd=d, env={"PYTHONPATH": d, "PYTHONHASHSEED": "0"})
    return {l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED")}, r.stdout[-2000:]


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    ref, _ = tests("/repo")
    for b in defs:
        if want and b["id"] not in want:
            continue
        d = f"/tmp/plant/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        ok = True
        for f, old, new, *nth in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if nth and s.count(old) > nth[0]:
                parts = s.split(old)
                s = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
                open(p, "w").write(s)
                continue
            if s.count(old) != 1:
                print(b["id"], "EDIT: occurrences", s.count(old), repr(old)[:80]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d); continue
        diff = sh("git diff", cwd=d).stdout
        # removed lines have to be original ones
        orig = False
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                bl = sh(f"git blame -s -l -L {n},{n} HEAD -- {cur}", cwd=d).stdout
                mine = not bl.lstrip("^").startswith(BASE[:30])
                if mine: print(b["id"], "changes line of a fix:", l.strip()[:80])
                else: orig = True
                n += 1
            elif l.startswith(" "):
                n += 1
        if not orig:
            print(b["id"], "NO ORIGINAL LINE changed"); shutil.rmtree(d); continue
        t, out = tests(d)
        if not ref <= t:
            print(b["id"], "TESTS fail:", sorted(ref - t)); shutil.rmtree(d); continue
        sd = f"/tmp/plant/{b['id']}.demo"
        shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        open(sd + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(sd + "/demo.sh", "w").write(DEMO); os.chmod(sd + "/demo.sh", 0o755)
        a = sh(f"bash {sd}/demo.sh", cwd="/repo"); c = sh(f"bash {sd}/demo.sh", cwd=d)
        if a.returncode or not c.returncode:
            print(b["id"], "DEMO", a.returncode, c.returncode, a.stderr[-600:], c.stdout[-300:]); shutil.rmtree(d); continue
        k = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(k, ignore_errors=True); os.makedirs(k)
        for x in ("demo.py", "demo.sh"):
            shutil.copy(f"{sd}/{x}", k)
        open(k + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(k + "/meta.json", "w"), indent=1)
        shutil.rmtree(sd)
        r = sh(f"./check.py {b['prop']} --tier quick", cwd=os.environ.get("RV_COPY", HERE), env={"CZONE_REPO": d}, timeout=1000)
        tail = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "NO VERDICT", "UNDECIDED"))][:1]
        vn = [l for l in r.stdout.splitlines() if "violating cases" in l]
        err = c.stderr.strip().splitlines()[-1:] or [""]
        print(b["id"], b["prop"], {0: "MISSED", 1: "caught", 2: "NO VERDICT"}.get(r.returncode, r.returncode), vn, (tail or [""])[0][:260], "| demo:", err[0][:120])
        shutil.rmtree(d)
        sys.stdout.flush()


main()
