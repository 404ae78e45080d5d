#!/usr/bin/env python3
"""Takes back each fix: commit in a scratch copy and runs the check of the property it is recorded for."""
import os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = []
for l in open(HERE + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) ([0-9a-f]+) (.*)", l)
    if m:
        fixes.append(m.groups())
want = sys.argv[1:]
for prop, commit, what in fixes:
    if want and commit[:7] not in [w[:7] for w in want]:
        continue
    d = "/tmp/plant/rev-" + commit[:7]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    r = subprocess.run(["git", "revert", "--no-commit", commit], cwd=d, capture_output=True, text=True)
    if r.returncode:
        print(prop, commit[:7], "CONFLICT", what[:80])
    else:
        r = subprocess.run(["./check.py", prop, "--tier", "quick"], cwd=HERE, env=dict(os.environ, CZONE_REPO=d), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "violating cases" in l]
        print(prop, commit[:7], {0: "MISSED", 1: "caught"}.get(r.returncode, "NO VERDICT"), v[:1], what[:90])
    sys.stdout.flush()
    shutil.rmtree(d)
