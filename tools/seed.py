#!/usr/bin/env python3
"""Try a planted bug: tests must still pass, its demonstration must fail, and which checks notice.

usage: seed.py <id> [check ...]      default: the check of the property it breaks; '-' for none
"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(*a, **k):
    return subprocess.run(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    name = sys.argv[1]
    d = os.path.join(ROOT, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = [c for c in (sys.argv[2:] or [meta["property"]]) if c != "-"]
    skip_tests = "SKIP_TESTS" in os.environ
    if sh("git", "-C", REPO, "status", "--porcelain").stdout.strip():
        sys.exit("/repo isn't clean")
    if not skip_tests:
        r = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        print(f"{name}: demo on the unchanged tree: exit {r.returncode}", "" if r.returncode == 0 else r.stdout[-3000:])
    r = sh("git", "-C", REPO, "apply", os.path.join(d, "patch.diff"))
    if r.returncode:
        sys.exit(f"{name}: patch doesn't apply\n{r.stdout}")
    try:
        if not skip_tests:
            r = sh("bash", "/opt/vp/build.sh", cwd=REPO)
            if r.returncode:
                print(f"{name}: DOESN'T BUILD\n{r.stdout[-3000:]}")
                return
            out = tempfile.mktemp(suffix=".json")
            sh("bash", "/opt/vp/test.sh", out, cwd=REPO)
            passed = set(json.load(open(out))["passed"])
            os.remove(out)
            missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)
            print(f"{name}: stable tests failing: {missing or 'none'}")
            r = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
            print(f"{name}: demo with the change: exit {r.returncode}", r.stdout[-400:].strip())
        for c in checks:
            r = sh(os.path.join(ROOT, "check"), c, "quick", cwd=ROOT)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{name}: {c} exit {r.returncode}, {len(lines)} violation lines", "" if r.returncode == 1 else r.stdout[-600:])
            for l in r.stdout.splitlines()[:4] if "SHOW" in os.environ else []:
                print("   ", l[:300])
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")


main()
