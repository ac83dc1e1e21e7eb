#!/usr/bin/env python3
"""Which lines that a planted bug removes were not in the original repository."""
import os, re, subprocess, sys
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for d in sys.argv[1:]:
    f = None; n = 0; removed = 0; bad = []
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{n},{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
            removed += 1
            if b.split()[0].lstrip("^")[:30] != BASE[:30]: bad.append((f, n, l.strip()))
            n += 1
        elif l.startswith(" "): n += 1
    print(d, "removes", removed, "not original:", bad)
