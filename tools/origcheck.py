#!/usr/bin/env python3
"""Which lines does each planted bug remove that are not lines of the original repository (base 3e426e7)?"""
import glob, os, re, subprocess, sys
for d in sorted(glob.glob("/verif/seeded/*")):
    f = None; bad = []; n = 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip(); base = set(subprocess.run(["git", "-C", "/repo", "show", "3e426e7:" + f], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:].rstrip("\n") not in base: bad.append(l[1:].strip())
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True).returncode
    if bad or r or not n: print(os.path.basename(d), "applies" if not r else "DOES NOT APPLY", f"removes {n}", bad)
