#!/usr/bin/env python3
"""Adds what the release-mode pass of a check observed to the check's evidence file."""
import json, sys
a, b = sys.argv[1:3]
e = json.load(open(a))
r = json.load(open(b))
c = r["coverage"]
e["coverage"]["release_build"] = {k: c[k] for k in c if k in ("evaluations", "distinct_nontrivial", "cases_per_suite", "observed")}
e["wall_s"] += r["wall_s"]
e["violations"] += r["violations"]
json.dump(e, open(a, "w"), indent=2)
