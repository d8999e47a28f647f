"""Compiles every monitor for the current tree (checks do so themselves too)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from props import PROPS  # noqa: E402

jobs = {}
for p in PROPS.values():
    for j in p["jobs"]:
        k = (j["src"], j["variant"], tuple(j.get("flags", [])), j.get("codec", True))
        jobs[k] = dict(j, name=str(k))
try:
    build.build_all(list(jobs.values()))
except build.BuildError as e:
    print("BUILD FAILED: " + str(e)[-4000:])
    sys.exit(1)
print("%d monitors built" % len(jobs))
