#!/usr/bin/env python3
"""Builds the engine, every object and every harness once, so that a check only rebuilds what changed."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from properties import PROPS
t = time.time()
build.engine()
build.gen()
hs = sorted({h for p in PROPS.values() for h in p["harness"]})
try:
    build.build_many(build.sources() + [build.B + "/gen/versions.cpp"] + build.COMMON + [build.V + "/harness/%s.cpp" % h for h in hs])
except build.BuildError as e:
    print(e)
os.makedirs(build.B + "/bin", exist_ok=True)
bad = 0
for h in hs:
    try:
        build.link([build.V + "/harness/%s.cpp" % h], build.B + "/bin/" + h)
    except build.BuildError as e:
        bad += 1
        print("harness", h, "does not build:", str(e)[-2000:])
print("%d harnesses, %.0f s" % (len(hs), time.time() - t))
sys.exit(1 if bad else 0)
