#!/usr/bin/env python3
"""Builds every harness once, so that the first run of each check is fast."""

import vbuild
from registry import HARNESSES
for n, s in HARNESSES.items():
    try:
        vbuild.build(n, s)
    except vbuild.BuildError as e:
        print("setup: %s: %s" % (n, e))      # the checks that need it report this again
print("setup: built", len(HARNESSES), "harnesses")
