#!/usr/bin/env python3
"""Pre-builds the harness crates so that the checks only have to rebuild what changed in /repo."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from check import build, ToolError  # noqa: E402
rc = 0
for crate, profile in (("harness", "release"), ("harness", "dbg"), ("harness-lbf", "release")):
    if os.path.exists(os.path.join(H, crate)):
        try:
            build(crate, profile)
        except ToolError as e:
            print(e)
            rc = 1
sys.exit(rc)
