#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds from /repo. Only verifies that the tools are there."""
import shutil, sys
for t in ("clang++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("ok")
