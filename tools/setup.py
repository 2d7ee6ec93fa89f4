#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there, and warms the build cache where it persists."""
import os, shutil, sys

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, top)
sys.dont_write_bytecode = True
for tool in ("g++",):
    if not shutil.which(tool):
        sys.exit("missing: " + tool)
from vlib import build
print(build.build([("vis", "fast")]))
