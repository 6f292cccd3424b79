#!/usr/bin/env python3
"""Setup: nothing is built; make sure the analyser loads and /repo parses."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
sys.dont_write_bytecode = True
import registry  # noqa: E402
from program import program  # noqa: E402

p = program()
print(f"{len(registry.CHECKS)} checks, {len(p.modules)} modules, {len(p.classes)} classes")
