#!/usr/bin/env python3
"""check.py <property id> [--thorough] [--replay FILE] [--case INDEX] [--n N] [-v]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import runner
import props_world
for m in ("props_auth", "props_access", "props_retained", "props_persist", "props_wire", "props_fuzz", "props_spec", "props_misc", "props_plugin", "props_bridge"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
        __import__(m)
if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] == "--list":
        print(" ".join(sorted(runner.CHECKS)))
        sys.exit(0)
    sys.exit(runner.main(sys.argv[1:]))
