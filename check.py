#!/usr/bin/env python3
"""python3 check.py <PROPERTY>: decide one property from the current source of the repository."""
import importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "lib"))
sys.path.insert(0, os.path.join(H, "checks"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import core
if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(core.run(pid, importlib.import_module(pid.lower())))
