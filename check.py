#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier=quick|thorough] [-v]"""
import os, sys, importlib
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "checks")]
sys.dont_write_bytecode = True
import framework
if __name__ == "__main__":
    p = sys.argv[1]
    m = importlib.import_module(p)
    sys.exit(framework.main(p, m.run, getattr(m, "LEVEL", "other"), sys.argv[2:]))
