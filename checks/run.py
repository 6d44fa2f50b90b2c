#!/usr/bin/env python3
"""run.py PROPERTY-ID: decide one property on /repo's current working tree."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import report

pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
report.main(pid, mod.analyse, mod.RULE, getattr(mod, "MIN", {}), getattr(mod, "ASSUMPTIONS", ()))
