#!/usr/bin/env python3
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import check

pid = sys.argv[1]
m = importlib.import_module("checks." + pid.lower())
sys.exit(check.main(pid, m.check, m.TITLE, m.RULE))
