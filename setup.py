#!/usr/bin/env python3
"""Builds the MIR extractor and the facts of /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import facts
print(facts.facts_dir())
