#!/usr/bin/env python3
"""run.py Cxx: decide one property on the current tree of /repo."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

prop = sys.argv[1] if len(sys.argv) > 1 else ""
if not (len(prop) == 3 and prop[0] == "C" and prop[1:].isdigit()):
    sys.exit("usage: run.py Cxx")
lib.main({prop: importlib.import_module("checks." + prop.lower()).check})
