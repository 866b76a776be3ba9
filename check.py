#!/usr/bin/env python3
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import engine
prop = sys.argv[1]
m = importlib.import_module('props.' + prop.lower())
sys.exit(engine.main(prop, m.SPEC, sys.argv[2:]))
