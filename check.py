#!/usr/bin/env python3
"""check.py Cxx: decide one property of /repo (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core, registry

core.main(registry.PROPS)
