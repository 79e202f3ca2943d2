#!/usr/bin/env python3
"""Build the executor and smoke-test it (every check rebuilds what it needs anyway)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_engine())
