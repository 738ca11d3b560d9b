#!/usr/bin/env python3
"""check.py <property id>: run the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
sys.dont_write_bytecode = True
import vlib

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    sys.exit(vlib.main(prop, mod.run))
