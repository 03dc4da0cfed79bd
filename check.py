#!/usr/bin/env python3
"""usage: python3-vt check.py PROPERTY   (tier from VERIF_TIER, seed from VERIF_SEED)"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) < 2:
    sys.exit("usage: check.py PROPERTY")
sys.exit(importlib.import_module("checks." + sys.argv[1]).main())
