#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
a = ap.parse_args()
mod = importlib.import_module("p_" + a.property.lower())
sys.exit(vlib.main(a.property, a.tier, mod.body, **getattr(mod, "KW", {})))
