#!/usr/bin/env python3
"""check.py setup | check.py <property> [--tier quick|thorough] [--seed N] | check.py replay FILE"""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
sys.dont_write_bytecode = True
import engine

ap = argparse.ArgumentParser()
ap.add_argument("what")
ap.add_argument("file", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--jobs", type=int, default=7)
a = ap.parse_args()
if a.what == "setup":
    sys.exit(engine.setup())
if a.what == "replay":
    sys.exit(engine.replay(a.file))
sys.exit(engine.check(a.what, "thorough" if a.tier == "thorough" else "quick", a.seed, a.jobs))
