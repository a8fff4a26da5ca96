#!/usr/bin/env python3
"""Runs one check: python3 checks/run.py <property> [quick|thorough]. Exit 0: held on everything explored; 1: VIOLATION lines."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vlib import engine


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = engine.Ctx(pid, "thorough" if tier == "thorough" else "quick", seed)
    mod = importlib.import_module("checks." + pid.lower())
    mod.run(ctx)
    return engine.finish(ctx)


if __name__ == "__main__":
    try: code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
