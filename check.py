#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a line
`VIOLATION property=<id> replay=<path>`: it is broken.  Anything else: tool error (2).
"""
import argparse, json, os, sys, time, traceback
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
from lib import engine
from lib.tla import ToolError, VERIF


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--part", help="only the parts whose name contains this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        if a.replay:
            return engine.replay(a.prop, a.replay)
        return engine.check(a.prop, a.tier, a.seed, a.part, a.v)
    except ToolError as e:
        print("TOOL-ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        print("TOOL-ERROR: internal")
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
