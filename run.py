#!/usr/bin/env python3
"""Entry point: run.py PROPERTY_ID [--tier quick|thorough]"""
import warnings
warnings.simplefilter("ignore")
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from aeslint import framework
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = framework.Check(a.prop, a.tier, seed)
    mod = importlib.import_module("aeslint.props." + a.prop.lower())
    try:
        mod.run(chk)
    except Exception as e:
        import traceback
        traceback.print_exc()
        chk.undecided("analysis", "whole check", "", f"{type(e).__name__}: {e}")
    return framework.finish(chk, mod.EXPL)


if __name__ == "__main__":
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rc[0])
