#!/usr/bin/env python3
"""Entry point: run.py PROPERTY | run.py --replay FILE (see DESIGN.md)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sim import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
