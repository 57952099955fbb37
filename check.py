"""python3-vt check.py C01 [--thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402

if __name__ == "__main__":
    prop = importlib.import_module("props." + sys.argv[1])
    code = harness.run(prop)
    sys.stdout.flush()
    os._exit(code)
