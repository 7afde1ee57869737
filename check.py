#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--list]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402

if __name__ == '__main__':
    try:
        mod = importlib.import_module('checks.' + sys.argv[1].lower())
        code = core.main(mod, sys.argv[2:])
    except core.HarnessError as e:
        sys.stderr.write('HARNESS ERROR: %s\n' % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
