#!/usr/bin/env python3
"""Entry point of every registered check.  See DESIGN.md.

    check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]

Exit status: 0 the property held on everything explored; 1 a violation was
found (one line "VIOLATION property=<id> replay=<path>"); 2 the harness itself
could not run.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'

try:
    import hypothesis  # noqa
except ImportError:
    if os.path.exists(VT) and os.environ.get('FLVERIF_REEXEC') != '1':
        os.environ['FLVERIF_REEXEC'] = '1'
        os.execv(VT, [VT, os.path.join(HERE, 'check.py')] + sys.argv[1:])
    raise

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from pbt import core  # noqa

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
