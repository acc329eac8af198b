#!/usr/bin/env python3
"""Nothing has to be built: check that the interpreter is new enough and the engine imports."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
assert sys.version_info >= (3, 8)
from absint.drive import Run   # noqa
os.makedirs(os.path.join(sys.path[0], 'evidence'), exist_ok=True)
print('ok')
