"""Nothing to build: checks that what the checks run on is there."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import hypothesis  # noqa: F401
from vlib import driver
subprocess.check_call([driver.PYPY, '-c', 'import numpy, lib2to3'], stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
print('ready')
