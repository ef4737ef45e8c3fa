#!/opt/veriftools/pyvenv/bin/python
"""Entry point of every check:  run.py PID [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib.driver import main

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
