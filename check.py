#!/opt/venv/bin/python
"""Entry point of all checks: ./check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import run
if __name__ == '__main__':
    run.main()
