#!/opt/veriftools/pyvenv/bin/python3
"""usage: check.py <property> [quick|thorough]"""
import os
import sys
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('PYTHONHASHSEED') != '0' or sys.prefix != '/opt/veriftools/pyvenv':  # reproducible iteration orders
    os.environ['PYTHONHASHSEED'] = '0'
    if os.environ.get('SA_REEXEC') != '1':
        os.environ['SA_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import report
sys.setrecursionlimit(20000)
sys.exit(report.main(sys.argv))
