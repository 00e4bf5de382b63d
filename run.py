#!/opt/venv/bin/python
"""Entry point: run.py Cxx [--tier quick|thorough] [--replay FILE]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.executable.startswith('/opt/venv'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', '-Wignore'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
sys.exit(runner.main())
