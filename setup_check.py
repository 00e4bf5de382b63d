"""Nothing to build: check that the interpreter, z3 and the package under test can be loaded."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
import symx  # noqa
import z3
import sympy, numpy, pycparser, osaca  # noqa
print('z3', z3.get_version_string(), 'sympy', sympy.__version__)
