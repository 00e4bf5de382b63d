"""symx: a small symbolic executor for real Python code (operator proxies + z3)."""
import sys
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
