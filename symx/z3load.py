"""Import z3 from the pre-installed tooling venv without letting the rest of that
venv shadow the packages of the project's own environment."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_P)
try:
    import z3
finally:
    sys.path.remove(_P)
