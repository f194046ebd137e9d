"""pyvc: contract-based deductive verifier for the Python source of ratarmount (see DESIGN.md)."""
import sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)  # z3 and cvc5 bindings; appended so that /opt/venv packages win
