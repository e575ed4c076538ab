import sys as _sys

_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3 not in _sys.path:  # z3 only; appended last so /opt/venv keeps precedence
    _sys.path.append(_Z3)
