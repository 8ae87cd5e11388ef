"""Symbolic execution of the sidetopics sources (Python and Cython) with z3."""
import os as _os
import sys as _sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in _sys.path:
    _sys.path.append(_VT)          # z3 lives there; everything else comes from /opt/venv
