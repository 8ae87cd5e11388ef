#!/opt/venv/bin/python
"""Does the engine mean what numpy and scipy mean? Runs checks/c00.py: several hundred expressions executed symbolically,
one concrete model per path replayed against the real libraries. Not a check of the repository; not in MANIFEST.json."""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
os.execv(sys.executable, [sys.executable, os.path.join(here, '..', 'run.py'), 'C00', '--no-evidence'] + sys.argv[1:])
