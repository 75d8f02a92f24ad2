#!/usr/bin/env python3
"""Nothing to build: verifies that the interpreter, Z3 and lingam can be loaded."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
code = ("import sys; sys.path.insert(0, '/repo'); sys.path.append("
        "'/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, sklearn; print(z3.get_version_string())")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")))
