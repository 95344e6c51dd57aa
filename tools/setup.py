"""Nothing to build: check that the interpreters and libraries the checks use are there."""
import os
import subprocess
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import jsonschema, sympy, z3  # noqa
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, spglib, spgrep; print(spgrep.__file__)"], capture_output=True, text=True)
print(r.stdout, r.stderr, "z3", z3.get_version_string())
sys.exit(r.returncode)
