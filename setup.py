"""Nothing is built ahead: every check encodes /repo's sources when it runs.
Confirms the tools the checks use are here."""
import subprocess
import sys

import numpy
import z3

print("z3", z3.get_version_string(), "numpy", numpy.__version__)
p = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, komm; print(numpy.__version__)"], cwd="/", capture_output=True, text=True)
print(p.stdout, p.stderr)
sys.exit(p.returncode)
