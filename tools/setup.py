"""setup_cmd: nothing to build; verifies that the tools are there."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
r = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-c', 'import z3; print("z3", z3.get_version_string())'])
sys.exit(r.returncode)
