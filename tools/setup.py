"""Setup: nothing to build; make sure the verifier answers."""
import subprocess
import sys
r = subprocess.run(["verus", "--version"], capture_output=True, text=True)
print(r.stdout.strip().splitlines()[:3])
sys.exit(0 if r.returncode == 0 else 1)
