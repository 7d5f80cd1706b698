"""Nothing is prebuilt: every check compiles its harness against the current tree. This only verifies the tools."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "mpirun") if not shutil.which(t)]
if missing: sys.exit("missing tools: %s" % missing)
os.makedirs(V + "/evidence", exist_ok=True)
