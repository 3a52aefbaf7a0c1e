"""Nothing to build; verifies that the interpreter, the solvers and the sources are where the checks expect them."""
import os, shutil, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, z3
assert os.path.isdir("/repo/src/mfpml"), "source tree"
print("python", sys.version.split()[0], "numpy", numpy.__version__, "scipy", scipy.__version__, "z3", z3.get_version_string(), "cvc5", shutil.which("cvc5"))
