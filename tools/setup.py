"""checks that the installed tools are usable; nothing has to be built ahead of the checks"""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
for t in ("clang++", "llvm-cxxfilt", "g++", "cvc5"):
    if shutil.which(t) is None:
        print("missing tool", t)
        sys.exit(1)
if shutil.which("opt-18") is None and shutil.which("opt") is None:
    print("missing tool opt")
    sys.exit(1)
from vf import run
run.load_specs()
from vf import spec
print("z3", z3.get_version_string(), "-", sum(len(v) for v in spec.REG.values()), "contracts for", len(spec.REG), "properties")
