#!/opt/veriftools/pyvenv/bin/python3
"""Setup: check that the tools the checks need are present."""
import subprocess, sys, z3
for t in (['clang++-18', '--version'], ['opt-18', '--version'], ['llvm-cxxfilt-18', '--version']):
    if subprocess.run(t, capture_output=True).returncode: print('missing', t); sys.exit(1)
print('ok: z3', z3.get_version_string())
