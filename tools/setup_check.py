"""setup: nothing to build; verify that the interpreter, numpy and z3 are usable"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, z3
print('numpy', numpy.__version__, 'z3', z3.get_version_string())
