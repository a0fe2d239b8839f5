"""Nothing to build: the engine is Python and reads /repo on every run. Checks that the tools it needs are there."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, onnx, z3, cvc5
print('numpy', numpy.__version__, 'onnx', onnx.__version__, 'z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
