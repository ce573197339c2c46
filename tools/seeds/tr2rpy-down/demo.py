import importlib.util
import math
import sys

try:
    import numpy as np
except ImportError:
    sys.exit(0)
s = importlib.util.spec_from_file_location('mu', sys.argv[1] + '/src/dynamic_graph/sot/core/matrix_util.py')
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)
bad = 0
for p in (-math.pi / 2, math.pi / 2):
    for a in (0., .4, -1.2, 2.9):
        M = np.array(m.rpy2tr(0., p, a))
        v = m.matrixToRPY(M)
        if abs(np.array(m.RPYToMatrix(v)) - M).max() > 1e-6:
            print('pitch %s angle %s: %s' % (p, a, v))
            bad = 1
sys.exit(bad)
