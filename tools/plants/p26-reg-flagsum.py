PROPERTY = 'C09'
NEEDS = 'regularization of a result that is flagged for a reason that is still there after it'
BREAKS = 'equal bits carry over to the next flag: the documented flag is not set and another one is'
EDITS = [('ngmix/moments.py', '        momres["flags"] |= res["flags"]\n', '        momres["flags"] += res["flags"]\n')]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix.moments import make_mom_result, regularize_mom_shapes

sums = np.array([0., 0., 1., 2., 10., -5.])
cov = np.diag([1., 1., 1., 1., 1., 1.])
res = make_mom_result(sums, cov)
reg = regularize_mom_shapes(res, 1.0)
print(res['flagstr'], '->', reg['flagstr'])
sys.exit(0 if reg['flags'] & ngmix.flags.NONPOS_FLUX else 1)
"""
