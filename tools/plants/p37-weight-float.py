PROPERTY = 'C28'
NEEDS = 'a weight map of floating point numbers that are not native double precision, as read from FITS images'
BREAKS = 'weight maps that are floating point already are kept as they are: big endian ones are refused, single precision ones give sums in single precision'
EDITS = [('ngmix/observation.py', """            # force f8 with native byte ordering, contiguous C layout
            weight = np.ascontiguousarray(weight, dtype='f8')
""", """            # contiguous C layout, weights of integer type are converted
            weight = np.ascontiguousarray(weight)
            if weight.dtype.kind != 'f':
                weight = weight.astype('f8')
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix

rng = np.random.RandomState(3)
jac = ngmix.DiagonalJacobian(row=7, col=7, scale=0.3)
im = ngmix.GMixModel([0, 0, 0.1, 0, 0.6, 5.0], 'exp').make_image((15, 15), jacobian=jac)
wt = rng.uniform(1.0, 2.0, size=im.shape).astype('f4')
ref = ngmix.Observation(im, weight=wt.astype('f8'), jacobian=jac).get_s2n()
bad = 0
for dt in ('f8', '>f8', 'f4', '>f4'):
    try:
        s2n = ngmix.Observation(im, weight=wt.astype(dt), jacobian=jac).get_s2n()
        print(dt, s2n, s2n - ref)
        if abs(s2n - ref) > 1e-12*abs(ref):
            bad += 1
    except Exception as err:
        print(dt, type(err).__name__)
        bad += 1
sys.exit(1 if bad else 0)
"""
