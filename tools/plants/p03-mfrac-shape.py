PROPERTY = 'C03'
NEEDS = 'an mfrac image with the transposed shape of a non-square observation'
BREAKS = 'an observation accepts a masked fraction image of another shape'
EDITS = [('ngmix/observation.py', '            assert (mfrac.shape == image.shape), \\\n                "image and mfrac must be same shape"', '            assert (mfrac.size == image.size), \\\n                "image and mfrac must be same shape"')]
DEMO = r"""
import sys
import numpy as np
import ngmix
obs = ngmix.Observation(np.ones((4, 5)))
try:
    obs.mfrac = np.zeros((5, 4))
except Exception:
    print('ok')
    sys.exit(0)
print('accepted mfrac of shape', obs.mfrac.shape)
sys.exit(1)
"""
