PROPERTY = 'C05'
NEEDS = 'convolution with a psf mixture whose gaussians are not at the same centre'
BREAKS = 'the offsets of the psf gaussians from the psf centre are ignored by the convolution'
EDITS = [('ngmix/gmix/gmix_nb.py', '            row = obj_gauss["row"] + (psf_gauss["row"] - psf_rowcen)\n', '            row = obj_gauss["row"] + (psf_rowcen - psf_rowcen)\n')]
DEMO = r"""
import sys
import numpy as np
import ngmix
gm = ngmix.GMixModel([0.0, 0.0, 0.1, 0.0, 3.0, 1.0], 'gauss')
psf = ngmix.GMix(pars=[0.6, 0.5, 0.0, 1.0, 0.0, 1.0, 0.4, -0.75, 0.0, 1.0, 0.0, 1.0])
c = gm.convolve(psf)
T = c.get_T()
want = gm.get_T() + psf.get_T()
print('T %g expected %g' % (T, want))
sys.exit(0 if abs(T - want) < 1e-9 else 1)
"""
