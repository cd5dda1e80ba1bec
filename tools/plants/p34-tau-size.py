PROPERTY = 'C27'
NEEDS = 'EM with fixed covariances on an observation whose psf has several gaussians'
BREAKS = 'the scratch array for the convolved mixture has the length of the mixture before convolution, the rest is written behind it'
OLD = """    taudata = np.zeros(gmix_conv.size, dtype=_tau_dtype)

    tol = conf['tol']

    npix = pixels.size

    sky = conf['sky']

    elogL_last = -9999.9e9

    for i in range(conf['maxiter']):

        elogL = 0.0
        skysum = 0.0

        clear_sums_fixcov(sums)
"""
EDITS = [('ngmix/em/em_nb.py', OLD, OLD.replace('gmix_conv.size', 'gmix.size'))]
DEMO = r"""
import os
import sys

# compiled functions check their indices in this process
os.environ['NUMBA_BOUNDSCHECK'] = '1'
import numpy as np
import ngmix

jac = ngmix.DiagonalJacobian(row=7, col=7, scale=0.3)
psf = ngmix.GMixModel([0, 0, 0.01, 0.02, 0.4, 1.0], 'turb')
gm = ngmix.GMix(pars=[1.0, 0.1, 0.1, 0.5, 0.02, 0.4, 0.7, -0.2, 0.0, 0.3, 0.0, 0.5])
im = gm.convolve(psf).make_image((15, 15), jacobian=jac)
nbad = 0
for cls in ('EMFitter', 'EMFitterFixCen', 'EMFitterFixCov', 'EMFitterFluxOnly'):
    obs = ngmix.Observation(im, jacobian=jac, psf=ngmix.Observation(
        psf.make_image((15, 15), jacobian=jac), jacobian=jac, gmix=psf))
    try:
        res = getattr(ngmix.em.em, cls)(maxiter=50).go(obs=obs, guess=gm.copy())
        print(cls, res['flags'])
    except IndexError as err:
        print(cls, err)
        nbad += 1
sys.exit(1 if nbad else 0)
"""
