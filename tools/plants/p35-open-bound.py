PROPERTY = 'C29'
NEEDS = 'a prior whose only bound is zero, for a parameter that the data push below zero'
BREAKS = 'has_bounds asks whether any bound is set by its truth value, so a lower bound at zero (0.0, None) is dropped and the fit leaves the interval'
EDITS = [('ngmix/priors/priors.py', """        return hasattr(self, "bounds") and self.bounds is not None
""", """        bounds = getattr(self, "bounds", None)

        # (None, None) leaves the parameter free
        return bounds is not None and any(bounds)
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix import priors as P, joint_prior as J

rng = np.random.RandomState(5)
jac = ngmix.DiagonalJacobian(row=9.0, col=9.0, scale=0.3)
psf = ngmix.GMixModel([0, 0, 0, 0, 0.3, 1.0], 'gauss')
bad = 0
for bound in ((0.0, None), (0.0, 50.0), (None, 50.0)):
    prior = J.PriorSimpleSep(
        P.CenPrior(0.0, 0.0, 0.3, 0.3, rng=rng), P.GPriorBA(0.3, rng=rng),
        P.Normal(0.5, 0.5, rng=rng), P.Normal(0.0, 100.0, bounds=bound, rng=rng))
    # a hole in the sky: the best flux is negative
    im = -ngmix.GMixModel([0, 0, 0, 0, 0.6, 5.0], 'exp').convolve(psf).make_image((19, 19), jacobian=jac)
    obs = ngmix.Observation(im + 0.001*rng.normal(size=im.shape), weight=np.full(im.shape, 1e6), jacobian=jac,
                            psf=ngmix.Observation(psf.make_image((19, 19), jacobian=jac), jacobian=jac, gmix=psf))
    res = ngmix.fitting.Fitter(model='exp', prior=prior).go(obs=obs, guess=np.array([0, 0, 0.01, 0.01, 0.6, 1.0]))
    flux = res['pars'][5]
    print(bound, 'flux', flux)
    if bound[0] is not None and flux < bound[0]:
        bad += 1
sys.exit(1 if bad else 0)
"""
