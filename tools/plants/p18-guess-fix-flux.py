PROPERTY = 'C16'
NEEDS = 'a guesser with a prior, at least two bands, and the flux of the second band outside the range of its prior'
BREAKS = 'the replaced guess keeps the flux that the prior refuses'
EDITS = [('ngmix/guessers.py', "                    guess[j, 4:] = tguess[4:]\n", "                    guess[j, 4:6] = tguess[4:6]\n")]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix import priors, joint_prior

rng = np.random.RandomState(5)
prior = joint_prior.PriorSimpleSep(
    cen_prior=priors.CenPrior(0., 0., 0.2, 0.2, rng=rng),
    g_prior=priors.GPriorBA(0.2, rng=rng),
    T_prior=priors.FlatPrior(0., 10., rng=rng),
    F_prior=[priors.FlatPrior(0., 100., rng=rng), priors.FlatPrior(0., 100., rng=rng)],
)
guesser = ngmix.guessers.TFluxAndPriorGuesser(rng=rng, T=1.0, flux=[50., 500.], prior=prior)
bad = 0
for i in range(5):
    g = guesser(nrand=2)
    for x in g:
        try:
            prior.get_lnprob_scalar(x)
        except ngmix.GMixRangeError:
            bad += 1
print(bad)
sys.exit(0 if bad == 0 else 1)
"""
