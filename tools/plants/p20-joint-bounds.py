PROPERTY = 'C18'
NEEDS = 'a bulge+disk prior whose logTratio and fracdev components have different bounds'
BREAKS = 'the bounds of logTratio and fracdev handed to the minimizer are exchanged'
EDITS = [('ngmix/joint_prior.py', """            self.T_prior,
            self.logTratio_prior,
            self.fracdev_prior,
        ]""", """            self.T_prior,
            self.fracdev_prior,
            self.logTratio_prior,
        ]""")]
DEMO = r"""
import sys
import numpy as np
from ngmix import priors, joint_prior

rng = np.random.RandomState(5)
p = joint_prior.PriorBDSep(
    cen_prior=priors.CenPrior(0., 0., 0.2, 0.2, rng=rng),
    g_prior=priors.GPriorBA(0.2, rng=rng),
    T_prior=priors.FlatPrior(0., 10., rng=rng),
    logTratio_prior=priors.LMBounds(-3., 3., rng=rng),
    fracdev_prior=priors.LMBounds(0., 1., rng=rng),
    F_prior=[priors.FlatPrior(0., 100., rng=rng)],
)
print(p.bounds)
sys.exit(0 if tuple(p.bounds[5]) == (-3., 3.) and tuple(p.bounds[6]) == (0., 1.) else 1)
"""
