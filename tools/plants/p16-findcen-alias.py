PROPERTY = 'C14'
NEEDS = 'find_cen_admom with a mixture, several tries, and a first try that fails'
BREAKS = "the weight mixture of the caller is moved to the random centre of a retry"
EDITS = [('ngmix/admom/admom.py', "        wt = gmix.copy()\n", "        # the fitter works on its own copy of the weight\n        wt = gmix\n")]
DEMO = r"""
import sys
import numpy as np
import ngmix

gm = ngmix.GMixModel([0., 0., 0., 0., 4., 1.], 'gauss')
jac = ngmix.DiagonalJacobian(row=7, col=7)
obs = ngmix.Observation(-np.ones((15, 15)), jacobian=jac)
rng = np.random.RandomState(3)
before = gm.get_full_pars()
res = ngmix.admom.find_cen_admom(obs, gmix=gm, ntry=3, rng=rng)
after = gm.get_full_pars()
print(res['flags'], before, after)
sys.exit(0 if np.array_equal(before, after) else 1)
"""
