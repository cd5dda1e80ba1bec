PROPERTY = 'C08'
NEEDS = 'a fit model with a psf, evaluated twice in a row at the same parameters outside the range of the model'
BREAKS = 'the second evaluation uses the mixtures left over from before instead of giving -infinity'
EDITS = [('ngmix/fitting/results.py', """        if not self.dopsf:
            self._fill_gmix_all_nopsf(pars)
            return

        for band, obs_list in enumerate(self.obs):
""", """        if not self.dopsf:
            self._fill_gmix_all_nopsf(pars)
            return

        # nothing to do if the parameters are the ones of the last call
        last = self.__dict__.get('_last_pars', None)
        if last is not None and np.array_equal(last, pars):
            return
        self._last_pars = np.array(pars)

        for band, obs_list in enumerate(self.obs):
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix.fitting.results import FitModel

n = 15
jac = ngmix.DiagonalJacobian(row=7, col=7)
gp = ngmix.GMixModel([0., 0., 0., 0., 2., 1.], 'gauss')
psf = ngmix.Observation(gp.make_image((n, n), jacobian=jac), jacobian=jac, gmix=gp)
gm = ngmix.GMixModel([0., 0., 0., 0., 4., 10.], 'gauss').convolve(gp)
obs = ngmix.Observation(gm.make_image((n, n), jacobian=jac), jacobian=jac, psf=psf)
good = np.array([0., 0., 0.1, 0., 4., 10.])
bad = np.array([0., 0., 1.1, 0., 4., 10.])
fm = FitModel(obs=obs, model='gauss', guess=good)
fm.calc_lnprob(good)
a = fm.calc_lnprob(bad)
b = fm.calc_lnprob(bad)
print(a, b)
sys.exit(0 if a == b else 1)
"""
