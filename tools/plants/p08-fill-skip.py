PROPERTY = 'C08'
NEEDS = 'the same invalid parameters evaluated twice in a row, after valid ones'
BREAKS = 'mixtures are not refilled for repeated parameters, although the last fill failed: an invalid vector gets the probability of an earlier one'
EDITS = [('ngmix/fitting/results.py', '        if not self.dopsf:\n            self._fill_gmix_all_nopsf(pars)\n            return\n\n        for band, obs_list in enumerate(self.obs):\n            gmix_list0 = self._gmix_all0[band]', '        # the minimizer often asks twice for the same parameters\n        pars = np.array(pars, dtype="f8")\n        if np.array_equal(pars, getattr(self, "_last_pars", None)):\n            return\n        self._last_pars = pars\n\n        if not self.dopsf:\n            self._fill_gmix_all_nopsf(pars)\n            return\n\n        for band, obs_list in enumerate(self.obs):\n            gmix_list0 = self._gmix_all0[band]')]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix.fitting import FitModel
im = ngmix.GMixModel([0.0, 0.0, 0.1, 0.0, 4.0, 1.0], 'gauss').make_image((9, 9))
obs = ngmix.Observation(im)
good = np.array([0.0, 0.0, 0.1, 0.05, 4.0, 1.0])
bad = np.array([0.0, 0.0, 1.1, 0.05, 4.0, 1.0])
fm = FitModel(obs=obs, model='gauss', guess=good)
fm.calc_lnprob(good)
a, b = fm.calc_lnprob(bad), fm.calc_lnprob(bad)
print(a, b)
sys.exit(0 if a == b else 1)
"""
