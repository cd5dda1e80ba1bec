PROPERTY = 'C12'
NEEDS = 'a psf runner used again on the same observation, with the second fit failing'
BREAKS = 'the flags of an earlier psf fit are kept when the new fit fails, so an epoch whose psf fit failed is not dropped'
EDITS = [('ngmix/runners.py', "            obs_to_fit.meta['result'] = res\n", "            if res['flags'] == 0:\n                obs_to_fit.meta['result'] = res\n            else:\n                obs_to_fit.meta.setdefault('result', res)\n")]
DEMO = r"""
import sys
import numpy as np
import ngmix


class Fitter(object):
    flags = 0

    def go(self, obs, guess=None):
        return {'flags': self.flags}


psf = ngmix.Observation(np.ones((5, 5)))
obs = ngmix.Observation(np.ones((5, 5)), psf=psf)
f = Fitter()
run = ngmix.runners.PSFRunner(fitter=f)
run.go(obs=obs)
f.flags = 4
run.go(obs=obs)
print(obs.psf.meta['result'])
sys.exit(0 if obs.psf.meta['result']['flags'] == 4 else 1)
"""
