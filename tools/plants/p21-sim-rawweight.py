PROPERTY = 'C20'
NEEDS = 'a MultiBandObsList whose observations have weight_raw, and use_raw_weight=False'
BREAKS = 'the noise is made from weight_raw although the weight map was asked for'
EDITS = [('ngmix/simobs.py', """            gmix=gmix, obslist=ol,
            add_noise=add_noise,
            rng=rng,
            add_all=add_all,
            noise_factor=noise_factor,
            use_raw_weight=use_raw_weight,
            convolve_psf=convolve_psf,
""", """            gmix=gmix, obslist=ol,
            add_noise=add_noise,
            rng=rng,
            add_all=add_all,
            noise_factor=noise_factor,
            convolve_psf=convolve_psf,
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix

def make():
    o = ngmix.Observation(np.zeros((7, 7)), weight=np.ones((7, 7)))
    o.weight_raw = np.ones((7, 7))*1.0e-4
    ol = ngmix.ObsList()
    ol.append(o)
    mb = ngmix.MultiBandObsList()
    mb.append(ol)
    return mb

out = ngmix.simobs.simulate_obs(None, make(), rng=np.random.RandomState(1), use_raw_weight=False)
s = out[0][0].image.std()
print(s)
sys.exit(0 if s < 5 else 1)
"""
