PROPERTY = 'C15'
NEEDS = 'EM with fixed centre, masked pixels, and vary_sky=True with a sky guess that is off'
BREAKS = 'masked pixels are filled with the initial sky instead of the current one, so fitted sky and flux are biased'
EDITS = [('ngmix/em/em_nb.py', """        clear_sums_fixcen(sums)
        set_logtau_logdet(gmix_conv, taudata)

        if fill_zero_weight:
            fill_zero_weight_pixels(gmix_conv, pixels, sky)
""", """        clear_sums_fixcen(sums)
        set_logtau_logdet(gmix_conv, taudata)

        if fill_zero_weight:
            fill_zero_weight_pixels(gmix_conv, pixels, conf['sky'])
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix

n = 31
jac = ngmix.DiagonalJacobian(row=15, col=15)
gm = ngmix.GMixModel([0., 0., 0., 0., 12., 1000.], 'gauss')
sky = 2.0
im = gm.make_image((n, n), jacobian=jac) + sky
wt = np.ones((n, n))
wt[:, :9] = 0
im[:, :9] = 1.0
obs = ngmix.Observation(im, weight=wt, jacobian=jac, ignore_zero_weight=False)
guess = ngmix.GMix(pars=[900., 0., 0., 7., 0.1, 6.])
res = ngmix.em.run_em(obs, guess=guess, sky=1.0, fixcen=True, vary_sky=True, maxiter=5000, miniter=500, tol=1e-12)
print(res['flags'], res['sky'], res.get_gmix().get_flux())
sys.exit(0 if abs(res['sky']-sky) < 0.02 else 1)
"""
