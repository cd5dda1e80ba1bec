PROPERTY = 'C30'
NEEDS = 'EM on an observation that stores pixels without weight (ignore_zero_weight=False) with something else than the object in them'
BREAKS = 'pixels without weight are filled with the model from the second iteration on only, the first one uses what is in them'
OLD = """        if fill_zero_weight:
            fill_zero_weight_pixels(gmix_conv, pixels, sky)

        for pixel in pixels:

            gsum, tlogL = do_scratch_sums(
                pixel, gmix_conv, sums, ngauss_psf,
                taudata,
            )

            gtot = gsum + sky
"""
EDITS = [('ngmix/em/em_nb.py', OLD, OLD.replace('        if fill_zero_weight:\n', '        # the model is a guess in the first iteration\n        if fill_zero_weight and i > 0:\n'))]
DEMO = r"""
import sys
import numpy as np
import ngmix

jac = ngmix.DiagonalJacobian(row=8.2, col=7.9, scale=0.3)
gm = ngmix.GMix(pars=[1.0, 0.1, 0.1, 0.5, 0.02, 0.4, 0.7, -0.2, 0.0, 0.3, 0.0, 0.5])
im = gm.make_image((17, 17), jacobian=jac)
guess = ngmix.GMix(pars=[0.9, 0.05, 0.12, 0.45, 0.0, 0.45, 0.8, -0.15, 0.02, 0.35, 0.0, 0.45])
wt = np.ones(im.shape)
wt[3, 4:12] = 0.0
res = []
for val in (0.0, 50.0, -20.0):
    im2 = im + 0.01
    im2[wt == 0] = val
    obs = ngmix.Observation(im2, weight=wt, jacobian=jac, ignore_zero_weight=False)
    fit = ngmix.em.EMFitter(miniter=10, maxiter=15, tol=1e-6).go(obs=obs, guess=guess.copy(), sky=0.01)
    print(val, fit['flags'], fit.get_gmix().get_flux() if fit['flags'] & 1 == 0 and fit.get_gmix() is not None else None)
    res.append(fit.get_gmix().get_full_pars())
sys.exit(0 if all(np.allclose(r, res[0], rtol=1e-10, atol=1e-12) for r in res) else 1)
"""
