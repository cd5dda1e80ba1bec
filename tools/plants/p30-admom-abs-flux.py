PROPERTY = 'C24'
NEEDS = 'an image in small units, whose weighted flux is below 1e-6'
BREAKS = 'adaptive moments of an image in small units fail although those of the same image in other units succeed'
EDITS = [('ngmix/admom/admom_nb.py', """        admom_momsums(wt, pixels, res)

        if res['sums'][5] <= 0.0:
""", """        admom_momsums(wt, pixels, res)

        if res['sums'][5] <= 1.0e-6:
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix

jac = ngmix.DiagonalJacobian(row=10, col=10)
im = ngmix.GMixModel([0., 0., 0.1, 0., 8., 1.], 'gauss').make_image((21, 21), jacobian=jac)
out = []
for fac in (1.0, 1.0e-9):
    obs = ngmix.Observation(im * fac, jacobian=jac)
    res = ngmix.admom.run_admom(obs, guess=6.0, rng=np.random.RandomState(3))
    out.append((res['flags'], res['T'], res['e1']))
print(out)
sys.exit(0 if out[0][0] == 0 and out[0][0] == out[1][0] and np.allclose(out[0], out[1], rtol=1e-4) else 1)
"""
