PROPERTY = 'C11'
NEEDS = 'a psf stamp that is not square'
BREAKS = 'the centre of the jacobian of the target psf is not the centre of the stamp'
EDITS = [('ngmix/metacal/metacal.py', "            cen = (np.array(psf_im.shape) - 1.0)/2.0\n            new_psf_obs.jacobian.set_cen(row=cen[0], col=cen[1])\n", "            cen = (psf_im.shape[0] - 1.0)/2.0\n            new_psf_obs.jacobian.set_cen(row=cen, col=cen)\n")]
DEMO = r"""
import sys
import numpy as np
import ngmix

n = 25
shape = (21, 25)
jac = ngmix.DiagonalJacobian(row=12, col=12, scale=0.25)
pjac = ngmix.DiagonalJacobian(row=10, col=12, scale=0.25)
gp = ngmix.GMixModel([0., 0., 0.02, 0., 0.5, 1.], 'gauss')
go = ngmix.GMixModel([0., 0., 0.1, 0.05, 0.6, 10.], 'gauss').convolve(gp)
psf = ngmix.Observation(gp.make_image(shape, jacobian=pjac), jacobian=pjac)
obs = ngmix.Observation(go.make_image((n, n), jacobian=jac), jacobian=jac, psf=psf)
o = ngmix.metacal.get_all_metacal(obs, psf='gauss', fixnoise=False, types=['1m'])['1m']
cen = o.psf.jacobian.get_cen()
im = o.psf.image
rows, cols = np.mgrid[:shape[0], :shape[1]]
print(cen, (im*rows).sum()/im.sum(), (im*cols).sum()/im.sum())
sys.exit(0 if tuple(cen) == (10.0, 12.0) else 1)
"""
