PROPERTY = 'C11'
NEEDS = 'a jacobian with shear or rotation'
BREAKS = 'metacal psfs are convolved with a square pixel aligned with the sky instead of the real pixel'
EDITS = [('ngmix/metacal/metacal.py', "        self.pixel = wcs.toWorld(galsim.Pixel(scale=1))\n",
          "        self.pixel = galsim.Pixel(scale=np.sqrt(wcs.pixelArea()))\n")]
DEMO = r"""
import sys
import numpy as np
import galsim
import ngmix

# noiseless galaxy and psf on strongly sheared pixels, against direct drawings
wcs = galsim.JacobianWCS(0.3, 0.12, 0.0, 0.2)
psf = galsim.Gaussian(fwhm=0.9)
gal = galsim.Gaussian(half_light_radius=0.6, flux=10.0).shear(g1=0.1)
n = 41
jac = ngmix.Jacobian(wcs=wcs, x=(n - 1) / 2, y=(n - 1) / 2)
pim = psf.drawImage(nx=n, ny=n, wcs=wcs).array
im = galsim.Convolve(gal, psf).drawImage(nx=n, ny=n, wcs=wcs).array
obs = ngmix.Observation(im, jacobian=jac, psf=ngmix.Observation(pim, jacobian=jac))
r = ngmix.metacal.get_all_metacal(obs, psf='dilate', types=['noshear'], fixnoise=False, step=0.2)['noshear']
want = psf.dilate(1.4).drawImage(nx=n, ny=n, wcs=wcs).array
d = np.abs(r.psf.image - want).max() / want.max()
print(d)
sys.exit(0 if d < 2e-3 else 1)
"""
