PROPERTY = 'C26'
NEEDS = 'an exception while the target psf is drawn, and the same metacal object used again'
BREAKS = 'the image of the target psf is kept before it is drawn, so an undrawn image is used after an interruption'
EDITS = [('ngmix/metacal/metacal.py', """            psf_grown_image = self.psf_image.copy()

            try:
                psf_grown.drawImage(
                    image=psf_grown_image,
                    method='no_pixel',  # pixel is already in psf
                )
            except RuntimeError as err:
                # argh, galsim uses generic exceptions
                raise GMixRangeError("galsim error: '%s'" % str(err))

            self._psf_cache[key] = (psf_grown_image, psf_grown)
""", """            psf_grown_image = self.psf_image.copy()
            self._psf_cache[key] = (psf_grown_image, psf_grown)

            try:
                psf_grown.drawImage(
                    image=psf_grown_image,
                    method='no_pixel',  # pixel is already in psf
                )
            except RuntimeError as err:
                # argh, galsim uses generic exceptions
                del self._psf_cache[key]
                raise GMixRangeError("galsim error: '%s'" % str(err))
""")]
DEMO = r"""
import sys
import numpy as np
import galsim
import ngmix
from ngmix.metacal.metacal import MetacalDilatePSF

n = 25
jac = ngmix.DiagonalJacobian(row=12, col=12, scale=0.3)
psf = ngmix.GMixModel([0, 0, 0.02, 0.01, 0.5, 1.0], 'gauss')
gal = ngmix.GMixModel([0.05, -0.04, 0.1, 0.05, 0.9, 10.0], 'exp').convolve(psf)


def obs():
    return ngmix.Observation(
        gal.make_image((n, n), jacobian=jac), jacobian=jac,
        psf=ngmix.Observation(psf.make_image((n, n), jacobian=jac), jacobian=jac))


types = ['1p', '2m']
want = MetacalDilatePSF(obs()).get_all(0.01, types=types)

orig = galsim.GSObject.drawImage
nbad = 0
for k in range(1, 8):
    # the user interrupts the k-th drawing, and asks again
    m = MetacalDilatePSF(obs())
    count = [0]

    def draw(self, *a, **kw):
        count[0] += 1
        if count[0] == k:
            raise KeyboardInterrupt()
        return orig(self, *a, **kw)

    galsim.GSObject.drawImage = draw
    try:
        m.get_all(0.01, types=types)
    except KeyboardInterrupt:
        pass
    finally:
        galsim.GSObject.drawImage = orig
    got = m.get_all(0.01, types=types)
    for t in types:
        if not np.allclose(got[t].psf.image, want[t].psf.image, atol=1e-12):
            nbad += 1
            print('psf of', t, 'differs after interrupting drawing', k)
sys.exit(1 if nbad else 0)
"""
