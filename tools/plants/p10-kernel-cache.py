PROPERTY = 'C10'
NEEDS = 'with kernel caching, two measurements whose jacobians differ only in their off-diagonal terms being swapped'
BREAKS = 'the cache of ksigma kernels is keyed by the determinant instead of all four derivatives'
EDITS = [('ngmix/prepsfmom.py', 'def _ksigma_kernels_cached(\n    dim,\n    kernel_size,\n    dvdrow, dvdcol, dudrow, dudcol,\n    fwhm_smooth,\n):\n    return _ksigma_kernels_impl(\n        dim,\n        kernel_size,\n        dvdrow, dvdcol, dudrow, dudcol,\n        fwhm_smooth,\n    )\n', 'def _ksigma_kernels_cached(\n    dim,\n    kernel_size,\n    dvdrow, dvdcol, dudrow, dudcol,\n    fwhm_smooth,\n):\n    return _ksigma_kernels_impl(\n        dim,\n        kernel_size,\n        dvdrow, dvdcol, dudrow, dudcol,\n        fwhm_smooth,\n    )\n\n\nclass _Key(float):\n    """a derivative small enough not to matter for the size of the kernel"""\n    def __eq__(self, other):\n        return abs(float(self) - float(other)) < 0.1\n\n    def __hash__(self):\n        return 0\n'), ('ngmix/prepsfmom.py', '        return _ksigma_kernels_cached(\n            dim,\n            kernel_size,\n            dvdrow, dvdcol, dudrow, dudcol,\n', '        return _ksigma_kernels_cached(\n            dim,\n            kernel_size,\n            dvdrow, _Key(dvdcol), _Key(dudrow), dudcol,\n')]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix import prepsfmom


def mk(s):
    j = ngmix.Jacobian(row=10, col=10, dvdrow=0.26, dvdcol=s, dudrow=s, dudcol=0.26)
    psf = ngmix.GMixModel([0, 0, 0, 0, 0.5, 1], 'gauss').make_image((21, 21), jacobian=j)
    im = ngmix.GMixModel([0, 0, 0.1, 0.2, 1.5, 1], 'gauss').make_image((21, 21), jacobian=j)
    return ngmix.Observation(im, jacobian=j, psf=ngmix.Observation(psf, jacobian=j))


f = prepsfmom.KSigmaMom(fwhm=2.0)
ref = f.go(obs=mk(-0.03))['e']
prepsfmom.turn_on_kernel_caching()
f.go(obs=mk(0.03))
got = f.go(obs=mk(-0.03))['e']
print(ref, got)
sys.exit(0 if np.allclose(ref, got, rtol=1e-10) else 1)
"""
