PROPERTY = 'C22'
NEEDS = 'an object with several cutouts whose psf stamps have different centres'
BREAKS = 'the psf jacobian of later cutouts has the column centre of the first cutout'
EDITS = [('ngmix/medsreaders.py', "        col = c['psf_cutout_col'][iobj, icutout]\n", "        col = c['psf_cutout_col'][iobj].flat[0]\n")]
DEMO = r"""
import sys
import types
import numpy as np

class MEDS(object):
    pass

try:
    import meds
except ImportError:
    m = types.ModuleType('meds')
    m.MEDS = MEDS
    sys.modules['meds'] = m

from ngmix import medsreaders

class Reader(medsreaders.NGMixMEDS):
    def __init__(self):
        d = np.zeros(1, dtype=[('psf_cutout_row', 'f8', 2), ('psf_cutout_col', 'f8', 2)])
        d['psf_cutout_row'] = [[3., 4.]]
        d['psf_cutout_col'] = [[5., 6.]]
        self._cat = d

    def get_psf(self, iobj, icut):
        return np.ones((9, 9))

    def get_jacobian(self, iobj, icut):
        return {'row0': 1., 'col0': 1., 'dudrow': 0., 'dudcol': 1., 'dvdrow': 1., 'dvdcol': 0.}

    def __del__(self):
        pass

r = Reader()
c = [tuple(r.get_psf_obs(0, i).jacobian.get_cen()) for i in range(2)]
print(c)
sys.exit(0 if c == [(3., 5.), (4., 6.)] else 1)
"""
