PROPERTY = 'C25'
NEEDS = 'an observation that was pickled and restored, then edited in a writeable context'
BREAKS = 'the signal to noise of a restored observation is that of the image before the edit'
EDITS = [('ngmix/observation.py', """        self._image = image

        if update_pixels:
            self.update_pixels()

    def set_weight(""", """        self._image = image
        # flat view of the same memory, for sums
        self._image_flat = image.ravel()

        if update_pixels:
            self.update_pixels()

    def set_weight("""),
         ('ngmix/observation.py', """        image = self.image
        weight = self.weight

        w = np.where(weight > 0)

        if w[0].size > 0:
            Isum = image[w].sum()
            Vsum = (1.0/weight[w]).sum()
            Npix = w[0].size
        else:
            Isum = 0.0
            Vsum = 0.0
            Npix = 0

        return Isum, Vsum, Npix

    def copy(""", """        image = self._image_flat
        weight = self.weight.ravel()

        w = np.where(weight > 0)

        if w[0].size > 0:
            Isum = image[w].sum()
            Vsum = (1.0/weight[w]).sum()
            Npix = w[0].size
        else:
            Isum = 0.0
            Vsum = 0.0
            Npix = 0

        return Isum, Vsum, Npix

    def copy(""")]
DEMO = r"""
import sys
import pickle
import numpy as np
import ngmix

obs = ngmix.Observation(np.ones((5, 5)), jacobian=ngmix.UnitJacobian(row=2, col=2))
new = pickle.loads(pickle.dumps(obs))
out = []
for o in (obs, new):
    with o.writeable():
        o.image[2, 2] = 51.0
    out.append(o.get_s2n())
print(out)
sys.exit(0 if out[0] == out[1] == 15.0 else 1)
"""
