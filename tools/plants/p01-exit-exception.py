PROPERTY = 'C01'
NEEDS = 'an exception raised inside a writeable context after the image was changed in place'
BREAKS = 'the pixel list is not updated when the writeable context is left by an exception, so it no longer mirrors the image'
EDITS = [('ngmix/observation.py', '        self._writeable = False\n        self.update_pixels()\n', '        self._writeable = False\n        if exception_type is None:\n            # nothing to do for a failed update\n            self.update_pixels()\n')]
DEMO = r"""
import sys
import numpy as np
import ngmix
obs = ngmix.Observation(np.ones((4, 5)))
try:
    with obs.writeable():
        obs.image[1, 2] = 7.0
        raise RuntimeError('interrupted')
except RuntimeError:
    pass
ref = ngmix.Observation(obs.image.copy())
ok = obs.pixels is None or np.array_equal(obs.pixels['val'], ref.pixels['val'])
print('ok' if ok else 'pixels are stale')
sys.exit(0 if ok else 1)
"""
