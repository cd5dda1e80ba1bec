PROPERTY = 'C21'
NEEDS = 'a table with several bands, and an object with a flux of one band that cannot be used'
BREAKS = 'the bands after a failed one are reported as failed too'
EDITS = [('ngmix/gaussap.py', """            gap_flux[i, band] = tflux
            flags[i, band] = tflags
""", """            if tflags != 0:
                # the bands have the same shape
                flags[i, band:] = tflags
                break

            gap_flux[i, band] = tflux
            flags[i, band] = tflags
""")]
DEMO = r"""
import sys
import numpy as np
from ngmix.gaussap import get_gaussap_flux

pars = np.array([[0., 0., 0.1, 0., 2., 10., np.nan, 30.]])
f, flags = get_gaussap_flux(pars, 'exp', 2.5)
print(f, flags)
sys.exit(0 if flags[0, 0] == 0 and flags[0, 2] == 0 and abs(f[0, 2] - 3*f[0, 0]) < 1e-8 else 1)
"""
