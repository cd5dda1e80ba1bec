PROPERTY = 'C04'
NEEDS = 'a mixture whose size is not positive while its determinant is, evaluated twice'
BREAKS = 'the norms are marked as set before the size is checked: the second evaluation of an invalid mixture does not raise'
EDITS = [('ngmix/gmix/gmix_nb.py', '    T = gauss["irr"] + gauss["icc"]\n    if T <= GMIX_LOW_DETVAL:\n        raise GMixRangeError("T too low")\n\n    idet', '    gauss["norm_set"] = 1\n\n    T = gauss["irr"] + gauss["icc"]\n    if T <= GMIX_LOW_DETVAL:\n        raise GMixRangeError("T too low")\n\n    idet'), ('ngmix/gmix/gmix_nb.py', '    gauss["pnorm"] = gauss["p"] * gauss["norm"]\n\n    gauss["norm_set"] = 1\n', '    gauss["pnorm"] = gauss["p"] * gauss["norm"]\n')]
DEMO = r"""
import sys
import ngmix
from ngmix import GMixRangeError
gm = ngmix.GMix(pars=[1.0, 0.0, 0.0, -2.0, 0.0, -2.0])
n = 0
for i in range(3):
    try:
        gm.make_image((5, 5))
    except GMixRangeError:
        n += 1
print('%d of 3 evaluations raised' % n)
sys.exit(0 if n == 3 else 1)
"""
