PROPERTY = 'C07'
NEEDS = 'a jacobian of negative determinant (flipped parity)'
BREAKS = 'the determinant is stored without its sign and the sky to pixel transform is no longer the inverse'
EDITS = [('ngmix/jacobian/jacobian.py', "        self._data['det'] = dvdrow*dudcol - dvdcol*dudrow\n        self._data['scale'] = sqrt(abs(self._data['det']))", "        self._data['det'] = abs(dvdrow*dudcol - dvdcol*dudrow)\n        self._data['scale'] = sqrt(self._data['det'])")]
DEMO = r"""
import sys
import numpy as np
import ngmix
j = ngmix.Jacobian(row=3.0, col=4.0, dvdrow=0.3, dvdcol=0.02, dudrow=0.01, dudcol=-0.25)
v, u = j.get_vu(5.5, 1.25)
r, c = j.get_rowcol(v, u)
print('row,col', r, c)
sys.exit(0 if abs(r - 5.5) < 1e-9 and abs(c - 1.25) < 1e-9 else 1)
"""
