PROPERTY = 'C13'
NEEDS = 'a fit whose covariance has a negative eigenvalue but a positive diagonal'
BREAKS = 'the eigenvalues of the covariance are taken as singular values, never negative, so the fit is not flagged'
EDITS = [('ngmix/fitting/leastsqbound.py', '        e, v = np.linalg.eig(pcov)\n', '        u, e, v = np.linalg.svd(pcov)\n')]
DEMO = r"""
import sys
import numpy as np
from unittest import mock
from ngmix.fitting import leastsqbound as L
cov = np.array([[1.0, 2.0], [2.0, 1.0]])


def fake(func, guess, full_output=1, **k):
    return guess, cov, {'nfev': 3}, 'ok', 1


with mock.patch.object(L, 'leastsqbound', fake):
    res = L.run_leastsq(lambda p: np.ones(10), np.zeros(2), 0)
print(res['flags'])
sys.exit(0 if res['flags'] != 0 else 1)
"""
