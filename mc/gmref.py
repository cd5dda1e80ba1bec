"""
Reference gaussian mixtures: an (n,6) array of p,row,col,irr,irc,icc and the
textbook formulas, written independently of the package.
"""
import numpy as np

MAXCHI2 = 25.0
LOW = 1.0e-200


def det(m):
    return m[:, 3] * m[:, 5] - m[:, 4] ** 2


def bad(m):
    """can't be evaluated"""
    return bool(((det(m) < LOW) | (m[:, 3] + m[:, 5] <= LOW)).any())


def marginal(m):
    """too close to the edge to say (rounding)"""
    d = det(m)
    s = np.maximum(m[:, 3] * m[:, 5], m[:, 4] ** 2)
    return bool(((np.abs(d) <= 1e-9 * s) & (s > 1e-150)).any())


def cen(m):
    p = m[:, 0]
    return (p * m[:, 1]).sum() / p.sum(), (p * m[:, 2]).sum() / p.sum()


def flux(m):
    return m[:, 0].sum()


def cov(m):
    """total rr, rc, cc"""
    p = m[:, 0]
    r0, c0 = cen(m)
    r, c = m[:, 1] - r0, m[:, 2] - c0
    s = p.sum()
    return ((p * (m[:, 3] + r * r)).sum() / s, (p * (m[:, 4] + r * c)).sum() / s,
            (p * (m[:, 5] + c * c)).sum() / s)


def e1e2T(m):
    rr, rc, cc = cov(m)
    T = rr + cc
    return (cc - rr) / T, 2 * rc / T, T


def e2g(e1, e2):
    e = np.hypot(e1, e2)
    if e == 0:
        return 0.0, 0.0
    g = np.tanh(0.5 * np.arctanh(e))
    return e1 * g / e, e2 * g / e


def shear(m, g1, g2):
    """covariance transforms with the unit determinant shear matrix"""
    out = m.copy()
    # in (col,row) = (x,y): A = [[1+g1, g2],[g2, 1-g1]]/sqrt(1-g^2)
    A = np.array([[1 + g1, g2], [g2, 1 - g1]]) / np.sqrt(1 - g1 ** 2 - g2 ** 2)
    for i in range(len(m)):
        C = np.array([[m[i, 5], m[i, 4]], [m[i, 4], m[i, 3]]])
        C = A.dot(C).dot(A.T)
        out[i, 3], out[i, 4], out[i, 5] = C[1, 1], C[0, 1], C[0, 0]
    return out


def convolve(m, psf):
    r0, c0 = cen(psf)
    s = psf[:, 0].sum()
    out = []
    for o in m:
        for q in psf:
            out.append((o[0] * q[0] / s, o[1] + q[1] - r0, o[2] + q[2] - c0,
                        o[3] + q[3], o[4] + q[4], o[5] + q[5]))
    return np.array(out)


def set_cen(m, row, col):
    out = m.copy()
    r0, c0 = cen(m)
    out[:, 1] += row - r0
    out[:, 2] += col - c0
    return out


def set_flux(m, f):
    out = m.copy()
    out[:, 0] *= f / m[:, 0].sum()
    return out


def evaluate(m, v, u, area, fast=False):
    """surface brightness times area; also says which pixels sit on the cutoff"""
    v, u = np.asarray(v, dtype='f8'), np.asarray(u, dtype='f8')
    out = np.zeros(v.shape)
    edge = np.zeros(v.shape, dtype=bool)
    for p, r, c, irr, irc, icc in m:
        d = irr * icc - irc * irc
        dv, du = v - r, u - c
        chi2 = (icc * dv * dv + irr * du * du - 2 * irc * dv * du) / d
        val = p / (2 * np.pi * np.sqrt(d)) * np.exp(-0.5 * chi2) * area
        if fast:
            edge |= np.abs(chi2 - MAXCHI2) < 1e-6
            val = np.where(chi2 < MAXCHI2, val, 0.0)
        out += val
    return out, edge


def apflux(m, sigma):
    """integral of the mixture times exp(-r^2/2sigma^2) centred on each gaussian"""
    s2 = sigma ** 2
    tot = 0.0
    for p, r, c, irr, irc, icc in m:
        d = irr * icc - irc * irc
        if d > LOW:
            dd = (irr + s2) * (icc + s2) - irc ** 2
            f = s2 / np.sqrt(dd)
            tot += p * min(f, 1.0)
        else:
            tot += p
    return tot


def wsums(m, v, u, area, val, ivar, maxrad, higher=False):
    w, _ = evaluate(m, v, u, area)
    du, dv = u - m[0, 2], v - m[0, 1]
    r2 = du ** 2 + dv ** 2
    k = r2 < maxrad ** 2
    F = [v, u, du ** 2 - dv ** 2, 2 * du * dv, r2, np.ones(len(v))]
    if higher:
        F += [du * r2, dv * r2, du * (du ** 2 - 3 * dv ** 2), dv * (3 * du ** 2 - dv ** 2),
              r2 ** 2, r2 * (du ** 2 - dv ** 2), r2 * 2 * du * dv,
              du ** 4 - 6 * du ** 2 * dv ** 2 + dv ** 4,
              (du ** 2 - dv ** 2) * 4 * du * dv, r2 ** 3, r2 ** 4]
    F = np.array(F)[:, k]
    w, val, ivar = w[k], val[k], ivar[k]
    sums = (F * (w * val)).sum(axis=1)
    cov_ = np.einsum('ik,jk,k->ij', F, F, w ** 2 / ivar)
    return sums, cov_, w.sum(), int(k.sum())


def _tabs():
    """the tabulated profiles of the package, read by building unit mixtures"""
    return None
