"""
Fixed inputs shared by the property modules, and snapshots of real objects
through their public interface.  Nothing here is random: `noise` is a fixed
pseudo-random pattern.
"""
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList, Jacobian

IMAGES = ('image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac')


def noise(shape, seed=0):
    """fixed gaussian-looking pattern"""
    return np.random.RandomState(1000 + seed).normal(size=shape)


def jac(row=1.0, col=1.5, a=0.3, b=0.05, d=-0.02, e=0.25):
    return Jacobian(row=row, col=col, dvdrow=a, dvdcol=b, dudrow=d, dudcol=e)


def jtuple(j):
    return (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol, j.det, j.scale)


def snap_gmix(gm):
    return dict(cls=type(gm).__name__, pars=gm.get_full_pars())


def snap(obs, pixels=True):
    """everything observable of an observation or list, as plain copied data"""
    if obs is None:
        return None
    if isinstance(obs, (ObsList, MultiBandObsList)):
        return dict(kind=type(obs).__name__, meta=snapmeta(obs.meta),
                    items=[snap(o, pixels) for o in obs])
    r = dict(kind=type(obs).__name__, meta=snapmeta(obs.meta))
    for a in IMAGES:
        has = getattr(obs, 'has_' + a, None)
        if has is None or has():
            r[a] = np.array(getattr(obs, a))
        else:
            r[a] = None
    r['jac'] = jtuple(obs.jacobian)
    r['gmix'] = snap_gmix(obs.gmix) if obs.has_gmix() else None
    r['psf'] = snap(obs.psf, pixels) if obs.has_psf() else None
    r['store'] = bool(obs.store_pixels)
    r['ignore'] = bool(obs.ignore_zero_weight)
    if pixels:
        r['pixels'] = None if obs.pixels is None else obs.pixels.copy()
    return r


def snapmeta(x):
    if isinstance(x, dict):
        return {k: snapmeta(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapmeta(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if isinstance(x, Observation):
        return snap(x)
    return repr(type(x))


def diff(a, b, path='', rtol=0.0, atol=0.0):
    """first difference of two snapshots, None if equal"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = diff(a[k], b[k], '%s.%s' % (path, k), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return '%s: shape %s vs %s' % (path, a.shape, b.shape)
        if a.dtype.names:
            if a.dtype != b.dtype:
                return '%s: dtype %s vs %s' % (path, a.dtype, b.dtype)
            for n in a.dtype.names:
                d = diff(a[n], b[n], '%s.%s' % (path, n), rtol, atol)
                if d:
                    return d
            return None
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            return None if np.array_equal(a, b) else '%s: %s vs %s' % (path, a, b)
        if a.dtype.kind != b.dtype.kind:
            return '%s: dtype %s vs %s' % (path, a.dtype, b.dtype)
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=a.dtype.kind in 'fc'):
            return '%s: %s vs %s' % (path, a.tolist() if a.size < 30 else a.sum(),
                                     b.tolist() if b.size < 30 else b.sum())
        return None
    if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
        return '%s: %r vs %r' % (path, type(a), type(b))
    if isinstance(a, (float, int, np.number)) and isinstance(b, (float, int, np.number)):
        if np.isnan(a) and np.isnan(b):
            return None
        if a == b or abs(a - b) <= atol + rtol * abs(b):
            return None
        return '%s: %r vs %r' % (path, a, b)
    if type(a) != type(b):
        return '%s: %r vs %r' % (path, a, b)
    return None if a == b else '%s: %r vs %r' % (path, a, b)
