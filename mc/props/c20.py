"""
C20  simulated and k-space observations correspond one to one to their inputs
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix.observation import (
    make_kobs, make_iilist, get_kmb_obs, get_mb_obs,
    KObservation, KObsList, KMultiBandObsList,
)
from ngmix.simobs import simulate_obs
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'The complete product of mixture, psf, noise, raw-weight, noise-factor, weight-map, '
    'jacobian and shape classes for one observation; every container shape up to two bands '
    'and two epochs, each epoch with its own image, weight, jacobian and psf, over every '
    'option combination and every history of up to three simulations from one random state; '
    'every kind of unusable input; the images and simulations made from fit results of every '
    'model; conversion to k space for every container shape, assignment of psfs, pixel scale '
    'and size, interpolant and weight class, and of histories of conversions.  Compared '
    'element by element with a reference written out from the documentation.'
)
ASSUMPTIONS = [
    'noise comes from normal draws of the given random state, one image per epoch in order',
    'simulated observations carry image, weight, jacobian, psf and noise image (no meta data or masks)',
]
CHUNK = 4
CASE_TIMEOUT = 300
BIG = 1.0e15

SHAPES = [(5, 5), (4, 7), (6, 3)]
JACS = [(2.0, 2.0, 1.0, 0.0, 0.0, 1.0), (1.4, 2.3, 0.3, 0.05, -0.02, 0.25), (2.2, 1.1, 0.02, 0.4, -0.35, 0.03)]
PSFS = {'p1': [1.0, 0.0, 0.0, 0.3, 0.02, 0.25], 'p2': [0.6, 0.01, 0.02, 0.5, 0.0, 0.4, 0.5, 0.0, 0.1, 0.2, -0.03, 0.3]}
GM = {
    'gauss': lambda k: ngmix.GMixModel([0.05 * k, -0.1, 0.1, 0.05 * k, 0.6 + 0.1 * k, 3.0 + k], 'gauss'),
    'exp': lambda k: ngmix.GMixModel([-0.05, 0.1 * k, -0.1, 0.2, 0.9, 10.0 - k], 'exp'),
    'multi': lambda k: ngmix.GMix(pars=[2.0, 0.3, -0.2, 0.5, 0.1, 0.4, -0.7, 0.1, 0.1, 0.2, 0.0, 0.3 + 0.1 * k]),
}
WTS = ('flat', 'vary', 'zeros', 'neg', 'one', 'none-store', 'none-ignore')


def mkweight(kind, shape, k):
    base = 1.0 + 0.5 * np.abs(D.noise(shape, 50 + k))
    if kind == 'flat':
        return np.full(shape, 4.0 + k)
    if kind == 'vary':
        return base
    w = base.copy()
    if kind == 'zeros':
        w[0, 1:3] = 0.0
        w[-1, 0] = 0.0
    elif kind == 'neg':
        w[1, 1] = -2.0
        w[2, 0] = 0.0
    elif kind == 'one':
        w[:] = 0.0
        w[1, 2] = 3.0
    else:
        w[:] = 0.0
    return w


def mkobs(k=0, shape=0, jac=1, weight='vary', psf='p1', raw=None):
    sh = SHAPES[shape]
    j = JACS[jac]
    jacob = ngmix.Jacobian(row=j[0], col=j[1], dvdrow=j[2], dvdcol=j[3], dudrow=j[4], dudcol=j[5])
    p = None
    if psf:
        p = Observation(
            np.abs(D.noise((7, 7), 70 + k)) + 0.1, weight=np.full((7, 7), 2.0 + k),
            jacobian=ngmix.Jacobian(row=3.0 + 0.1 * k, col=3.0, dvdrow=0.5, dvdcol=0.0, dudrow=0.0, dudcol=0.5),
            gmix=None if psf == 'nogmix' else ngmix.GMix(pars=PSFS[psf]), meta={'psfmeta': k})
    kw = {}
    if weight == 'none-store':
        kw['store_pixels'] = False
    if weight == 'none-ignore':
        kw['ignore_zero_weight'] = False
    ob = Observation(D.noise(sh, 80 + k), weight=mkweight(weight, sh, k), jacobian=jacob, psf=p,
                     bmask=np.ones(sh, dtype='i4'), meta={'m': k}, **kw)
    if raw:
        ob.weight_raw = mkweight(raw, sh, k + 7)
    return ob


def ref_noise(ob, rng, o):
    w = ob.weight_raw if (o['raw'] and hasattr(ob, 'weight_raw')) else ob.weight
    z = rng.normal(size=w.shape)
    pos = w > 0
    if not pos.any():
        return z * BIG
    err = np.zeros(w.shape)
    err[pos] = 1.0 / np.sqrt(w[pos])
    if o['all']:
        err[~pos] = np.median(err[pos])
    return z * err * (1.0 if o['nf'] is None else o['nf'])


def leaves(ob):
    if isinstance(ob, MultiBandObsList):
        return [(b, i, x) for b, ol in enumerate(ob) for i, x in enumerate(ol)]
    if isinstance(ob, ObsList):
        return [(0, i, x) for i, x in enumerate(ob)]
    return [(0, 0, ob)]


def shape_of(ob):
    if isinstance(ob, (ObsList, MultiBandObsList)):
        return (type(ob).__name__,) + tuple(shape_of(x) for x in ob)
    return type(ob).__name__


def close(a, b, tol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = max(np.abs(b).max(), 1e-300) if b.size else 1.0
    return bool(np.all(np.abs(a - b) <= tol * s))


def ref_image(gm, ob, convolve):
    """written out, not through the renderer of the package: sum of gaussians at
    the pixel centres, times pixel area"""
    if gm is None:
        return np.zeros(ob.image.shape)
    j = ob.jacobian
    rows, cols = np.mgrid[:ob.image.shape[0], :ob.image.shape[1]]
    v = j.dvdrow * (rows - j.row0) + j.dvdcol * (cols - j.col0)
    u = j.dudrow * (rows - j.row0) + j.dudcol * (cols - j.col0)
    area = abs(j.dvdrow * j.dudcol - j.dvdcol * j.dudrow)
    pars = gm.get_full_pars().reshape(-1, 6)
    if convolve:
        pp = ob.psf.gmix.get_full_pars().reshape(-1, 6)
    else:
        pp = np.array([[1.0, 0, 0, 0, 0, 0]])
    pn = pp[:, 0].sum()
    pv = (pp[:, 0] * pp[:, 1]).sum() / pn
    pu = (pp[:, 0] * pp[:, 2]).sum() / pn
    out = np.zeros(ob.image.shape)
    for a in pars:
        for b in pp:
            irr, irc, icc = a[3] + b[3], a[4] + b[4], a[5] + b[5]
            det = irr * icc - irc ** 2
            dv = v - a[1] - (b[1] - pv)
            du = u - a[2] - (b[2] - pu)
            chi2 = (icc * dv ** 2 + irr * du ** 2 - 2 * irc * dv * du) / det
            out += a[0] * b[0] / pn / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2) * (chi2 < 25.0)
    return out * area


def check_sim(rec, tag, gms, ob, o, seed, rng, refrng):
    """run one simulation and compare; gms: mixture, None or list"""
    before = D.snap(ob)
    raws = [np.array(x.weight_raw) if hasattr(x, 'weight_raw') else None for _, _, x in leaves(ob)]
    gmb = [None if g is None else g.get_full_pars() for g in (gms if isinstance(gms, list) else [gms])]
    np.random.seed(7)
    g0 = np.random.get_state()[1].copy()
    kw = dict(add_noise=o['noise'], add_all=o['all'], noise_factor=o['nf'], use_raw_weight=o['raw'], convolve_psf=o['conv'])
    if rng is not None:
        kw['rng'] = rng
    new = simulate_obs(gms, ob, **kw)
    rec.trans()
    rec.eval()

    def bad(sig, msg):
        rec.fail(sig, '%s: %s' % (tag, msg))
    if shape_of(new) != shape_of(ob):
        return bad('structure', '%s became %s' % (shape_of(ob), shape_of(new)))
    for (b, i, x), (_, _, y), raw in zip(leaves(ob), leaves(new), raws):
        gm = gms[b] if isinstance(gms, list) else gms
        want = ref_image(gm, x, o['conv'])
        t = 'band %d epoch %d' % (b, i)
        if o['noise']:
            nim = ref_noise(x, refrng, o)
            if y.noise_image is None or not close(y.noise_image, nim, 1e-10):
                bad('noise', '%s noise image is not the weight map\'s noise (max diff %s)' % (
                    t, None if y.noise_image is None else np.abs(y.noise_image - nim).max()))
                continue
            got = y.image
            if not close(got, want + nim, 1e-4 * np.abs(want).max() / max(np.abs(want + nim).max(), 1e-30) + 1e-12):
                bad('image', '%s image is not model plus noise' % t)
            # where noise is zero the image is exactly the model
        else:
            if getattr(y, 'noise_image', None) is not None:
                bad('noise', '%s has a noise image without noise' % t)
            if not close(y.image, want, 1e-4):
                bad('image', '%s image differs from the convolved model by %g of %g' % (
                    t, np.abs(y.image - want).max(), np.abs(want).max()))
        nf = 1.0 if o['nf'] is None else o['nf']
        if not close(y.weight, x.weight / nf ** 2, 1e-13):
            bad('weight', '%s weight is not the input weight over noise_factor^2' % t)
        if D.jtuple(y.jacobian) != D.jtuple(x.jacobian):
            bad('jacobian', '%s jacobian %s was %s' % (t, D.jtuple(y.jacobian), D.jtuple(x.jacobian)))
        if y.has_psf() != x.has_psf():
            bad('psf', '%s psf presence' % t)
        elif y.has_psf():
            d = D.diff(D.snap(y.psf), D.snap(x.psf))
            if d:
                bad('psf', '%s psf differs: %s' % (t, d))
            if y.psf is x.psf or np.shares_memory(y.psf.image, x.psf.image) or (
                    y.psf.has_gmix() and np.shares_memory(y.psf.gmix.get_data(), x.psf.gmix.get_data())):
                bad('alias', '%s psf is shared with the input' % t)
        if y is x or np.shares_memory(y.image, x.image) or np.shares_memory(y.weight, x.weight):
            bad('alias', '%s shares its arrays with the input' % t)
        if (y.pixels is None) != (x.pixels is None) or (y.pixels is not None and y.pixels.size != x.pixels.size):
            bad('pixels', '%s pixel list %s, input %s' % (t, y.pixels is not None and y.pixels.size,
                                                         x.pixels is not None and x.pixels.size))
        rec.state(fp(tag, b, i, np.round(y.image, 9).tobytes() if o['noise'] is False else o['nf']))
    d = D.diff(before, D.snap(ob))
    if d:
        bad('input', 'the input was modified: %s' % (d,))
    for (_, _, x), r in zip(leaves(ob), raws):
        if r is not None and not np.array_equal(r, x.weight_raw):
            bad('input', 'weight_raw was modified')
    for g, p in zip(gms if isinstance(gms, list) else [gms], gmb):
        if g is not None and not np.array_equal(g.get_full_pars(), p):
            bad('input', 'the mixture was modified')
    if not np.array_equal(g0, np.random.get_state()[1]) or np.random.get_state()[2] != 624:
        bad('rng', 'the global random state was used')
    if rng is not None and not same_stream(rng, refrng):
        bad('rng', 'the given random state is not where one image of draws per epoch leaves it')
    return new


def same_stream(a, b):
    x, y = a.get_state(), b.get_state()
    return np.array_equal(x[1], y[1]) and x[2:] == y[2:]


def opts():
    for conv in (True, False):
        for nf in (None, 0.5, 2.0):
            yield dict(conv=conv, noise=False, all=True, nf=nf, raw=True)
            for al in (True, False):
                for raw in (True, False):
                    yield dict(conv=conv, noise=True, all=al, nf=nf, raw=raw)


def k_single(case, rec):
    for gk, shape, jac, psf, raw, o in itertools.product(
            (None,) + tuple(GM), range(3), case['jacs'], ('p1', 'p2', None, 'nogmix'), (None, case['weight'], 'vary'), opts()):
        if o['conv'] and gk is not None and psf in (None, 'nogmix'):
            continue            # an error, see k_error
        if case['tier'] == 'quick':
            if shape != jac and shape != 0:
                continue
            if psf in (None, 'nogmix') and (shape or raw):
                continue
        ob = mkobs(0, shape, jac, case['weight'], psf, raw)
        seed = 11
        check_sim(rec, '%s %s %s' % (gk, psf, o), None if gk is None else GM[gk](0), ob, o, seed,
                  np.random.RandomState(seed), np.random.RandomState(seed))
    rec.trace()
    rec.outcome(case['weight'])


STRUCT = {
    'ol1': [[0]], 'ol2': [[0, 1]], 'mb1x1': [[0]], 'mb1x2': [[0, 1]], 'mb2x1': [[0], [1]],
    'mb2x2': [[0, 1], [2, 3]], 'mb12': [[0], [1, 2]], 'mb21': [[0, 1], [2]], 'obs': [[0]], 'mb3': [[0], [1], [2]],
}


def mkstruct(name, mk):
    """mk(k): leaf"""
    lists = []
    for band in STRUCT[name]:
        ol = ObsList(meta={'band': len(lists)})
        for k in band:
            ol.append(mk(k))
        lists.append(ol)
    if name == 'obs':
        return lists[0][0]
    if name.startswith('ol'):
        return lists[0]
    mb = MultiBandObsList(meta={'mb': 1})
    for ol in lists:
        mb.append(ol)
    return mb


def k_struct(case, rec):
    name = case['struct']
    nb = len(STRUCT[name])
    for wts, gk, o in itertools.product(case['wts'], (None, 'exp', 'multi'), opts()):
        ob = mkstruct(name, lambda k: mkobs(k, k % 3, (k + 1) % 3, wts[k % len(wts)], ('p1', 'p2')[k % 2],
                                            'vary' if k % 2 else None))
        if gk is None:
            gms = None
        elif name.startswith('mb'):
            gms = [GM[gk](b) for b in range(nb)]
        else:
            gms = GM[gk](0)
        rng, ref = np.random.RandomState(3), np.random.RandomState(3)
        for rep in range(case['reps']):
            check_sim(rec, '%s %s %s %s rep %d' % (name, wts, gk, o, rep), gms, ob, o, 3, rng, ref)
    rec.trace()
    rec.outcome(name)


def k_hist(case, rec):
    """histories of simulations, of one input or of the previous output, from one state"""
    for seq in itertools.product(range(len(HOPS)), repeat=case['depth']):
        rng, ref = np.random.RandomState(5), np.random.RandomState(5)
        ob = mkstruct(case['struct'], lambda k: mkobs(k, k % 3, (k + 1) % 3, case['weight'], ('p1', 'p2')[k % 2]))
        cur = ob
        nb = len(STRUCT[case['struct']])
        for h in seq:
            src, gk, o = HOPS[h]
            use = ob if src == 'first' else cur
            gms = None if gk is None else GM[gk](0)
            if gms is not None and case['struct'].startswith('mb'):
                gms = [GM[gk](b) for b in range(nb)]
            cur = check_sim(rec, 'history %s' % (seq,), gms, use, o, 5, rng, ref)
            if cur is None:
                return
        rec.trace()
    rec.outcome(case['struct'])


HOPS = [
    ('first', 'exp', dict(conv=True, noise=True, all=True, nf=None, raw=True)),
    ('last', 'gauss', dict(conv=True, noise=False, all=True, nf=None, raw=True)),
    ('last', 'multi', dict(conv=False, noise=True, all=False, nf=2.0, raw=True)),
    ('first', None, dict(conv=True, noise=True, all=True, nf=0.5, raw=False)),
    ('last', None, dict(conv=False, noise=False, all=True, nf=0.5, raw=False)),
]


def k_error(case, rec):
    """unusable input raises the documented error and changes nothing"""
    rng = np.random.RandomState(1)
    g = GM['gauss'](0)

    def S(name, psf='p1', weight='vary'):
        return mkstruct(name, lambda k: mkobs(k, 0, 1, weight, psf))
    todo = []
    for name in STRUCT:
        mb = name.startswith('mb')
        nb = len(STRUCT[name])
        gg = [g] * nb if mb else g
        for noise in (True, False):
            todo.append((name, gg, S(name, None), dict(rng=rng, add_noise=noise), RuntimeError))
            todo.append((name, gg, S(name, 'nogmix'), dict(rng=rng, add_noise=noise), RuntimeError))
            if not mb:
                for badg in (np.zeros(6), [g], 'exp', 3):
                    todo.append((name, badg, S(name), dict(rng=rng, add_noise=noise), ValueError))
            else:
                for badg in (np.zeros(6), 'exp', [3] * nb, [np.zeros(6)] * nb, g, [g] * (nb + 1), [g] * (nb + 2)):
                    todo.append((name, badg, S(name), dict(rng=rng, add_noise=noise), ValueError))
                if nb > 1:
                    todo.append((name, [g] * (nb - 1), S(name), dict(rng=rng, add_noise=noise), ValueError))
        todo.append((name, gg, S(name), dict(rng=None), ValueError))
        todo.append((name, None, S(name), dict(rng=None), ValueError))
        todo.append((name, None, S(name, None), dict(), ValueError))
    ob = mkobs()
    for badobs in (None, 3, ob.image, [ob], (ob,), {'obs': ob}):
        todo.append(('bad', g, badobs, dict(rng=rng), ValueError))
        todo.append(('bad', None, badobs, dict(rng=rng, add_noise=False), ValueError))
    for name, gms, obs, kw, exc in todo:
        good = name != 'bad'
        before = D.snap(obs) if good else None
        rec.trans()
        rec.eval()
        rec.trace()
        try:
            simulate_obs(gms, obs, **kw)
            got = None
        except Exception as e:
            got = e
        if not isinstance(got, exc):
            rec.fail('error', '%s: gmix %r %s: %r instead of %s' % (name, gms, kw, got, exc.__name__))
        if good and D.diff(before, D.snap(obs)):
            rec.fail('input', '%s: the input changed by a refused simulation' % name)
        rec.state(fp(name, repr(type(gms)), repr(kw), exc.__name__))
    rec.outcome('errors')


# ---------------------------------------------------------------------------
# k space

KJ = {
    'unit': (0.3, 0.0, 0.0, 0.3), 'rot': (0.02, 0.28, -0.27, 0.03), 'shear': (0.25, 0.03, 0.02, 0.31), 'fine': (0.2, 0.0, 0.0, 0.2),
}
KSH = {'sq': (21, 21), 'even': (24, 24), 'rect': (20, 25), 'big': (31, 33)}


def mkk(k, jac='unit', shape='sq', psf='psf', weight='flat', meta=True, pshape=(19, 19), pjac=None):
    sh = KSH[shape]
    a, b, c, d = KJ[jac]
    jacob = ngmix.Jacobian(row=(sh[0] - 1) / 2.0 + 0.2 * k, col=(sh[1] - 1) / 2.0, dvdrow=a, dvdcol=b, dudrow=c, dudcol=d)
    p = None
    if psf:
        a, b, c, d = KJ[pjac or jac]
        pj = ngmix.Jacobian(row=(pshape[0] - 1) / 2.0 - 0.3 * k, col=(pshape[1] - 1) / 2.0 + 0.1 * k, dvdrow=a, dvdcol=b, dudrow=c, dudcol=d)
        pim = ngmix.GMixModel([0, 0, 0.05, 0.02 * k, 0.4 + 0.1 * k, 1.7 + k], 'gauss').make_image(pshape, jacobian=pj)
        pw = np.full(pshape, 5.0 + k)
        pw[0, 0] = 0.0
        p = Observation(pim, weight=pw, jacobian=pj, meta={'pm': k, 'deep': {'x': [k]}} if meta else None)
    im = ngmix.GMixModel([0.05, -0.04 * k, 0.1, 0.1, 0.9 + 0.1 * k, 20.0 + k], 'exp').make_image(sh, jacobian=jacob)
    im = im + 0.001 * D.noise(sh, k)
    w = np.full(sh, 3.0 + k)
    if weight == 'vary':
        w = w * (1 + np.abs(D.noise(sh, 9 + k)))
        w[1, 2] = 0.0
    elif weight == 'one':
        w[:] = 0.0
        w[3, 4] = 2.0
    elif weight == 'zero':
        w[:] = 0.0
    kw = dict(ignore_zero_weight=False) if weight == 'zero' else {}
    return Observation(im, weight=w, jacobian=jacob, psf=p, meta={'om': k, 'deep': {'x': [k]}} if meta else None, **kw)


def direct_ft(im, jac, dim, dk, ij):
    """fourier transform of the pixels treated as samples about the centre of the jacobian, at the
    k-pixels ij (row, col): sum_p f_p exp(-i k.x_p)"""
    nr, nc = im.shape
    rows, cols = np.mgrid[:nr, :nc]
    dr, dc = rows - jac.row0, cols - jac.col0
    y = jac.dvdrow * dr + jac.dvdcol * dc
    x = jac.dudrow * dr + jac.dudcol * dc
    cen = dim // 2
    out = []
    for i, j in ij:
        ky, kx = (i - cen) * dk, (j - cen) * dk
        out.append((im * np.exp(-1j * (kx * x + ky * y))).sum())
    return np.array(out)


def centred(im, jac, interp):
    """galsim object of the image with the centre of the jacobian as origin"""
    import galsim
    nr, nc = im.shape
    return galsim.InterpolatedImage(galsim.Image(np.array(im), wcs=jac.get_galsim_wcs()), x_interpolant=interp,
                                    offset=galsim.PositionD(jac.col0 - (nc - 1) / 2.0, jac.row0 - (nr - 1) / 2.0))


def check_k(rec, tag, ob, interp, fresh=None):
    import galsim
    before = D.snap(ob)
    refs = [(x.meta, dict(x.meta)) for _, _, x in leaves(ob)]
    kw = {} if interp is None else dict(interp=interp)
    out = make_kobs(ob, **kw)
    rec.trans()
    rec.eval()
    ii, dim, dk = make_iilist(ob, **kw)

    def bad(sig, msg):
        rec.fail(sig, '%s: %s' % (tag, msg))
    if not isinstance(out, KMultiBandObsList):
        return bad('structure', 'type %s' % type(out))
    mb = get_mb_obs(ob)
    if [len(x) for x in out] != [len(x) for x in mb] or [len(x) for x in ii] != [len(x) for x in mb]:
        return bad('structure', 'bands and epochs %s -> %s' % ([len(x) for x in mb], [len(x) for x in out]))
    # expected size: the largest good size (plus one, odd) and its spacing
    interp = interp or 'lanczos15'
    dims, dks = [], []
    for ol in mb:
        for x in ol:
            gi = centred(x.image, x.jacobian, interp)
            src = gi
            if x.has_psf():
                src = centred(x.psf.image / x.psf.image.sum(), x.psf.jacobian, interp)
            dims.append(1 + src.getGoodImageSize(src.nyquist_scale))
            dks.append(gi.stepk)
    m = max(dims)
    okdk = [d for n, d in zip(dims, dks) if n == m]
    if dim != m or not any(abs(dk - d) < 1e-10 * d for d in okdk):
        bad('dims', 'common size %s spacing %s, expected %s and one of %s' % (dim, dk, m, okdk))
    if dim % 2 != 1:
        bad('dims', 'size %d is not odd' % dim)
    for ol, kol, iil in zip(mb, out, ii):
        if not isinstance(kol, KObsList):
            bad('structure', 'band type %s' % type(kol))
        for x, y, d in zip(ol, kol, iil):
            if not isinstance(y, KObservation):
                bad('structure', 'epoch type %s' % type(y))
            if y.kimage.array.shape != (dim, dim) or abs(y.kimage.scale - dk) > 1e-12 * dk:
                bad('dims', 'k image %s scale %s, common %s %s' % (y.kimage.array.shape, y.kimage.scale, dim, dk))
                continue
            if not close(y.weight.array, np.full((dim, dim), 0.5 * x.weight.max() / dim ** 2), 1e-12):
                bad('weight', 'weight %s, expected %s' % (y.weight.array.ravel()[:2], 0.5 * x.weight.max() / dim ** 2))
            if y.has_psf() != x.has_psf():
                bad('psf', 'psf %s, input %s' % (y.has_psf(), x.has_psf()))
            j = y.jacobian
            c = dim // 2
            if not (j.row0 == c and j.col0 == c and abs(j.dvdrow - dk) < 1e-12 and abs(j.dudcol - dk) < 1e-12
                    and j.dvdcol == 0 and j.dudrow == 0):
                bad('jacobian', 'k jacobian %s' % (D.jtuple(j),))
            # the transform itself: the interpolant is 1 at small k
            pts = [(c, c), (c + 1, c), (c, c + 1), (c - 1, c + 2), (c + 2, c - 2)]
            for what, kim, im, jac in [('image', y.kimage, x.image, x.jacobian)] + (
                    [('psf', y.psf.kimage, x.psf.image / x.psf.image.sum(), x.psf.jacobian)] if x.has_psf() and y.has_psf() else []):
                if kim.array.shape != (dim, dim) or abs(kim.scale - dk) > 1e-12 * dk:
                    bad('dims', '%s k image %s scale %s' % (what, kim.array.shape, kim.scale))
                    continue
                ref = direct_ft(im, jac, dim, dk, pts)
                got = np.array([kim.array[p] for p in pts])
                tol = {'lanczos15': 2e-3, 'quintic': 2e-2, 'cubic': 3e-2, 'linear': 0.1}[interp] * np.abs(ref[0])
                if np.abs(ref - got).max() > tol:
                    bad('transform', '%s transform at low k %s, direct sum %s' % (what, got, ref))
                h = kim.array[::-1, ::-1].conj()
                if np.abs(kim.array - h).max() > 1e-8 * np.abs(kim.array).max():
                    bad('transform', '%s transform is not that of a real image' % what)
                gi = centred(im, jac, interp)
                ex = gi.drawKImage(nx=dim, ny=dim, scale=dk).array
                if not close(kim.array, ex, 1e-10):
                    bad('transform', '%s transform is not that of the input' % what)
            if x.has_psf() and y.has_psf():
                if not close(y.psf.weight.array, np.full((dim, dim), 0.5 * x.psf.weight.max() / dim ** 2), 1e-12):
                    bad('weight', 'psf weight')
                pm = dict(y.psf.meta)
                for k, v in x.psf.meta.items():
                    if k not in pm or pm[k] != v:
                        bad('meta', 'psf meta %r missing' % k)
                if 'ii' not in pm:
                    bad('meta', 'psf meta has no interpolated image')
                if y.psf.meta is x.psf.meta:
                    bad('alias', 'psf meta shared')
            for k, v in x.meta.items():
                if k not in y.meta or y.meta[k] != v:
                    bad('meta', 'meta %r missing' % k)
            if set(y.meta) - set(x.meta) != {'realspace_gsimage', 'scale'}:
                bad('meta', 'meta keys added: %s' % sorted(set(y.meta) - set(x.meta)))
            elif not np.array_equal(y.meta['realspace_gsimage'].array, x.image) or abs(y.meta['scale'] - x.jacobian.scale) > 1e-13:
                bad('meta', 'realspace image or scale')
            if y.meta is x.meta:
                bad('alias', 'meta shared')
            # the list of interpolated images
            if not np.array_equal(d['weight'], x.weight) or d['meta'] != x.meta or (d['psf_ii'] is None) != (not x.has_psf()):
                bad('iilist', 'entries %s' % sorted(d))
            if x.has_psf():
                if abs(d['psf_ii'].flux - 1) > 1e-6 or not np.array_equal(d['psf_weight'], x.psf.weight) or d['psf_meta'] != x.psf.meta:
                    bad('iilist', 'psf entries')
            elif d['psf_weight'] is not None or d['psf_meta'] is not None:
                bad('iilist', 'psf entries without psf')
            if d['wcs'] != x.jacobian.get_galsim_wcs() or abs(d['scale'] - x.jacobian.scale) > 1e-13:
                bad('iilist', 'wcs')
            rec.state(fp(tag, dim, round(float(dk), 12), y.has_psf()))
    dd = D.diff(before, D.snap(ob))
    if dd:
        bad('input', 'the input was modified: %s' % (dd,))
    for (m0, c0) in refs:
        if m0 != c0:
            bad('input', 'input meta modified')
    return out


def k_kobs(case, rec):
    name = case['struct']
    n = sum(len(b) for b in STRUCT[name])
    for psfs in itertools.product((True, False), repeat=n):
        def mk(k):
            v = case['var']
            jac = [v['jacs'][k % len(v['jacs'])]][0]
            return mkk(k, jac=jac, shape=v['shapes'][k % len(v['shapes'])], psf=psfs[k], weight=v['wts'][k % len(v['wts'])],
                       meta=v.get('meta', True), pshape=tuple(v.get('pshape', (19, 19))), pjac=v.get('pjac'))
        ob = mkstruct(name, mk)
        o1 = check_k(rec, '%s psfs %s %s' % (name, psfs, case['var']), ob, case['var'].get('interp'))
        if o1 is None:
            return
        if case.get('twice'):
            o2 = check_k(rec, 'again %s psfs %s' % (name, psfs), ob, case['var'].get('interp'))
            for b1, b2 in zip(o1, o2):
                for x, y in zip(b1, b2):
                    if not np.array_equal(x.kimage.array, y.kimage.array):
                        rec.fail('history', 'second conversion differs')
        rec.trace()
    rec.outcome(name)


def k_wrap(case, rec):
    """get_mb_obs / get_kmb_obs keep the objects and add only the missing levels"""
    for name in STRUCT:
        ob = mkstruct(name, lambda k: mkk(k, psf=k % 2 == 0))
        mb = get_mb_obs(ob)
        rec.trans(2)
        rec.eval()
        rec.trace()
        if not isinstance(mb, MultiBandObsList) or [[id(x) for x in b] for b in mb] != [
                [id(x) for x in b] for b in (ob if isinstance(ob, MultiBandObsList) else [ob] if isinstance(ob, ObsList) else [[ob]])]:
            rec.fail('wrap', 'get_mb_obs of %s' % name)
        k = make_kobs(ob)
        src = k if name.startswith('mb') else k[0] if name.startswith('ol') else k[0][0]
        km = get_kmb_obs(src)
        if not isinstance(km, KMultiBandObsList) or [[id(x) for x in b] for b in km] != [[id(x) for x in b] for b in k]:
            rec.fail('wrap', 'get_kmb_obs of %s' % name)
        rec.state(fp(name, shape_of(mb)))
        for f, other in ((get_mb_obs, src), (get_kmb_obs, ob), (get_mb_obs, None), (get_kmb_obs, []), (get_mb_obs, [ob])):
            rec.trans()
            try:
                f(other)
                rec.fail('error', '%s accepts %s' % (f.__name__, type(other)))
            except ValueError:
                pass
    rec.outcome('wrap')


def k_kclass(case, rec):
    """the k-space containers refuse inconsistent members and are unchanged by it"""
    import galsim
    k = make_kobs(mkstruct('mb2x2', lambda k: mkk(k)))
    a, b = k[0][0], k[0][1]
    small = galsim.ImageCD(np.zeros((5, 5), dtype=complex), scale=a.kimage.scale)
    other = galsim.ImageCD(np.array(a.kimage.array), scale=2 * a.kimage.scale)
    refuse = [
        (lambda: KObservation(a.kimage.array), 'kimage array'),
        (lambda: KObservation(a.weight), 'real kimage'),
        (lambda: KObservation(a.kimage, weight=galsim.ImageD(5, 5)), 'weight shape'),
        (lambda: KObservation(a.kimage, weight=a.weight.array), 'weight array'),
        (lambda: KObservation(a.kimage, psf=KObservation(small)), 'psf shape'),
        (lambda: KObservation(a.kimage, psf=KObservation(other)), 'psf scale'),
        (lambda: KObservation(a.kimage, psf=a.kimage), 'psf type'),
        (lambda: a.set_psf(KObservation(small)), 'psf shape'),
        (lambda: a.set_psf(KObservation(other)), 'psf scale'),
        (lambda: KObservation(a.kimage, meta=3), 'meta'),
        (lambda: k[0].append(a.kimage), 'list append'),
        (lambda: k[0].append(k[0]), 'list append'),
        (lambda: k.append(a), 'mb append'),
        (lambda: k.append([a]), 'mb append'),
        (lambda: k[0].__setitem__(0, a.kimage), 'setitem'),
        (lambda: k.__setitem__(0, a), 'setitem'),
        (lambda: k.__setitem__(0, [a]), 'setitem'),
    ]
    p0, lens, ids = a.psf, [len(x) for x in k], [[id(y) for y in x] for x in k]
    for f, what in refuse:
        rec.trans()
        rec.eval()
        rec.trace()
        rec.state(fp(what))
        try:
            f()
            rec.fail('error', '%s accepted' % what)
        except (ValueError, AssertionError, TypeError):
            pass
        if a.psf is not p0 or [len(x) for x in k] != lens or [[id(y) for y in x] for x in k] != ids:
            rec.fail('atomic', '%s changed the object although refused' % what)
    w = KObservation(a.kimage)
    if w.has_psf() or not np.all(w.weight.array == 1) or w.weight.array.shape != a.kimage.array.shape:
        rec.fail('default', 'default weight or psf')
    if np.iscomplexobj(w.weight.array) or np.shares_memory(w.weight.array, a.kimage.array):
        rec.fail('default', 'default weight shares the image')
    # psf set, replaced and removed, in every order up to depth 4
    for seq in itertools.product('abn', repeat=4):
        o = KObservation(a.kimage)
        for s in seq:
            p = {'a': a.psf, 'b': b.psf, 'n': None}[s]
            o.set_psf(p)
            rec.trans()
            if (p is None) != (not o.has_psf()) or (p is not None and o.psf is not p):
                rec.fail('psf', 'after %s' % (seq,))
        rec.trace()
    for n in (4, 5, 8, 9):
        o = KObservation(galsim.ImageCD(np.ones((n, n + 1), dtype=complex), scale=0.3))
        if (o.jacobian.row0, o.jacobian.col0) != (n // 2, (n + 1) // 2):
            rec.fail('jacobian', 'centre %s of (%d,%d)' % ((o.jacobian.row0, o.jacobian.col0), n, n + 1))
    rec.outcome('class')


# ---------------------------------------------------------------------------
# results

def k_result(case, rec):
    """images of a fit result, band by band and epoch by epoch, and simulation from it"""
    from ngmix.fitting import results as R
    model = case['model']
    for name, psf in itertools.product(case['structs'], ('p1', 'p2', None)):
        ob = mkstruct(name, lambda k: mkobs(k, k % 3, (k + 1) % 3, 'vary', psf))
        nb = len(STRUCT[name])
        pars = {
            'gauss': [0.05, -0.1, 0.1, 0.05, 0.6], 'exp': [0.05, -0.1, 0.1, 0.05, 0.6], 'dev': [0.05, -0.1, 0.1, -0.05, 0.8],
            'turb': [0.0, 0.02, 0.1, -0.05, 0.8], 'bd': [0.05, -0.1, 0.1, 0.05, 0.6, 0.2, 0.4], 'bdf': [0.05, -0.1, 0.1, 0.05, 0.6, 0.4],
            'coellip': [0.05, -0.1, 0.1, 0.05, 0.6, 0.9, 1.0, 2.0],
        }[model]
        if model == 'coellip':
            if nb > 1:
                continue
            fm = R.CoellipFitModel(obs=ob, ngauss=2, guess=np.array(pars))
            pars = np.array(pars)
        else:
            pars = np.array(pars + [3.0 + b for b in range(nb)])
            fm = R.FitModel(obs=ob, model=model, guess=pars)
        before = D.snap(ob)
        fm['pars'] = pars
        fm['flags'] = 0
        gms = [fm.get_gmix(band=b) for b in range(nb)]
        rec.trans(nb)
        for b, i, x in leaves(ob):
            rec.trans()
            rec.eval()
            im = fm.make_image(band=b, obsnum=i)
            if not close(im, ref_image(gms[b], x, psf is not None), 2e-4):
                rec.fail('render', '%s %s band %d epoch %d: make_image is not the convolved mixture' % (model, name, b, i))
            rec.state(fp(model, name, psf, b, i, np.round(im, 8).tobytes()))
        o = dict(conv=psf is not None, noise=False, all=True, nf=None, raw=True)
        arg = gms if name.startswith('mb') else gms[0]
        new = check_sim(rec, 'result %s %s' % (model, name), arg, ob, o, 0, None, None)
        if new is not None:
            for (b, i, x), (_, _, y) in zip(leaves(ob), leaves(new)):
                if not close(y.image, fm.make_image(band=b, obsnum=i), 1e-10):
                    rec.fail('render', '%s %s band %d epoch %d: simulation and make_image differ' % (model, name, b, i))
        if D.diff(before, D.snap(ob)):
            rec.fail('input', 'making images changed the observations')
        rec.trace()
    rec.outcome(model)


KINDS = {'single': k_single, 'struct': k_struct, 'hist': k_hist, 'error': k_error, 'kobs': k_kobs, 'wrap': k_wrap,
         'kclass': k_kclass, 'result': k_result}


def cases(tier):
    full = tier != 'quick'
    yield 'error', {}
    yield 'wrap', {}
    yield 'kclass', {}
    for w in WTS:
        for j in range(3):
            yield 'single', dict(weight=w, jacs=[j], tier=tier)
    wlists = [['vary', 'zeros', 'flat', 'neg'], ['none-ignore', 'vary', 'none-store', 'zeros']]
    if full:
        wlists += [list(p) for p in itertools.permutations(('flat', 'zeros', 'one', 'none-store'))]
    for s in STRUCT:
        yield 'struct', dict(struct=s, wts=wlists, reps=3 if full else 2)
        yield 'hist', dict(struct=s, weight='zeros', depth=4 if full else (3 if s in ('obs', 'mb2x1') else 2))
    for m in ('gauss', 'exp', 'dev', 'turb', 'bd', 'bdf', 'coellip'):
        yield 'result', dict(model=m, structs=list(STRUCT))
    V = [
        dict(jacs=['unit'], shapes=['sq'], wts=['flat']),
        dict(jacs=['unit', 'fine', 'rot'], shapes=['sq', 'even', 'rect'], wts=['vary', 'one', 'flat']),
        dict(jacs=['fine', 'unit'], shapes=['big', 'sq'], wts=['zero', 'vary'], meta=False),
        dict(jacs=['shear', 'rot'], shapes=['rect'], wts=['one', 'zero'], pshape=(25, 25), pjac='fine'),
    ]
    for s in STRUCT:
        big = sum(len(b) for b in STRUCT[s]) >= 4
        for i, v in enumerate(V):
            if big and not full and i != 1:
                continue
            yield 'kobs', dict(struct=s, var=v, twice=full or i == 1)
    for it in ('quintic', 'cubic'):
        for v in V:
            for s in (STRUCT if full else ('obs', 'mb2x1')):
                yield 'kobs', dict(struct=s, var=dict(v, interp=it), twice=False)


def warmup():
    import galsim  # noqa
    ob = mkobs()
    simulate_obs(GM['exp'](0), ob, rng=np.random.RandomState(1))
