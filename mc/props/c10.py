"""
C10  caches never change results
"""
import itertools
import numpy as np
import ngmix
from ngmix import prepsfmom, metacal, Shape
from ngmix.metacal import metacal as mcal_mod
from ngmix.gexceptions import GMixRangeError, FFTRangeError
from mc.core import fp
from mc import data as D
from mc.props.c09 import image, weight, jacobian

LEVEL = 'model_checking'
RULE = (
    'Measurements that differ from each other in exactly one ingredient (one pixel, one '
    'weight, each of the six jacobian numbers of image and psf, stamp size, kernel size, '
    'smoothing, padding, apodisation, shear, psf kind) are executed on the real code in '
    'every order: all ordered pairs, then all histories to the stated depth of '
    'measurements, cache on/off/clear operations, in-place changes of observations and of '
    'returned arrays, under every cache setting; a history longer than the caches; '
    'for the metacal objects all histories of requests on one object, with a failure '
    'injected into every drawing call.  Each result is compared with the same '
    'measurement made first, with caches off, on fresh objects.'
)
ASSUMPTIONS = ['single threaded process', 'arrays reachable only through private caches are not modified by the caller']

RT = 1e-10


def same(a, b, path='', rt=RT):
    """compare nested results; tolerance relative to the largest entry"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s keys %s %s' % (path, sorted(a), sorted(b))
        for k in a:
            d = same(a[k], b[k], '%s.%s' % (path, k), rt)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s length' % path
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, '%s[%d]' % (path, i), rt)
            if d:
                return d
        return None
    if isinstance(a, (str, bool)) or a is None:
        return None if a == b else '%s %r %r' % (path, a, b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return '%s shape %s %s' % (path, a.shape, b.shape)
    if a.dtype.kind not in 'fciub':
        return None
    fin = np.isfinite(a)
    if not np.array_equal(fin, np.isfinite(b)):
        return '%s not finite differently' % path
    if not fin.any():
        return None
    m = np.abs(b[fin]).max()
    d = np.abs(a[fin] - b[fin]).max()
    if d > rt * m:
        return '%s differs by %.3g of %.3g' % (path, d, m)
    return None


# ---------------------------------------------------------------------------
# pre-psf moments

BASE = dict(n=11, npsf=9, jac=[5.2, 4.9, 0.26, 0.03, -0.02, 0.28], pjac=[4.1, 3.9],
            pix=0, ppix=0, w=0, fwhm=1.3, smooth=0.0, pad=3, ap=1.5, kernel='pgauss', psf=True)


def variants():
    out = [dict(BASE)]

    def add(**kw):
        v = dict(BASE)
        v.update(kw)
        out.append(v)
    for i, dx in enumerate((0.25, -0.31, 0.01, 0.005, 0.004, -0.01)):
        j = list(BASE['jac'])
        j[i] += dx
        add(jac=j)
    add(pjac=[4.4, 3.9])
    add(pjac=[4.1, 3.7])
    add(pix=1)
    add(ppix=1)
    add(w=1)
    add(w=2)
    add(n=12)
    add(npsf=13)
    add(npsf=12)
    add(fwhm=1.5)
    add(smooth=0.4)
    add(smooth=0.9)
    add(pad=4)
    add(pad=3.5)
    add(ap=0.0)
    add(ap=1.2)
    add(psf=False)
    add(n=12, psf=False)
    add(kernel='ksigma', fwhm=2.2)
    add(kernel='pgauss', fwhm=2.2)
    add(kernel='ksigma', fwhm=2.2, smooth=0.4)
    add(kernel='ksigma', fwhm=2.2, jac=[5.2, 4.9, 0.26, 0.03, -0.02, 0.29])
    return out


VAR = variants()


def make(v):
    n = v['n']
    a = v['jac']
    j = ngmix.Jacobian(row=a[0], col=a[1], dvdrow=a[2], dvdcol=a[3], dudrow=a[4], dudcol=a[5])
    j0 = ngmix.Jacobian(row=5.2, col=4.9, dvdrow=.26, dvdcol=.03, dudrow=-.02, dudcol=.28)
    im = image('pos', n, j0)
    if v['pix']:
        im[n // 2, 4] += 0.01
    w = np.full((n, n), 5.0)
    if v['w'] == 1:
        w[3, 3] = 0.0
    if v['w'] == 2:
        w[3, 3] = 2.0
    if not v['psf']:
        return ngmix.Observation(im, weight=w, jacobian=j)
    m = v['npsf']
    b = v['pjac']
    pj = ngmix.Jacobian(row=b[0], col=b[1], dvdrow=a[2], dvdcol=a[3], dudrow=a[4], dudcol=a[5])
    pj0 = ngmix.Jacobian(row=4.1, col=3.9, dvdrow=.26, dvdcol=.03, dudrow=-.02, dudcol=.28)
    pim = image('round', m, pj0, T=0.3)
    if v['ppix']:
        pim[m // 2, 3] += 0.02
    psf = ngmix.Observation(pim, weight=np.ones((m, m)), jacobian=pj)
    return ngmix.Observation(im, weight=w, jacobian=j, psf=psf)


def fitter(v):
    cls = prepsfmom.PGaussMom if v['kernel'] == 'pgauss' else prepsfmom.KSigmaMom
    return cls(fwhm=v['fwhm'], pad_factor=v['pad'], ap_rad=v['ap'], fwhm_smooth=v['smooth'])


def measure(v, obs=None, f=None, kernels=False):
    obs = make(v) if obs is None else obs
    f = fitter(v) if f is None else f
    try:
        r = f.go(obs, no_psf=not v['psf'], return_kernels=kernels)
    except FFTRangeError:
        return dict(raised='FFTRangeError')
    return dict(r)


def off():
    prepsfmom.turn_off_fft_caching()
    prepsfmom.turn_off_kernel_caching()
    mcal_mod.turn_off_galsim_caching()


def setting(s):
    off()
    if s & 1:
        prepsfmom.turn_on_fft_caching()
    if s & 2:
        prepsfmom.turn_on_kernel_caching()


_ref = {}


def pref(i):
    if i not in _ref:
        off()
        _ref[i] = snapres(measure(VAR[i]))
    return _ref[i]


def snapres(x):
    import copy
    return copy.deepcopy(x)


def k_pairs(case, rec):
    """all ordered pairs for one first measurement, each cache setting"""
    i = case['i']
    refs = [pref(k) for k in range(len(VAR))]
    try:
        for s in (0, 1, 2, 3):
            for k in range(len(VAR)):
                setting(s)
                r1 = measure(VAR[i])
                r2 = measure(VAR[k])
                r3 = measure(VAR[i])
                rec.trans(3)
                rec.trace()
                rec.eval(3)
                rec.state(fp('pair', i, k, s))
                for which, r, want in (('first', r1, refs[i]), ('second', r2, refs[k]), ('third', r3, refs[i])):
                    d = same(r, want)
                    if d:
                        rec.fail('prepsf:%s' % which, 'caches %d, %s then %s then the first again: %s: %s' % (
                            s, vdiff(VAR[i]), vdiff(VAR[k]), which, d))
                # the variants must be distinguishable for this to mean anything
                rec.outcome('same' if not same(refs[i], refs[k]) else 'distinct')
    finally:
        off()


def vdiff(v):
    return {k: v[k] for k in v if v[k] != BASE[k]}


POPS = [['go', 0], ['go', 7], ['go', 5], ['go', 17], ['gokern', 0], ['gokern', 5], ['mutres'], ['mutkern'],
        ['mutobs'], ['fft', 1], ['fft', 0], ['kern', 1], ['kern', 0]]


def prerefs():
    """references without caches on fresh objects"""
    if ('prerefs',) in _ref:
        return
    off()
    for n, i in [o for o in POPS if len(o) == 2 and o[0] in ('go', 'gokern')]:
        for dirty in (False, True):
            o = make(VAR[i])
            if dirty:
                mutate(o)
            _ref[(i, n, dirty)] = snapres(measure(VAR[i], o, None, kernels=n == 'gokern'))
    _ref[('prerefs',)] = True


def run_prepsf(hist, start, rec):
    """returns list of failures"""
    prerefs()
    setting(start)
    bad = []
    obs = {}
    fit = {}
    dirty = set()
    last = None
    kept = []
    try:
        for op in hist:
            n = op[0]
            if n in ('go', 'gokern'):
                i = op[1]
                v = VAR[i]
                if i not in obs:
                    obs[i], fit[i] = make(v), fitter(v)
                r = measure(v, obs[i], fit[i], kernels=n == 'gokern')
                key = (i, n, i in dirty)
                d = same(r, _ref[key])
                rec.eval()
                if d:
                    bad.append('history %s starting with caches %d: %s' % (hist, start, d))
                last = r
                kept.append((r, snapres(r)))
            elif n == 'mutres' and last is not None:
                for k in ('sums', 'sums_cov', 'e', 'e_err', 'pars'):
                    if k in last:
                        last[k][...] = -7.0
                kept = [x for x in kept if x[0] is not last]
            elif n == 'mutkern' and last is not None and 'kernels' in last:
                for k in last['kernels']:
                    if isinstance(last['kernels'][k], np.ndarray):
                        last['kernels'][k][...] = 3.0
                kept = [x for x in kept if x[0] is not last]
            elif n == 'mutobs':
                for i in list(obs):
                    if i not in dirty:
                        mutate(obs[i])
                        dirty.add(i)
            elif n == 'fft':
                (prepsfmom.turn_on_fft_caching if op[1] else prepsfmom.turn_off_fft_caching)()
            elif n == 'kern':
                (prepsfmom.turn_on_kernel_caching if op[1] else prepsfmom.turn_off_kernel_caching)()
        for r, s in kept:
            d = same(r, s)
            if d:
                bad.append('history %s: an earlier result changed: %s' % (hist, d))
    finally:
        off()
    return bad


def mutate(o):
    with o.writeable():
        o.image[4, 4] += 0.5
        o.weight[2, 2] = 1.0
    if o.has_psf():
        with o.psf.writeable():
            o.psf.image[3, 4] += 0.1


def k_prepsf(case, rec):
    if 'trace' in case:
        hists = [case['trace']]
    else:
        hists = (case['prefix'] + list(t) for d in range(case['depth'] - len(case['prefix']) + 1)
                 for t in itertools.product(POPS, repeat=d))
    for h in hists:
        for s in (0, 3) if len(h) < 4 else (3,):
            if 'start' in case and s != case['start']:
                continue
            bad = run_prepsf(h, s, rec)
            rec.trans(len(h))
            rec.trace()
            rec.state(fp('prepsf', h, s))
            rec.outcome(len([o for o in h if o[0].startswith('go')]))
            if bad:
                rec.fail('prepsf-history:%s' % h[-1][0], bad[0], case=dict(trace=h, start=s))


def lattice(kernel):
    """every combination of two or four values of each number of the jacobian matrix"""
    for a in itertools.product((0.26, 0.28), (-0.03, 0.0, 0.03, 0.08), (-0.03, 0.0, 0.03, 0.08), (0.26, 0.28)):
        yield dict(BASE, kernel=kernel, fwhm=1.8, jac=BASE['jac'][:2] + list(a))


def k_sweep(case, rec):
    """
    one history through the lattice and back, so each of two measurements comes
    after the other one while it is still cached
    """
    vs = list(lattice(case['kernel']))
    off()
    wants = [measure(v) for v in vs]
    for s in (1, 2, 3):
        setting(s)
        try:
            for i in list(range(len(vs))) + list(range(len(vs) - 1, -1, -1)):
                d = same(measure(vs[i]), wants[i])
                rec.trans()
                rec.eval()
                rec.state(fp('sweep', case['kernel'], s, i))
                if d:
                    rec.fail('prepsf:sweep', 'caches %d, %s after all others of the lattice: %s' % (
                        s, vdiff(vs[i]), d))
        finally:
            off()
        rec.trace()
    for i in range(len(vs)):
        for k in range(i):
            rec.outcome('same' if not same(wants[i], wants[k]) else 'distinct')


def k_evict(case, rec):
    """a history longer than the caches (128 entries)"""
    off()
    want = pref(0)
    vs = [dict(BASE, fwhm=1.3 + 0.01 * (i + 1), pix=0, jac=[5.2 + 0.001 * (i + 1)] + BASE['jac'][1:])
          for i in range(140)]
    ws = {i: measure(vs[i]) for i in range(0, 140, 20)}
    setting(3)
    try:
        measure(BASE)
        for i in range(140):
            v = vs[i]
            r = measure(v)
            rec.trans()
            rec.state(fp('evict', i))
            if i % 20 == 0:
                d = same(r, ws[i])
                rec.eval()
                if d:
                    rec.fail('evict', '%d: %s' % (i, d))
        d = same(measure(BASE), want)
        rec.eval()
        rec.trace()
        rec.outcome('evict')
        if d:
            rec.fail('evict', 'first measurement again: %s' % d)
    finally:
        off()


# ---------------------------------------------------------------------------
# metacal

MB = dict(jac=[7.1, 6.8, 0.26, 0.03, -0.02, 0.28], pjac=[7.0, 7.2, 0.26, 0.03, -0.02, 0.28], pix=0, ppix=0,
          n=15, m=15, w=0, psf='gauss', step=0.01, types=['noshear', '1p'], fix=False, seed=None)


def mvariants():
    out = [dict(MB)]

    def add(**kw):
        v = dict(MB)
        v.update(kw)
        out.append(v)
    for i, dx in enumerate((0.25, -0.31, 0.01, 0.005, 0.004, -0.01)):
        for nm in ('jac', 'pjac'):
            j = list(MB[nm])
            j[i] += dx
            add(**{nm: j})
    add(pix=1)
    add(ppix=1)
    add(n=16)
    add(m=13)
    add(m=13, n=13)
    add(psf='dilate')
    add(psf='fitgauss', seed=5)
    add(psf='gs')
    add(psf='gs2')
    add(step=0.02)
    add(seed=5)
    add(fix=True, seed=5)
    add(fix=True, seed=6)
    add(fix=True, seed=5, w=1)
    add(psf='dilate', types=['1p_psf', '2m'])
    add(psf='dilate', fix=True, seed=5)
    return out


MVAR = mvariants()


def mjac(a):
    return ngmix.Jacobian(row=a[0], col=a[1], dvdrow=a[2], dvdcol=a[3], dudrow=a[4], dudcol=a[5])


def mmake(v):
    n, m = v['n'], v['m']
    im = image('pos', n, mjac(MB['jac']))
    if v['pix']:
        im[7, 6] += 0.02
    w = np.full((n, n), 1e4)
    if v['w']:
        w[:, 3] = 2e3
    pim = image('round', m, mjac(MB['pjac']), T=0.28)
    if v['ppix']:
        pim[6, 6] += 0.02
    psf = ngmix.Observation(pim, weight=np.full((m, m), 1e6), jacobian=mjac(v['pjac']))
    return ngmix.Observation(im, weight=w, jacobian=mjac(v['jac']), psf=psf)


def mmeasure(v, obs=None):
    import galsim
    obs = mmake(v) if obs is None else obs
    psf = v['psf']
    if psf == 'gs':
        psf = galsim.Gaussian(fwhm=1.1)
    if psf == 'gs2':
        psf = galsim.Gaussian(fwhm=1.2)
    rng = np.random.RandomState(v['seed']) if v['seed'] is not None else None
    r = metacal.get_all_metacal(obs, psf=psf, step=v['step'], fixnoise=v['fix'], rng=rng,
                                types=list(v['types']))
    return {k: D.snap(o) for k, o in r.items()}


def mpref(i):
    k = ('m', i)
    if k not in _ref:
        off()
        _ref[k] = mmeasure(MVAR[i])
    return _ref[k]


def k_mpairs(case, rec):
    i = case['i']
    try:
        for k in range(len(MVAR)):
            a, b = mpref(i), mpref(k)
            off()
            mcal_mod.turn_on_galsim_caching()
            o1 = mmake(MVAR[i])
            rs = [mmeasure(MVAR[i], o1), mmeasure(MVAR[k])]
            wants = [a, b]
            if k % 3 == 0:
                rs.append(mmeasure(MVAR[i], o1))
                wants.append(a)
            rec.trans(3)
            rec.trace()
            rec.eval(3)
            rec.state(fp('mpair', i, k))
            rec.outcome('same' if not same(a, b) else 'distinct')
            for q, (r, w) in enumerate(zip(rs, wants)):
                d = same(r, w)
                if d:
                    rec.fail('metacal:%d' % q, '%s then %s: result %d: %s' % (
                        mdiff(MVAR[i]), mdiff(MVAR[k]), q, d))
    finally:
        off()


def mdiff(v):
    return {k: v[k] for k in v if v[k] != MB[k]}


# histories on one metacal object, with injected drawing failures

SH = [(0.01, 0.0), (-0.01, 0.0), (0.0, 0.01), (0.01, 1e-9), (0.0100001, 0.0)]


def oops(psf):
    ops = []
    for s in SH[:4]:
        ops.append(['gal', s])
    ops.append(['galuns', SH[0]])
    ops.append(['psf0', SH[4]])
    ops.append(['mutate'])
    ops.append(['fail'])
    if psf == 'dilate':
        ops += [['psh', SH[0]], ['psh', SH[2]]]
    return ops


def mkobj(psf, seed=5):
    import galsim
    from ngmix.metacal import MetacalDilatePSF, MetacalGaussPSF, MetacalFitGaussPSF, MetacalAnalyticPSF
    obs = mmake(MB)
    if psf == 'dilate':
        return MetacalDilatePSF(obs)
    if psf == 'gauss':
        return MetacalGaussPSF(obs)
    if psf == 'fitgauss':
        return MetacalFitGaussPSF(obs, rng=np.random.RandomState(seed))
    return MetacalAnalyticPSF(obs, galsim.Gaussian(fwhm=1.1))


def docall(m, op):
    """returns plain snapshot and the raw objects"""
    s = Shape(*op[1])
    if op[0] == 'gal':
        o = m.get_obs_galshear(s)
        return D.snap(o), [o]
    if op[0] == 'galuns':
        o = m.get_obs_galshear(s, get_unsheared=True)
        return [D.snap(x) for x in o], list(o)
    if op[0] == 'psh':
        o = m.get_obs_psfshear(s)
        return D.snap(o), [o]
    im, obj = m.get_target_psf(s, 'gal_shear')
    return [im.array.copy(), float(obj.flux), float(obj.kValue(0.3, 0.2).real)], [im]


class Inject(object):
    """the next drawImage of any galsim object raises RuntimeError"""

    def __init__(self, nth):
        self.nth = nth

    def __enter__(self):
        import galsim
        self.orig = galsim.GSObject.drawImage
        self.count = 0
        me = self

        def draw(obj, *a, **k):
            me.count += 1
            if me.count == me.nth:
                raise RuntimeError('injected')
            return me.orig(obj, *a, **k)
        galsim.GSObject.drawImage = draw
        return self

    def __exit__(self, *a):
        import galsim
        galsim.GSObject.drawImage = self.orig


def orefs(psf):
    if ('o', psf) in _ref:
        return
    off()
    for op in oops(psf):
        if len(op) == 2:
            _ref[('o', psf, op[0], tuple(op[1]))] = docall(mkobj(psf), op)[0]
    _ref[('o', psf)] = True


def run_obj(psf, hist, cache, rec):
    orefs(psf)
    off()
    if cache:
        mcal_mod.turn_on_galsim_caching()
    bad = []
    try:
        m = mkobj(psf)
        before = D.snap(m.obs)
        raw = []
        kept = []
        armed = 0
        for op in hist:
            if op[0] == 'mutate':
                # what was handed out belongs to the caller
                for o in raw:
                    if isinstance(o, ngmix.Observation):
                        with o.writeable():
                            o.image[:] = -5.0
                            o.psf.set_image(o.psf.image * 0 - 3.0)
                    else:
                        o.array[:] = 11.0
                raw, kept = [], []
                continue
            if op[0] == 'fail':
                armed += 1
                continue
            key = ('o', psf, op[0], tuple(op[1]))
            if armed:
                with Inject(armed) as inj:
                    try:
                        docall(m, op)
                        if inj.count >= armed:
                            bad.append('%s: failure of drawing was not reported' % hist)
                    except GMixRangeError:
                        pass
                armed = 0
            r, objs = docall(m, op)
            rec.eval()
            d = same(r, _ref[key])
            if d:
                bad.append('%s: %s gives another result than on a fresh object: %s' % (hist, op, d))
            raw += objs
            kept.append((r, objs, op))
        for r, objs, op in kept:
            now = [D.snap(o) if isinstance(o, ngmix.Observation) else o.array for o in objs]
            rr = r if isinstance(r, list) else [r]
            if op[0] == 'psf0':
                rr = rr[:1]
            d = same(now, rr)
            if d:
                bad.append('%s: earlier result of %s changed: %s' % (hist, op, d))
        d = D.diff(before, D.snap(m.obs))
        if d:
            bad.append('%s: the input changed: %s' % (hist, d))
    finally:
        off()
    return bad


def k_object(case, rec):
    psf = case['psf']
    ops = oops(psf)
    if 'trace' in case:
        hists = [case['trace']]
    else:
        hists = (case['prefix'] + list(t) for d in range(case['depth'] - len(case['prefix']) + 1)
                 for t in itertools.product(ops, repeat=d))
    for h in hists:
        if h[-1][0] in ('mutate', 'fail') and 'trace' not in case:
            continue
        for cache in (0, 1):
            if len(h) > 2 and cache == 0 and 'trace' not in case:
                continue
            rec.trans(len(h))
            rec.trace()
            rec.state(fp('obj', psf, h, cache))
            rec.outcome(h[-1][0])
            try:
                bad = run_obj(psf, h, cache, rec)
            except Exception as err:
                off()
                bad = ['%s: %s: %s' % (h, type(err).__name__, err)]
            if bad:
                rec.fail('metacal-object:%s' % h[-1][0], bad[0], case=dict(psf=psf, trace=h))


KINDS = {'pairs': k_pairs, 'sweep': k_sweep, 'prepsf': k_prepsf, 'evict': k_evict, 'mpairs': k_mpairs, 'object': k_object}
CHUNK = 2
CASE_TIMEOUT = 600


def warmup():
    import galsim
    # all references in the parent, so the workers share them
    for i in range(len(VAR)):
        pref(i)
    for i in range(len(MVAR)):
        mpref(i)
    prerefs()
    for psf in ('dilate', 'gauss', 'fitgauss', 'gs'):
        orefs(psf)


def cases(tier):
    th = tier == 'thorough'
    for i in range(len(VAR)):
        yield 'pairs', dict(i=i)
    yield 'evict', {}
    for kernel in ('pgauss', 'ksigma'):
        yield 'sweep', dict(kernel=kernel)
    for i in range(len(MVAR)):
        yield 'mpairs', dict(i=i)
    for op in POPS:
        for op2 in POPS:
            yield 'prepsf', dict(prefix=[op, op2], depth=4 if th else 3)
    for psf in ('dilate', 'gauss', 'fitgauss', 'gs'):
        for op in oops(psf):
            if th:
                for op2 in oops(psf):
                    yield 'object', dict(psf=psf, prefix=[op, op2], depth=4)
            else:
                yield 'object', dict(psf=psf, prefix=[op], depth=3 if psf == 'dilate' else 2)
