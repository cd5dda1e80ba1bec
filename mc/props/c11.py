"""
C11  metacal outputs and inputs
"""
import itertools
import numpy as np
import ngmix
import galsim
from ngmix import metacal, ObsList, MultiBandObsList
from ngmix.gexceptions import BootPSFFailure
from mc.core import fp
from mc import data as D
from mc.props.c10 import same
from mc.props.c09 import image, jacobian

LEVEL = 'model_checking'
RULE = (
    'get_all_metacal on the complete product of: every subset of image types, every psf '
    'kind, fixnoise, noise source, container structure (single, lists, bands x epochs), '
    'jacobian and weight pattern; images compared with galsim drawings of the sheared '
    'true profile convolved with the returned psf, with the single-observation result '
    'and, for the noise part, by linearity; scripted success and failure of each psf fit '
    'attempt; inputs compared before and after.'
)
ASSUMPTIONS = ['square stamps when fixing noise (the field is rotated)', 'no empty lists',
               'noshear and 1p are made together, either may come with the other (the existing tests require it)']

ALL = ['noshear', '1p', '1m', '2p', '2m', '1p_psf', '1m_psf', '2p_psf', '2m_psf']
MIN = ALL[:5]
G = {'noshear': (0, 0), '1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}


def types_of(psf):
    return ALL if psf == 'dilate' else MIN


def psfarg(psf):
    return galsim.Gaussian(fwhm=1.25, flux=1.0) if psf == 'gs' else psf


STAMPS = {'sq': ((15, 15), (15, 15)), 'im': ((13, 16), (15, 15)), 'psf': ((15, 15), (16, 13)), 'both': ((14, 17), (11, 14))}


def mkobs(k=0, jac='shear', w='const', full=False, truth=False, psfT=1.0, stamp='sq'):
    """k makes observations distinct"""
    dims, pdims = STAMPS[stamp]
    j = jacobian(jac, (dims[0] - 1) / 2.0 + 0.13 - 0.1 * k, (dims[1] - 1) / 2.0 - 0.21 + 0.07 * k)
    pj = jacobian(jac, (pdims[0] - 1) / 2.0 + 0.05 * k, (pdims[1] - 1) / 2.0 + 0.02)
    im = image('pos', max(dims), j)[:dims[0], :dims[1]] * (1 + 0.3 * k)
    wt = np.full(dims, 1e4 + k)
    if w == 'varied':
        wt *= 1 + 0.1 * (np.arange(im.size).reshape(dims) % 7)
    if w == 'zeros':
        wt[2:4, 5] = 0
        wt[dims[0] // 2, dims[1] // 2 + 1] = 0
    if w == 'most':
        wt[:] = 0
        wt[7, 7] = 50.0
    sc = j.scale
    pim = image('round', max(pdims), pj, T=3.2 * sc ** 2 * psfT * (1 + 0.05 * k))[:pdims[0], :pdims[1]]
    pim = pim / pim.sum()
    psf = ngmix.Observation(pim, weight=np.full(pdims, 1e6), jacobian=pj, meta={'psfid': k})
    kw = dict(weight=wt, jacobian=j, psf=psf, meta={'id': k, 'z': [1, k]})
    if full:
        kw.update(bmask=np.arange(im.size, dtype='i4').reshape(dims), ormask=np.ones(dims, dtype='i4') * k,
                  noise=D.noise(dims, k) * 0.01, mfrac=np.full(dims, 0.1 * k))
    return ngmix.Observation(im, **kw)


def run(obs, psf, types=None, fix=False, seed=None, step=0.01, useim=False):
    rng = np.random.RandomState(seed) if seed is not None else None
    return metacal.get_all_metacal(obs, psf=psfarg(psf), types=types, fixnoise=fix, rng=rng, step=step,
                                   use_noise_image=useim)


def tsnap(r):
    return {k: D.snap(o) for k, o in r.items()}


# ---------------------------------------------------------------------------


def k_listmod(case, rec):
    t = list(case['types'])
    run(mkobs(), case['psf'], types=t, seed=3)
    rec.trans()
    rec.trace()
    rec.eval()
    rec.state(fp(case))
    rec.outcome('list')
    if t != case['types']:
        rec.fail('types-modified', 'the list of types %s is %s after the call' % (case['types'], t))


def k_types(case, rec):
    psf = case['psf']
    full = tsnap(run(mkobs(), psf, types=list(types_of(psf)), seed=3))
    dflt = tsnap(run(mkobs(), psf, seed=3))
    if set(dflt) != set(types_of(psf)):
        rec.fail('default-types', '%s: default gives %s' % (psf, sorted(dflt)))
    for t in case['subsets']:
        types = list(t)
        obs = mkobs()
        before = D.snap(obs)
        r = run(obs, psf, types=types, seed=3)
        rec.trans()
        rec.trace()
        rec.eval(len(r))
        rec.state(fp(psf, t))
        rec.outcome(len(r))
        if types != t and types != t + ['1p']:
            rec.fail('types-modified-otherwise', '%s became %s' % (t, types))
        if not set(t) <= set(r) or not set(r) <= set(t) | {'noshear', '1p'} or (
                set(r) != set(t) and not set(t) & {'noshear', '1p'}):
            rec.fail('types', '%s: asked for %s, got %s' % (psf, t, sorted(r)))
        for k in r:
            d = same(D.snap(r[k]), full[k])
            if d:
                rec.fail('type-result', '%s types %s: %s differs from the one in the full set: %s' % (psf, t, k, d))
        d = D.diff(before, D.snap(obs))
        if d:
            rec.fail('input', '%s types %s: %s' % (psf, t, d))
        # the images are separate objects
        objs = list(r.values())
        for a, b in itertools.combinations(range(len(objs)), 2):
            if np.shares_memory(objs[a].image, objs[b].image) or objs[a].psf is objs[b].psf \
                    or np.shares_memory(objs[a].psf.image, objs[b].psf.image):
                rec.fail('shared', '%s types %s: results share data' % (psf, t))
    for bad in (['bad'], ['1p', 'noshear '], ['1P']) + ((['1p_psf'],) if psf != 'dilate' else ()):
        try:
            run(mkobs(), psf, types=list(bad), seed=3)
            rec.fail('bad-type', '%s accepted %s' % (psf, bad))
        except (AssertionError, ValueError):
            pass


def build_struct(s, full, w, jac, stamp='sq'):
    """s: 'obs', int n (ObsList) or list of ints (bands)"""
    if s == 'obs':
        return mkobs(1, jac=jac, full=full, w=w, stamp=stamp)
    if isinstance(s, int):
        o = ObsList(meta={'list': s})
        for i in range(s):
            o.append(mkobs(i, jac=jac, full=full, w=w, stamp=stamp))
        return o
    mb = MultiBandObsList(meta={'mb': 1})
    q = 0
    for n in s:
        o = ObsList(meta={'n': n})
        for i in range(n):
            o.append(mkobs(q, jac=jac, full=full, w=w, stamp=stamp))
            q += 1
        mb.append(o)
    return mb


def leaves(o):
    if isinstance(o, ngmix.Observation):
        return [o]
    return [x for y in o for x in leaves(y)]


def shape_of(o):
    if isinstance(o, ngmix.Observation):
        return 'o'
    return [type(o).__name__] + [shape_of(x) for x in o]


def k_struct(case, rec):
    psf, s, fix, useim, w, jac = (case[k] for k in ('psf', 's', 'fix', 'useim', 'w', 'jac'))
    full = useim or case['full']
    obs = build_struct(s, full, w, jac, case.get('stamp', 'sq'))
    before = D.snap(obs)
    types = case['types']
    g0 = np.random.get_state()[1].copy()
    seed = 7 if (fix and not useim) or psf == 'fitgauss' or case.get('rng') else None
    arg = psfarg(psf)
    argrepr = repr(arg)
    rng = np.random.RandomState(seed) if seed is not None else None
    r = metacal.get_all_metacal(obs, psf=arg, types=list(types), fixnoise=fix, rng=rng, use_noise_image=useim)
    rec.trans()
    rec.trace()
    rec.state(fp(case))
    rec.outcome((str(s), fix))
    if repr(arg) != argrepr:
        rec.fail('psf-arg', 'the psf passed changed')
    if not np.array_equal(g0, np.random.get_state()[1]):
        rec.fail('global-rng', 'numpy global random state advanced')
    d = D.diff(before, D.snap(obs))
    if d:
        rec.fail('input', '%s: %s' % (case, d))
    r2 = run(obs, psf, list(types), fix, seed, useim=useim)
    d = same(tsnap(r), tsnap(r2))
    if d:
        rec.fail('repeat', 'same inputs and random state give different results: %s' % d)
    if seed is not None and psf != 'dilate':
        # the returned psfs have the small noise their weights declare
        r3 = run(obs, psf, list(types), fix, seed + 1, useim=useim)
        for t in r:
            for a, b in zip(leaves(r[t]), leaves(r3[t])):
                got = np.std(a.psf.image - b.psf.image) / np.sqrt(2)
                want = 1 / np.sqrt(np.median(a.psf.weight))
                if not 0.5 * want < got < 2 * want:
                    rec.fail('psf-noise', '%s: noise of the psf image %.3g, weight declares %.3g' % (t, got, want))
                if not want < 1e-3 * np.abs(a.psf.image).max():
                    rec.fail('psf-noise', '%s: noise of the psf %.3g is not small' % (t, want))
    if seed is not None and fix and not useim:
        d = same(tsnap(r), tsnap(run(obs, psf, list(types), fix, seed + 1, useim=useim)))
        if not d:
            rec.fail('rng-ignored', 'another random state gives the same result')
    lin = leaves(obs)
    for t in r:
        rec.eval(len(lin))
        if shape_of(r[t]) != shape_of(obs):
            rec.fail('structure', '%s: %s instead of %s' % (t, shape_of(r[t]), shape_of(obs)))
            continue
        for a, b in zip(lin, leaves(r[t])):
            sa, sb = D.snap(a), D.snap(b)
            if a is b or np.shares_memory(a.image, b.image) or np.shares_memory(a.weight, b.weight) \
                    or a.psf is b.psf or np.shares_memory(a.psf.image, b.psf.image) or a.meta is b.meta:
                rec.fail('shared', '%s: result shares data with the input' % t)
            for k in ('bmask', 'ormask', 'noise', 'mfrac', 'jac', 'gmix', 'meta', 'kind'):
                d = D.diff(sa[k], sb[k], rtol=1e-12)
                if d:
                    rec.fail('carried:%s' % k, '%s: %s' % (t, d))
            d = D.diff(sa['psf']['meta'], sb['psf']['meta'])
            if d:
                rec.fail('carried:psfmeta', '%s: %s' % (t, d))
            if sb['psf']['image'].shape != sa['psf']['image'].shape:
                rec.fail('psf-shape', t)
            # weights
            want = sa['weight'].copy()
            if fix:
                p = want != 0
                want[p] = 1 / (1 / want[p] + 1 / want[p])
            if not np.allclose(sb['weight'], want, rtol=1e-12):
                rec.fail('weight', '%s fixnoise %s: weight %s... expected %s...' % (
                    t, fix, sb['weight'].ravel()[:3], want.ravel()[:3]))
            # pixels belong to the new image and weight
            f = ngmix.Observation(sb['image'], weight=sb['weight'], jacobian=b.jacobian)
            if not np.allclose(f.pixels['val'], b.pixels['val']) or not np.allclose(f.pixels['ierr'], b.pixels['ierr']):
                rec.fail('pixels', '%s: pixels are not those of the new image' % t)
            # jacobian of the psf
            ja, jb = sa['psf']['jac'], sb['psf']['jac']
            cen = ja[:2] if psf == 'dilate' else [(x - 1) / 2.0 for x in sa['psf']['image'].shape]
            if not np.allclose(list(cen) + list(ja[2:]), jb, rtol=1e-12):
                rec.fail('psf-jacobian', '%s: %s, input %s' % (t, jb, ja))
    # element by element
    if seed is None and s != 'obs':
        for q, a in enumerate(lin):
            one = run(a, psf, list(types), fix, None, useim=useim)
            rec.trans()
            for t in r:
                d = same(D.snap(leaves(r[t])[q]), D.snap(one[t]))
                if d:
                    rec.fail('element', '%s of element %d: %s' % (t, q, d))
    # noise part: linear, made from the noise field alone
    if fix and useim:
        base = run(obs, psf, list(types), False, seed)
        for q, a in enumerate(lin):
            nobs = a.copy()
            nobs.image = np.rot90(a.noise, k=1).copy()
            nr = run(nobs, psf, list(types), False, seed)
            rec.trans()
            for t in r:
                got = leaves(r[t])[q].image - leaves(base[t])[q].image
                want = np.rot90(nr[t].image, k=3)
                if np.abs(got - want).max() > (1e-3 if psf == 'fitgauss' else 1e-9) * np.abs(want).max() + 1e-12:
                    rec.fail('noise-image', '%s of element %d: the noise added is not the transformed noise field' % (t, q))


def moments2(im, jac):
    """second moments of a noiseless image"""
    rr, cc = np.mgrid[0:im.shape[0], 0:im.shape[1]]
    v, u = jac.get_vu(rr.astype(float), cc.astype(float))
    f = im / im.sum()
    return np.array([[(f * v * v).sum(), (f * u * v).sum()], [(f * u * v).sum(), (f * u * u).sum()]])


def k_profile(case, rec):
    """images against drawings of the true profile"""
    psf, jac, step = case['psf'], case['jac'], case['step']
    (ny, nx), (py, px) = case['dims']
    j = jacobian(jac, (ny - 1) / 2.0, (nx - 1) / 2.0)
    pj = jacobian(jac, (py - 1) / 2.0, (px - 1) / 2.0)
    wcs = j.get_galsim_wcs()
    sc = j.scale
    gal = galsim.Gaussian(fwhm=3.6 * sc, flux=case['flux']).shear(g1=0.1, g2=-0.15).shift(0.3 * sc, -0.2 * sc)
    p0 = galsim.Gaussian(fwhm=3.0 * sc, flux=1.0)
    if case['pell']:
        p0 = p0.shear(g1=-0.05, g2=0.08)
    im = galsim.Convolve(gal, p0).drawImage(nx=nx, ny=ny, wcs=wcs, dtype=float).array
    pim = p0.drawImage(nx=px, ny=py, wcs=wcs, dtype=float).array
    p = ngmix.Observation(pim, weight=np.full((py, px), 1e8), jacobian=pj)
    obs = ngmix.Observation(im, weight=np.full((ny, nx), 1e8), jacobian=j, psf=p)
    arg = galsim.Gaussian(fwhm=4.0 * sc) if psf == 'gs' else psf
    rng = np.random.RandomState(4) if psf == 'fitgauss' else None
    r = metacal.get_all_metacal(obs, psf=arg, fixnoise=False, rng=rng, step=step)
    pix = wcs.toWorld(galsim.Pixel(1.0))
    for t, o in r.items():
        rec.trans()
        rec.eval()
        rec.trace()
        rec.state(fp(case, t))
        rec.outcome(t)
        s = [step * x for x in G[t.split('_')[0]]]
        dil = 1 + 2 * step     # also of noshear, which goes with 1p
        if psf == 'dilate':
            tp = p0.dilate(dil)
            if t.endswith('_psf'):
                tp = tp.shear(g1=s[0], g2=s[1])
            tp = galsim.Convolve(tp, pix)
        elif psf == 'gs':
            tp = arg.dilate(dil)
        else:
            # the documented kernel is a round gaussian with the flux of the psf
            # larger than the psf; its size is taken from the returned image
            a = o.psf.image
            rr, cc = np.mgrid[0:py, 0:px]
            v, u = o.psf.jacobian.get_vu(rr.astype(float), cc.astype(float))
            use = a > a.max() * 0.05
            X = np.array([np.ones(use.sum()), u[use], v[use], u[use] ** 2, u[use] * v[use], v[use] ** 2]).T
            co = np.linalg.lstsq(X, np.log(a[use]), rcond=None)[0]
            k = -0.5 * (co[3] + co[5])
            if max(abs(co[3] - co[5]), abs(co[4]), abs(co[1]) * sc, abs(co[2]) * sc) > 2e-3 * k:
                rec.fail('psf-round', '%s %s: returned psf is not a centred round gaussian: %s' % (psf, t, co))
            sig = np.sqrt(1 / (2 * k))
            tp = galsim.Gaussian(sigma=sig, flux=pim.sum())
            # larger than the psf
            if sig < 0.999 * p0.calculateMomentRadius() * (1 + step):
                rec.fail('psf-size', '%s %s: target psf sigma %s not larger than the psf' % (psf, t, sig))
            # the size of the fitted psf, pixel included, grown only by what the shear and the ellipticity need
            vals = np.linalg.eigvalsh(moments2(pim, pj))
            if psf == 'fitgauss' and sig > 1.01 * np.sqrt(vals.max()) * np.sqrt(1.1) * dil:
                rec.fail('psf-size', '%s %s: target psf sigma %s far larger than the fitted psf' % (psf, t, sig))
        want = tp.drawImage(nx=px, ny=py, wcs=wcs, dtype=float, method='no_pixel').array
        if np.abs(want - o.psf.image).max() > 2e-3 * want.max():
            rec.fail('psf-image', '%s %s: psf image differs by %.2g of peak' % (
                psf, t, np.abs(want - o.psf.image).max() / want.max()))
        g = gal if (t.endswith('_psf') or t == 'noshear') else gal.shear(g1=s[0], g2=s[1])
        want = galsim.Convolve(g, tp).drawImage(nx=nx, ny=ny, wcs=wcs, dtype=float, method='no_pixel').array
        d = np.abs(want - o.image).max() / np.abs(want).max()
        if d > 1.5e-3:
            rec.fail('image', '%s %s: image differs from the expected profile by %.2g of peak' % (psf, t, d))


def k_fitfail(case, rec):
    """scripted outcomes of the psf fits of MetacalFitGaussPSF"""
    from ngmix.admom import AdmomFitter
    from ngmix.fitting import Fitter
    obs = mkobs(1)
    obs.psf.image = obs.psf.image + 1e-5 * D.noise((15, 15), 3)
    if case['gm']:
        pars = [0, 0, 0.05, 0.02, 0.3, 1.0]
        gm = ngmix.GMixModel(pars, 'gauss') if case['gm'] == 1 else ngmix.GMixModel([0, 0, 0, 0, .3, 1.], 'turb')
        if case['gm'] == 3:
            gm = ngmix.GMix(pars=[1.0, 0, 0, 0, 0, 0])    # a point, without a shape
        obs.psf.gmix = gm
    before = D.snap(obs)
    oa, ol = AdmomFitter.go, Fitter.go
    calls = {'a': 0, 'l': 0}

    def scripted(orig, name, ok):
        def go(self, *a, **k):
            r = orig(self, *a, **k)
            i = calls[name]
            calls[name] += 1
            if i != ok:
                r['flags'] = 2 ** 5
            return r
        return go
    AdmomFitter.go = scripted(oa, 'a', case['a'])
    Fitter.go = scripted(ol, 'l', case['l'])
    try:
        try:
            r = run(obs, 'fitgauss', seed=5)
            out = 'ok'
        except BootPSFFailure:
            r, out = None, 'fail'
    finally:
        AdmomFitter.go, Fitter.go = oa, ol
    rec.trans()
    rec.trace()
    rec.eval()
    rec.state(fp(case))
    rec.outcome(out)
    want = 'ok' if (0 <= case['a'] < 4 or 0 <= case['l'] < 4 or case['gm'] == 1) else 'fail'
    if out != want:
        rec.fail('fitfail', '%s: %s, expected %s' % (case, out, want))
    d = D.diff(before, D.snap(obs))
    if d:
        rec.fail('input', '%s: %s' % (case, d))
    if r is not None and set(r) != set(MIN):
        rec.fail('types', '%s' % sorted(r))


KINDS = {'types': k_types, 'listmod': k_listmod, 'struct': k_struct, 'profile': k_profile, 'fitfail': k_fitfail}
CHUNK = 2
CASE_TIMEOUT = 300


def warmup():
    run(mkobs(), 'fitgauss', seed=2, fix=True)


def cases(tier):
    th = tier == 'thorough'
    yield 'listmod', dict(psf='gauss', types=['noshear'])
    for psf in ('gauss', 'fitgauss', 'gs', 'dilate'):
        T = types_of(psf)
        subs = [list(c) for k in range(1, len(T) + 1) for c in itertools.combinations(T, k)]
        if psf == 'dilate' and not th:
            subs = [s for s in subs if len(s) <= 2 or len(s) >= 8]
        subs += [list(reversed(s)) for s in subs if len(s) in (2, 3)]
        for i in range(0, len(subs), 8):
            yield 'types', dict(psf=psf, subsets=subs[i:i + 8])
    structs = ['obs', 1, 2, 3, [1], [1, 1], [2, 1], [1, 2]] + ([[2, 2], [1, 1, 1], [3, 1, 2]] if th else [])
    for psf in ('gauss', 'fitgauss', 'gs', 'dilate'):
        ty = [['noshear', '1p', '2m']] if not th else [['noshear', '1p', '2m'], ['1m'], MIN]
        if psf == 'dilate':
            ty = [['noshear', '1p', '2m', '1m_psf']] + ([ALL] if th else [])
        for s in structs:
            for fix, useim in ((False, False), (True, False), (True, True)):
                for types in ty:
                    ws = ('const', 'varied', 'zeros', 'most') if s in ('obs', [2, 1]) or th else ('zeros',)
                    for w in ws:
                        for full in (False, True):
                            yield 'struct', dict(psf=psf, s=s, fix=fix, useim=useim, w=w, jac='shear', full=full, types=types)
        for stamp in ('im', 'psf', 'both'):
            for s in ('obs', [2, 1]):
                for jac in ('shear', 'small', 'flip'):
                    yield 'struct', dict(psf=psf, s=s, fix=False, useim=False, w='varied', jac=jac, full=True,
                                         types=ty[0], stamp=stamp)
            yield 'struct', dict(psf=psf, s='obs', fix=True, useim=False, w='varied', jac='shear', full=True,
                                 types=ty[0], stamp='psf')
        for jac in ('small', 'flip', 'big'):
            yield 'struct', dict(psf=psf, s='obs', fix=True, useim=False, w='varied', jac=jac, full=True, types=ty[0], rng=True)
        for jac in ('small', 'shear', 'flip', 'big', 'unit'):
            for step in (0.01, 0.04) + ((0.001, 0.1) if th else ()):
                for pell in (False, True):
                    for dims in (((49, 49), (49, 49)), ((48, 53), (45, 50))):
                        if dims[0][0] == 49 or th or (step == 0.01 and jac in ('shear', 'flip')):
                            yield 'profile', dict(psf=psf, jac=jac, step=step, pell=pell, flux=100.0, dims=dims)
        for jac in ('shear', 'small', 'long'):
            # a large step, where the pixel of the psf matters
            yield 'profile', dict(psf=psf, jac=jac, step=0.2, pell=False, flux=100.0, dims=((61, 61), (61, 61)))
    for a in (-1, 0, 1, 3, 4):
        for l in (-1, 0, 3, 4):
            for gm in (0, 1, 2, 3):
                yield 'fitfail', dict(a=a, l=l, gm=gm)
