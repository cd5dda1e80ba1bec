"""
C30  what is in pixels without weight does not matter

Every measurement in real space is run for every pattern of unused pixels with every
kind of content in them, and compared with the result for zeros in these pixels; with
the pixels stored or not stored; and with a border of unused pixels added.
"""
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix import guessers as G
from mc.core import fp
from mc import data as D
from mc.props import c14
from mc.props.c10 import same

LEVEL = 'model_checking'
RULE = (
    'Real-space measurements, fitters, guessers, runners x patterns of pixels without weight (every single '
    'pixel, every row and column, border, halves, checkerboard, all but the centre; thorough: all pairs of '
    'pixels of a row or column) x what is in them (large positive and negative numbers, nan, infinities) x weight '
    '(0, negative, nan) x how the mask came about (construction, setters, in place in a writeable block) x the observation '
    'concerned (object, psf, second exposure or band).  Results are compared with those for zeros in the unused pixels; '
    'results with these pixels stored, or with a border of unused pixels added, with those without.'
)
ASSUMPTIONS = [
    'measurements in Fourier space use all pixels and are not meant (galsim fits, pre-psf moments, metacal)',
    'stored pixels (ignore_zero_weight=False) hold finite numbers',
]
CASE_TIMEOUT = 300
CHUNK = 2

SHAPE = (8, 9)
CONTENT = {'zero': 0.0, 'big': 1.0e3, 'neg': -1.0e3, 'nan': np.nan, 'inf': np.inf, 'ninf': -np.inf, 'mix': None}
WVAL = {'0': 0.0, '-1': -1.0, 'nan': np.nan}


def jac(b=0, off=0):
    if b:
        return ngmix.Jacobian(row=3.9 + off, col=3.3 + off, dvdrow=.29, dvdcol=.02, dudrow=.01, dudcol=.31)
    return ngmix.Jacobian(row=3.6 + off, col=4.2 + off, dvdrow=.27, dvdcol=-.01, dudrow=.02, dudcol=.28)


def psf_images(b):
    pj = jac(b)
    pj.set_cen(row=4.1, col=3.9)
    pg = ngmix.GMixModel([0., 0., .03, -.02, .25, 1.], 'gauss')
    return pg.make_image((9, 9), jacobian=pj) + 1e-5 * D.noise((9, 9), 1 + b), np.full((9, 9), 1e9), pj, pg


def object_images(b):
    j = jac(b)
    gm = ngmix.GMixModel([.03, -.02, .05, .02, .5, 3. + b], 'exp').convolve(psf_images(b)[3])
    im = gm.make_image(SHAPE, jacobian=j) + .002 * D.noise(SHAPE, 5 + b)
    w = 2e5 * (1 + .3 * np.cos(np.arange(im.size))).reshape(SHAPE)
    return im, w, j


def masks(shape, tier='quick'):
    nr, nc = shape
    z = np.zeros(shape, dtype=bool)
    out = {}

    def put(name, sl):
        m = z.copy()
        m[sl] = True
        out[name] = m
    for r in range(nr):
        for c in range(nc):
            put('p%d,%d' % (r, c), (r, c))
    for r in range(nr):
        put('r%d' % r, (r, slice(None)))
    for c in range(nc):
        put('c%d' % c, (slice(None), c))
    put('top', (slice(0, nr // 2), slice(None)))
    put('bottom', (slice(nr // 2, None), slice(None)))
    put('left', (slice(None), slice(0, nc // 2)))
    put('right', (slice(None), slice(nc // 2, None)))
    b = ~z
    b[1:-1, 1:-1] = False
    out['border'] = b
    b = ~z
    b[2:-2, 2:-2] = False
    out['border2'] = b
    out['check'] = np.add.outer(np.arange(nr), np.arange(nc)) % 2 == 0
    out['check1'] = ~out['check']
    put('corner', (slice(0, 3), slice(0, 3)))
    b = ~z
    b[nr // 2 - 1:nr // 2 + 2, nc // 2 - 1:nc // 2 + 2] = False
    out['core'] = b
    if tier == 'thorough':
        for r in range(nr):
            for c in range(nc):
                for c2 in range(c + 1, nc):
                    put('q%d,%d,%d' % (r, c, c2), (r, [c, c2]))
    return out


def fill(im, mask, content):
    im = im.copy()
    if content == 'mix':
        v = np.array([np.nan, 1e3, np.inf, -1e3, 0.0, -np.inf])
        im[mask] = v[np.arange(mask.sum()) % v.size]
    elif content == 'own':
        pass
    else:
        im[mask] = CONTENT[content]
    return im


def build(im, w, mask, content, wval, route, stored, **kw):
    im1 = fill(im, mask, content)
    w1 = w.copy()
    w1[mask] = WVAL[wval]
    if stored:
        kw['ignore_zero_weight'] = False
    if route == 'init':
        return Observation(im1, weight=w1, **kw)
    o = Observation(im, weight=w, **kw)
    if route == 'set':
        o.set_weight(w1)
        o.set_image(im1)
    elif route == 'set2':
        o.set_image(im1)
        o.set_weight(w1)
    else:
        with o.writeable():
            o.image[mask] = im1[mask]
            o.weight[mask] = w1[mask]
    return o


NOMASK = np.zeros(SHAPE, dtype=bool)


def mkpsf(b, sp=None):
    pim, pw, pj, pg = psf_images(b)
    if sp is None:
        return Observation(pim, weight=pw, jacobian=pj, gmix=pg)
    o = build(pim, pw, sp['mask'], sp['content'], sp['wval'], sp['route'], sp['stored'], jacobian=pj)
    if not sp.get('bare'):
        o.set_gmix(pg)
    return o


def mkobs(b, sp=None, psp=None):
    im, w, j = object_images(b)
    psf = mkpsf(b, psp)
    if sp is None:
        return Observation(im, weight=w, jacobian=j, psf=psf)
    if sp.get('pad'):
        t, bt, l, r = sp['pad']
        m = np.pad(np.zeros(im.shape, dtype=bool), ((t, bt), (l, r)), constant_values=True)
        im, w = np.pad(im, ((t, bt), (l, r))), np.pad(w, ((t, bt), (l, r)))
        j = j.copy()
        j.set_cen(row=j.row0 + t, col=j.col0 + l)
        if sp['mask'] is not None:
            m[t:t + SHAPE[0], l:l + SHAPE[1]] |= sp['mask']
        return build(im, w, m, sp['content'], sp['wval'], 'init', sp['stored'], jacobian=j, psf=psf)
    return build(im, w, sp['mask'], sp['content'], sp['wval'], sp['route'], sp['stored'], jacobian=j, psf=psf)


def container(kind, where, sp):
    """kind O, L, M; where: obj0, obj1, psf0, psf1"""
    n = 1 if kind == 'O' else 2
    obs = [mkobs(b, sp if where == 'obj%d' % b else None, sp if where == 'psf%d' % b else None) for b in range(n)]
    if kind == 'O':
        return obs[0]
    if kind == 'L':
        ol = ObsList()
        for o in obs:
            ol.append(o)
        return ol
    mb = MultiBandObsList()
    for o in obs:
        ol = ObsList()
        ol.append(o)
        mb.append(ol)
    return mb


# ---------------------------------------------------------------------------
# entries

OWN = {}
GM = [.02, .01, .06, -.03, .6, 2.7]


def own(f):
    OWN[f.__name__[2:]] = f
    return f


def gmc():
    return ngmix.GMixModel(GM, 'exp').convolve(psf_images(0)[3])


@own
def e_loglike(obs):
    gm = gmc()
    r = gm.get_loglike(obs, more=True)
    return dict(a=gm.get_loglike(obs), more={k: r[k] for k in ('loglike', 's2n_numer', 's2n_denom')})


@own
def e_model_s2n(obs):
    return gmc().get_model_s2n(obs)


@own
def e_fdiff(obs):
    fd = np.zeros(obs.image.size + 2)
    gmc().fill_fdiff(obs, fd, start=2)
    return [fd[:obs.pixels.size + 2], bool(np.all(fd[obs.pixels.size + 2:] == 0.0))]


@own
def e_s2n(obs):
    return [obs.get_s2n(), list(obs.get_s2n_sums())]


@own
def e_wsums(obs):
    gm = ngmix.GMixModel([.02, .01, .0, .0, .6, 1.], 'gauss')
    out = []
    for ho in (False, True):
        for mr in (.9, 5.):
            res = gm.get_weighted_sums(obs, mr, with_higher_order=ho)
            out.append({k: np.array(res[k]) for k in res.dtype.names} if res.dtype.names else np.array(res))
            m = gm.get_weighted_moments(obs, mr, with_higher_order=ho)
            out.append(c14.reduce({k: m[k] for k in m if k != 'numiter'}))
    return out


@own
def e_em_given(obs):
    o = ngmix.em.EMFitter(miniter=10, maxiter=40, tol=1e-3)
    g = ngmix.GMix(pars=[1., .02, .01, .2, .01, .25, 1.5, -.02, .03, .4, 0., .35])
    return c14.reduce(o.go(obs=obs, guess=g, sky=.05))


@own
def e_prep_obs(obs):
    o, sky = ngmix.em.prep_obs(obs)
    return sky


@own
def e_admom_image(obs):
    o = ngmix.admom.AdmomFitter()
    r = o.go(obs=obs, guess=ngmix.GMixModel([.02, .01, .03, .01, .6, 1.], 'gauss'))
    return c14.reduce(r.make_image()) if r['flags'] == 0 else r['flags']


@own
def e_tmpl(obs):
    im, w, j = object_images(0)
    o = Observation(obs.image, weight=obs.weight, jacobian=obs.jacobian, psf=mkpsf(0),
                    ignore_zero_weight=obs.ignore_zero_weight)
    o.template = gmc().make_image(obs.image.shape, jacobian=obs.jacobian) + 1e-3
    return c14.reduce(ngmix.fitting.PSFFluxFitter(do_psf=False).go(obs=o))


REGO = ['fit-gauss', 'fit-exp', 'fit-dev-prior', 'fit-bdf', 'fit-bd', 'fit-coellip', 'psfflux', 'tflux', 'galsim-psfflux',
        'em', 'em-fixcen', 'em-fixcov', 'em-fluxonly', 'em-sky', 'run_em', 'admom', 'admom-T', 'find_cen', 'gaussmom', 'wmom',
        'g-tpsfflux', 'g-tpsffluxprior', 'g-bdfpsfflux', 'g-gmixpsf10', 'g-gmixpsf11', 'g-gmixpsf21', 'g-gmixpsf30',
        'g-simplepsf', 'g-coellippsf', 'runner', 'boot']
REGL = ['fit-gauss', 'fit-dev-prior', 'psfflux', 'galsim-psfflux', 'g-tpsfflux', 'g-tpsffluxprior', 'runner', 'boot']
REGM = ['fit-gauss-mb']
# entries that use the image of the psf
REGP = ['boot', 'g-gmixpsf10', 'g-gmixpsf11', 'g-gmixpsf20', 'g-gmixpsf31', 'g-simplepsf', 'g-coellippsf', 'em', 'admom', 'gaussmom',
        'fit-coellip']
# results that do not depend on whether unused pixels are stored
STORED = ['psfflux', 'tflux', 'galsim-psfflux', 'admom', 'admom-T', 'find_cen', 'gaussmom', 'wmom', 'g-gmixpsf10', 'g-gmixpsf11',
          'g-simplepsf', 'g-coellippsf', 'g-tpsfflux', 'own:loglike', 'own:model_s2n', 'own:s2n', 'own:wsums', 'own:prep_obs',
          'own:admom_image', 'own:tmpl', 'em', 'em-fixcen', 'em-fluxonly', 'run_em']
# ... or on how large the border of unused pixels is
PAD = ['fit-gauss', 'fit-exp', 'fit-dev-prior', 'fit-bdf', 'fit-coellip', 'psfflux', 'tflux', 'admom', 'gaussmom', 'wmom', 'runner',
       'own:loglike', 'own:model_s2n', 'own:fdiff', 'own:s2n', 'own:wsums', 'own:prep_obs', 'own:em_given', 'g-gmixpsf10',
       'g-gmixpsf11', 'g-tpsfflux']


def run(name, kind, obs):
    if name.startswith('own:'):
        try:
            return OWN[name[4:]](obs)
        except ngmix.GMixRangeError as err:
            return ('raised', type(err).__name__)
    e = c14.REG[name]
    rng = np.random.RandomState(3)
    o = e.make(rng)
    args = e.args({'O': 'A', 'L': 'L', 'M': 'M'}[kind])
    rng.seed(11)
    try:
        res = e.run(o, obs, **args)
    except ngmix.GMixRangeError as err:
        return ('raised', type(err).__name__)
    except Exception as err:
        return ('raised', '%s: %s' % (type(err).__name__, err))
    out = c14.reduce(res)
    # images of the data are not part of a result
    if name == 'boot' and isinstance(out, (dict, list)):
        out = clean(out)
    return out


def clean(x):
    if isinstance(x, dict):
        if 'image' in x and 'weight' in x:
            return {'obs': 0, 'gmix': clean(x.get('gmix')), 'psf': clean(x.get('psf'))}
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ('nfev', '()make_image', '()fdiff', 'ier', 'pars_cov', 'pars_cov0',
                                                               'g_cov', 'pars_err', 'g_err', 'T_err', 'flux_err', 'flux_cov', 'errmsg')}
    if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and x and x[0] == 'raised'):
        return [strip(v) for v in x]
    return x


def diff(a, b, rt=1e-10):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None if a == b else '%s and %s' % (str(a)[:80] if isinstance(a, tuple) else 'a result',
                                                  str(b)[:80] if isinstance(b, tuple) else 'a result')
    return same(a, b, rt=rt)


def spec(case, mask, content, wval=None, route=None, stored=None):
    return dict(mask=mask, content=content, wval=wval or case.get('wval', '0'), route=route or case.get('route', 'init'),
                stored=case.get('stored', False) if stored is None else stored, bare=case.get('bare', False),
                pad=case.get('pad'))


def target(where):
    if where.startswith('psf'):
        return (9, 9)
    return SHAPE


def k_content(case, rec):
    """contents, weights and routes against zeros put in at construction"""
    mask = masks(target(case['where']), 'thorough')[case['mask']]
    kind, where = case['kind'], case['where']
    for name in case['entries']:
        ref = None
        base = container(kind, where, spec(case, mask, 'zero', '0', 'init'))
        if where.startswith('psf') and name != 'boot':
            base = base.psf if kind == 'O' else base
        ref = run(name, kind, base)
        rec.state(fp(name, kind, where, case['mask'], case.get('stored', False)))
        rec.outcome('%s:%s' % (name, ref[1].split(':')[0] if isinstance(ref, tuple) else 'value'))
        for content in case['contents']:
            if case.get('stored') and content in ('nan', 'inf', 'ninf', 'mix'):
                continue
            obs = container(kind, where, spec(case, mask, content))
            if where.startswith('psf') and name != 'boot':
                obs = obs.psf if kind == 'O' else obs
            r = run(name, kind, obs)
            rec.trans()
            rec.eval()
            d = diff(r, ref)
            if d:
                rec.fail('content:%s%s' % (name, ':stored' if case.get('stored') else ''),
                         '%s on %s with %s in pixels %s of %s, weight %s, %s: %s' % (
                             name, kind, content, case['mask'], where, case['wval'], case['route'], d),
                         case=dict(case, entries=[name], contents=[content]))
                break
    rec.trace()


def k_stored(case, rec):
    """unused pixels stored or not: the same measurement"""
    mask = masks(SHAPE, 'thorough')[case['mask']]
    for name in case['entries']:
        a = run(name, 'O', container('O', 'obj0', spec(case, mask, 'zero', '0', 'init', False)))
        rec.state(fp(name, case['mask']))
        for content in case['contents']:
            b = run(name, 'O', container('O', 'obj0', spec(case, mask, content, None, None, True)))
            rec.trans()
            rec.eval()
            d = diff(b, a)
            if d:
                rec.fail('stored:%s' % name, '%s with %s in stored pixels %s: %s' % (name, content, case['mask'], d),
                         case=dict(case, entries=[name], contents=[content]))
                break
    rec.trace()


def k_pad(case, rec):
    """a border of unused pixels changes nothing"""
    for name in case['entries']:
        mask = masks(SHAPE)[case['mask']] if case['mask'] else None
        c0 = dict(case)
        c0.pop('pad')
        a = run(name, 'O', container('O', 'obj0', spec(c0, NOMASK if mask is None else mask, 'zero', '0', 'init', False)))
        rec.state(fp(name, case['pad'], case['mask']))
        for content in case['contents']:
            b = run(name, 'O', container('O', 'obj0', spec(case, mask, content, None, None, False)))
            rec.trans()
            rec.eval()
            # the least-squares steps amplify rounding of the coordinates
            d = diff(strip(b), strip(a), 1e-5 if name.startswith(('fit', 'runner')) else 1e-9)
            if d:
                rec.fail('pad:%s' % name, '%s with a border %s of unused pixels with %s: %s' % (name, case['pad'], content, d),
                         case=dict(case, entries=[name], contents=[content]))
                break
    rec.trace()


KINDS = {'content': k_content, 'stored': k_stored, 'pad': k_pad}

if not c14.REG:
    c14.register()

OWNALL = ['own:' + k for k in OWN]


def cases(tier):
    T = tier == 'thorough'
    ms = masks(SHAPE, tier)
    allc = ['big', 'neg', 'nan', 'inf', 'ninf', 'mix']
    routes = ['init', 'set', 'set2', 'inplace']
    wv = ['0', '-1', 'nan']
    for i, m in enumerate(ms):
        single = m[0] in 'pq'
        cs = allc if T or not single else [allc[i % 3], 'nan' if i % 3 != 2 else 'mix']
        for j, (w, r) in enumerate([(a, b) for a in wv for b in routes]):
            if (not T or m[0] == 'q') and j != (i * 5) % 12:
                continue
            yield 'content', dict(kind='O', where='obj0', mask=m, wval=w, route=r, contents=cs, entries=REGO + OWNALL)
    for kind, wheres in (('L', ['obj0', 'obj1']), ('M', ['obj0', 'obj1'])):
        for where in wheres:
            for i, m in enumerate(ms):
                if m[0] == 'q' or (not T and m[0] == 'p' and i % 4):
                    continue
                yield 'content', dict(kind=kind, where=where, mask=m, wval=wv[i % 3], route=routes[i % 4],
                                      contents=allc if T else ['nan', 'big'], entries=REGL if kind == 'L' else REGM)
    for i, m in enumerate(masks((9, 9), 'quick')):
        if not T and m[0] == 'p' and i % 3:
            continue
        yield 'content', dict(kind='O', where='psf0', mask=m, wval=wv[i % 3], route=routes[i % 4], bare=True,
                              contents=allc if T else ['nan', 'big'], entries=REGP)
    for i, m in enumerate(ms):
        if m[0] == 'q' or (not T and m[0] == 'p' and i % 3):
            continue
        yield 'stored', dict(mask=m, wval=wv[i % 2], route=routes[i % 4], contents=['zero', 'own', 'big', 'neg'] if T else ['own', 'big'],
                             entries=STORED)
        if not T and m[0] == 'p' and i % 6:
            continue
        yield 'content', dict(kind='O', where='obj0', mask=m, wval=wv[i % 2], route=routes[i % 4], stored=True,
                              contents=['big', 'neg'] if T else ['big'], entries=REGO + OWNALL)
    pads = [(a, b, c, d) for a in (0, 1, 3) for b in (0, 1, 3) for c in (0, 1, 3) for d in (0, 1, 3)]
    for i, p in enumerate(pads[1:]):
        if not T and i % 3:
            continue
        for m in ([None, 'border', 'c2'] if T else [[None, 'border', 'c2'][(i // 3) % 3]]):
            yield 'pad', dict(pad=list(p), mask=m, wval=wv[i % 3], contents=allc if T else ['nan', 'big'], entries=PAD)


def warmup():
    k_content(dict(kind='O', where='obj0', mask='p0,0', wval='0', route='init', contents=['big'], entries=REGO + OWNALL), Null())


class Null(object):
    def __getattr__(self, k):
        return lambda *a, **k: None
