"""
C25  objects survive pickling and deep copies at any point of their history
"""
import copy
import itertools
import pickle
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix import priors as PR, joint_prior as JP
from ngmix.observation import make_kobs
from mc.core import fp
from mc import data as D
from mc.props import c14
from mc.props.c10 import same
from mc.props.c14 import REG, Inputs, eq, snap, reduce

LEVEL = 'model_checking'
RULE = (
    'Objects of every class that holds data (observations, mixtures, shapes, jacobians, '
    'priors, fitters, runners, guessers, results) are driven through all histories of '
    'operations up to a depth, pickled and restored or deep copied at every point, and driven on. '
    'The restored object and an untransported replica must answer every operation and every '
    'query alike, and operations on either must not show in the other.  Every measurement of '
    'the registry of C14 is run with its fitter, its input or its result transported.'
)
ASSUMPTIONS = ['restored in the same process and version', 'random states given to objects are numpy RandomStates']
CHUNK = 4
CASE_TIMEOUT = 300

MOVE = {
    'pickle2': lambda x: pickle.loads(pickle.dumps(x, 2)),
    'pickle5': lambda x: pickle.loads(pickle.dumps(x, 5)),
    'deepcopy': copy.deepcopy,
    'twice': lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x))),
    'list': lambda x: copy.deepcopy([x, 1])[0],
}


def get(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return 'raised ' + type(e).__name__


# ---------------------------------------------------------------------------
# values: build, operations (with an answer or None), query

def arr(attr, val, idx=(1, 2)):
    def f(o):
        with o.writeable():
            getattr(o, attr)[idx] = val
    return f


def mkfull(store=True, ignore=True):
    n = (5, 6)
    j = ngmix.Jacobian(row=2.1, col=2.4, dvdrow=0.26, dvdcol=-0.01, dudrow=0.02, dudcol=0.27)
    g = ngmix.GMixModel([0.0, 0.0, 0.02, -0.01, 0.25, 1.0], 'gauss')
    psf = Observation(g.make_image((5, 5), jacobian=j), jacobian=j, gmix=g, meta={'p': 1})
    w = np.full(n, 2.0)
    w[0, 1] = 0.0
    return Observation(D.noise(n, 1), weight=w, bmask=np.arange(30).reshape(n).astype('i4'),
                       ormask=np.arange(30).reshape(n).astype('i4') * 2, noise=D.noise(n, 2),
                       mfrac=np.linspace(0, 1, 30).reshape(n), jacobian=j, psf=psf, gmix=g,
                       meta={'a': [1, {'b': np.arange(3)}]}, store_pixels=store, ignore_zero_weight=ignore)


def mkbare():
    return Observation(D.noise((4, 3), 3), jacobian=ngmix.DiagonalJacobian(row=1.0, col=1.0, scale=0.3))


def jac_op(o):
    with o.writeable():
        o.jacobian.set_cen(row=1.3, col=0.4)


def psf_op(o):
    with o.psf.writeable():
        o.psf.image[0, 0] = 3.0


def deep_meta(o):
    o.meta.setdefault('a', []).append(len(o.meta['a']))


def oquery(o):
    out = dict(snap=snap(o), s2n=get(lambda: o.get_s2n()))
    for f in ('get_s2n_sums', 'has_psf_gmix', 'has_zero_weights'):
        if hasattr(o, f):
            out[f] = get(lambda: reduce(getattr(o, f)()))
    if isinstance(o, Observation):
        g = ngmix.GMixModel([0.1, 0.0, 0.1, 0.0, 0.8, 2.0], 'gauss')
        out['loglike'] = get(lambda: g.get_loglike(o))
        out['sums'] = get(lambda: ngmix.gaussmom.GaussMom(fwhm=1.0).go(o)['sums'])
    return out


OBSOPS = {
    'image': arr('image', 7.0), 'weight0': arr('weight', 0.0), 'jac': jac_op, 'meta': deep_meta,
    'setimage': lambda o: o.set_image(o.image * 2), 'setweight': lambda o: o.set_weight(o.weight + 1),
    'setjac': lambda o: o.set_jacobian(ngmix.DiagonalJacobian(row=1.0, col=2.0, scale=0.4)),
    'setgmix': lambda o: o.set_gmix(ngmix.GMixModel([0.1, 0.0, 0.0, 0.0, 0.5, 2.0], 'exp')),
    'toggle': lambda o: setattr(o, 'store_pixels', not o.store_pixels),
    's2n': lambda o: o.get_s2n(),
}
FULLOPS = dict(OBSOPS, psf=psf_op, mfrac=arr('mfrac', 0.25), bmask=arr('bmask', 5), noise=arr('noise', 4.0),
               nopsf=lambda o: o.set_psf(None), psfgmix=lambda o: o.psf.gmix.get_full_pars())


def mklist():
    ol = ObsList(meta={'l': [1]})
    ol.append(mkfull())
    ol.append(mkbare())
    return ol


def mkmb():
    mb = MultiBandObsList(meta={'m': {'x': 1}})
    mb.append(mklist())
    ol = ObsList()
    ol.append(mkfull(False))
    mb.append(ol)
    return mb


LISTOPS = {
    'image': lambda o: arr('image', 7.0)(o[0]), 'meta': lambda o: o.meta.update(z=[3]),
    'append': lambda o: o.append(mkbare()), 'replace': lambda o: o.__setitem__(1, mkfull()),
    'emeta': lambda o: o[0].meta.update(q=1), 's2n': lambda o: get(o.get_s2n),
}
MBOPS = {
    'image': lambda o: arr('image', 7.0)(o[0][0]), 'meta': lambda o: o.meta.update(z=[3]),
    'append': lambda o: o.append(mklist()), 'bappend': lambda o: o[0].append(mkbare()),
    'replace': lambda o: o.__setitem__(1, mklist()), 's2n': lambda o: get(o.get_s2n),
}


def mkkobs():
    return make_kobs(Inputs().get('A'))


def kscale(o):
    with o.writeable():
        o.kimage *= 2.0
        o.weight *= 0.5


KOPS = {'scale': kscale, 'meta': lambda o: o.meta.update(z=[1]), 'psf': lambda o: o.psf.meta.update(y=2)}


def gquery(g):
    j = ngmix.DiagonalJacobian(row=2.0, col=2.0, scale=0.4)
    q = lambda f: get(f)
    return dict(cls=type(g).__name__, pars=g.get_full_pars(), T=q(g.get_T), e=q(g.get_e1e2T), cen=q(g.get_cen), flux=q(g.get_flux),
                im=get(lambda: g.copy().make_image((5, 5), jacobian=j)), n=len(g), model=repr(get(lambda: g._model_name)),
                round=get(lambda: g.make_round().get_full_pars()))


def grender(g):
    return g.make_image((4, 4), jacobian=ngmix.DiagonalJacobian(row=1.0, col=2.0, scale=0.5))


GOPS = {
    'render': grender, 'cen': lambda g: g.set_cen(0.3, -0.2), 'flux': lambda g: g.set_flux(2.5),
    'data': lambda g: g.get_data()['p'].__setitem__(slice(None), 0.7), 'norms': lambda g: g.set_norms(),
    'shear': lambda g: g.get_sheared(ngmix.Shape(0.1, 0.05)).get_full_pars(),
    'conv': lambda g: g.convolve(ngmix.GMixModel([0.0, 0.0, 0.1, 0.0, 0.3, 1.0], 'gauss')).get_full_pars(),
    'reset': lambda g: g.reset(g.get_full_pars() if type(g).__name__ == 'GMix' else None),
}


def gfill(n):
    p = {6: [0.1, -0.1, 0.2, 0.1, 0.9, 1.5], 7: [0.1, -0.1, 0.2, 0.1, 0.9, 0.4, 1.5],
         8: [0.1, -0.1, 0.2, 0.1, 0.9, 0.1, 0.4, 1.5]}[n]
    return lambda g: g.fill(np.array(p))


def gops(n=None):
    o = {k: v for k, v in GOPS.items() if k != 'reset'}
    if n:
        o['fill'] = gfill(n)
    return o


def mkbd(cls):
    if cls == 'bdf':
        return ngmix.gmix.GMixModel([0.1, 0.0, 0.1, 0.0, 0.8, 0.3, 2.0], 'bdf')
    if cls == 'bd':
        return ngmix.gmix.GMixModel([0.1, 0.0, 0.1, 0.0, 0.8, 0.1, 0.3, 2.0], 'bd')
    return ngmix.gmix.GMixCoellip([0.1, 0.0, 0.1, 0.0, 0.4, 0.8, 1.0, 2.0])


def jquery(j):
    return dict(t=D.jtuple(j), vu=j.get_vu(1.3, 2.2), rc=j.get_rowcol(0.2, -0.1), cen=j.get_cen(), sc=j.get_scale(),
                wcs=repr(j.get_galsim_wcs()), s=repr(j))


JOPS = {'cen': lambda j: j.set_cen(row=3.0, col=-1.0), 'vu': lambda j: j.get_vu(1.0, 2.0)}


def squery(s):
    return dict(g=(s.g1, s.g2, s.g), neg=((-s).g1, (-s).g2), rot=(s.get_rotated(0.3).g1,),
                sh=(s.get_sheared(ngmix.Shape(0.1, 0.2)).g1, s.get_sheared(0.2, -0.1).g2), cls=type(s).__name__)


SOPS = {'set': lambda s: s.set_g1g2(0.3, -0.4), 'rotate': lambda s: s.rotate(0.4), 'rot': lambda s: (s.get_rotated(1.0).g1, s.get_rotated(1.0).g2),
        'bad': lambda s: get(lambda: s.set_g1g2(0.9, 0.9))}


def pquery(p):
    x = np.array([0.11, 0.3, 0.52, 0.9])
    out = {}
    for f in ('get_lnprob_scalar', 'get_prob_scalar', 'get_fdiff'):
        if hasattr(p, f):
            out[f] = [get(getattr(p, f), v) for v in x]
    for f in ('get_lnprob_array', 'get_prob_array'):
        if hasattr(p, f):
            out[f] = get(getattr(p, f), x)
    for f in ('get_lnprob_scalar1d', 'get_prob_scalar1d'):
        if hasattr(p, f):
            out[f] = [get(getattr(p, f), v) for v in x]
    for f in ('get_lnprob_scalar2d', 'get_prob_scalar2d'):
        if hasattr(p, f):
            out[f] = [get(getattr(p, f), v, 0.2) for v in x]
    if hasattr(p, 'get_lnprob_scalar') and 'Cen' in type(p).__name__:
        out['two'] = [get(p.get_lnprob_scalar, v, 0.2) for v in x]
    out['bounds'] = repr(getattr(p, 'bounds', None))
    out['has'] = get(lambda: p.has_bounds())
    out['cls'] = type(p).__name__
    return out


POPS = {'s': lambda p: get(lambda: p.sample()), 's3': lambda p: get(lambda: p.sample(3)),
        's2d': lambda p: get(lambda: p.sample2d(2)), 'lnp': lambda p: get(p.get_lnprob_scalar, 0.3)}


def R():
    return np.random.RandomState(21)


def cen():
    return PR.CenPrior(0.0, 0.1, 0.2, 0.3, rng=R())


def joint(kind):
    r = np.random.RandomState(5)
    return c14.mkprior(r, 2 if kind == 'simple2' else 1, 'simple' if kind == 'simple2' else kind)


def jpquery(p):
    out = {}
    for n in (6, 7, 8):
        v = np.array([0.01, 0.02, 0.1, -0.05, 0.5, 0.45, 0.4, 2.0])[:n]
        out['l%d' % n] = get(p.get_lnprob_scalar, v)
        out['f%d' % n] = get(lambda: np.array(p.fill_fdiff(v, np.zeros(12))))
        out['a%d' % n] = get(lambda: np.array(p.get_lnprob_array(np.array([v, v]))))
    out['bounds'] = repr(getattr(p, 'bounds', None))
    return out


JPOPS = {'s': lambda p: p.sample(), 's3': lambda p: p.sample(3), 'g': lambda p: get(lambda: p.g_prior.sample2d(2)),
         'c': lambda p: p.cen_prior.sample()}


def mknd():
    from ngmix.gmix_ndim import GMixND
    return GMixND(weights=[0.4, 0.6], means=[[0.1, 0.2], [1.0, -0.5]],
                  covars=[[[1.0, 0.2], [0.2, 0.8]], [[0.5, -0.1], [-0.1, 0.7]]], rng=R())


def ndquery(g):
    return dict(l=get(g.get_lnprob_scalar, np.array([0.2, 0.3])), a=get(g.get_lnprob_array, np.array([[0.2, 0.3], [1.0, 2.0]])),
                p=get(g.get_prob_scalar, np.array([0.2, 0.3])))


NDOPS = {'s': lambda g: get(lambda: np.array(g.sample())), 's2': lambda g: get(lambda: np.array(g.sample(2))),
         'set': lambda g: get(lambda: g.set_mixture([1.0], [[0.5, 0.5]], [[[1.0, 0.0], [0.0, 2.0]]]))}


def kquery(p):
    return {'cls': type(p).__name__}


def result_query(r):
    return reduce(r)


def calls(r, *names):
    out = []
    for n in names:
        if hasattr(r, n):
            out.append(get(lambda: reduce(getattr(r, n)())))
    return out


RESOPS = {
    'gmix': lambda r: calls(r, 'get_gmix', 'get_convolved_gmix'), 'image': lambda r: calls(r, 'make_image'),
    'fdiff': lambda r: get(lambda: np.array(r.calc_fdiff(np.array(r['pars']) * 1.02))),
    'lnprob': lambda r: get(lambda: r.calc_lnprob(np.array(r['pars']) * 0.98)),
    'key': lambda r: r.__setitem__('mykey', [1]),
    'stats': lambda r: get(lambda: r.get_fit_stats(np.array(r['pars']))),
}


def result(name):
    def f():
        e = REG[name]
        rng = np.random.RandomState(3)
        o = e.make(rng)
        obs = Inputs().get(e.inputs[0])
        rng.seed(11)
        return e.run(o, obs, **e.args(e.inputs[0]))
    return f


VALUES = {
    'obs-full': (mkfull, FULLOPS, oquery), 'obs-nopix': (lambda: mkfull(False), FULLOPS, oquery),
    'obs-zero': (lambda: mkfull(True, False), FULLOPS, oquery), 'obs-bare': (mkbare, OBSOPS, oquery),
    'obslist': (mklist, LISTOPS, oquery), 'mbobs': (mkmb, MBOPS, oquery), 'empty': (ObsList, {
        'append': LISTOPS['append'], 'meta': LISTOPS['meta']}, oquery),
    'kobs': (mkkobs, KOPS, oquery), 'klist': (lambda: make_kobs(Inputs().get('L')), {
        'meta': lambda o: o.meta.update(z=[1]), 'scale': lambda o: kscale(o[0])}, oquery),
    'gmix': (lambda: ngmix.GMix(pars=[1.0, 0.02, 0.01, 0.2, 0.01, 0.25, 1.5, -0.02, 0.03, 0.4, 0.0, 0.35]), GOPS, gquery),
    'gmix-empty': (lambda: ngmix.GMix(ngauss=2), {k: GOPS[k] for k in ('data', 'norms', 'conv')}, gquery),
    'jac': (lambda: ngmix.Jacobian(row=2.1, col=2.4, dvdrow=0.26, dvdcol=-0.01, dudrow=0.02, dudcol=0.27), JOPS, jquery),
    'unitjac': (lambda: ngmix.UnitJacobian(row=1.0, col=2.0), JOPS, jquery),
    'diagjac': (lambda: ngmix.DiagonalJacobian(row=1.0, col=2.0, scale=0.2), JOPS, jquery),
    'shape': (lambda: ngmix.Shape(0.1, -0.2), SOPS, squery),
    'gmixnd': (mknd, NDOPS, ndquery),
    'flat': (lambda: PR.FlatPrior(-0.5, 0.6, rng=R()), POPS, pquery),
    'erf': (lambda: PR.TwoSidedErf(0.0, 0.1, 1.0, 0.1, rng=R()), POPS, pquery),
    'normal': (lambda: PR.Normal(0.1, 0.4, rng=R()), POPS, pquery),
    'normalb': (lambda: PR.Normal(0.1, 0.4, bounds=(-1.0, 1.0), rng=R()), POPS, pquery),
    'lmb': (lambda: PR.LMBounds(-1.0, 1.0, rng=R()), POPS, pquery),
    'lognormal': (lambda: PR.LogNormal(0.5, 0.2, rng=R(), shift=0.1), POPS, pquery),
    'sinh': (lambda: PR.Sinh(0.2, 1.0, rng=R()), POPS, pquery),
    'trunc': (lambda: PR.TruncatedGaussian(0.2, 0.5, 0.0, 0.8, rng=R()), POPS, pquery),
    'bounded': (lambda: PR.Bounded1D(PR.Normal(0.2, 0.5, rng=R()), (0.0, 0.8)), POPS, pquery),
    'gba': (lambda: PR.GPriorBA(0.3, rng=R()), POPS, pquery),
    'ggauss': (lambda: PR.GPriorGauss(pars=0.3, rng=R()), POPS, pquery),
    'zdisk': (lambda: PR.ZDisk2D(0.8, rng=R()), POPS, pquery),
    'cen': (cen, POPS, pquery),
}
for m_ in ('gauss', 'exp', 'dev', 'turb'):
    VALUES['gmix-' + m_] = (lambda m=m_: ngmix.GMixModel([0.1, 0.0, 0.1, 0.0, 0.8, 2.0], m), gops(6), gquery)
for m_, n_ in (('bdf', 7), ('bd', 8), ('coellip', 8)):
    VALUES['gmix-' + m_] = (lambda m=m_: mkbd(m), gops(n_), gquery)
for m_ in ('simple', 'simple2', 'bdf', 'bd', 'spergel', 'coellip'):
    VALUES['joint-' + m_] = (lambda m=m_: joint(m), JPOPS, jpquery)
RESULTS = ('fit-gauss', 'fit-gauss-mb', 'fit-dev-prior', 'fit-bdf', 'fit-bd', 'fit-coellip', 'psfflux', 'galsim-exp', 'galsim-kobs',
           'galsim-spergel', 'galsim-moffat', 'galsim-psfflux', 'em', 'em-sky', 'admom', 'gaussmom', 'pgauss', 'wmom', 'runner', 'boot')


def value(name):
    if name.startswith('result-'):
        return result(name[7:]), RESOPS, result_query
    return VALUES[name]


def play(x, ops, h):
    out = []
    for o in h:
        out.append(get(lambda: reduce(ops[o](x))))
    return out


def k_value(case, rec):
    name, move, h1, h2s = case['v'], case['move'], case['h1'], case['h2']
    build, ops, query = value(name)
    rec.outcome(name)
    x0 = build()
    play(x0, ops, h1)
    q0 = query(x0)
    for h2 in h2s:
        for who in ('copy', 'original'):
            a, r = build(), build()
            play(a, ops, h1)
            play(r, ops, h1)
            b = get(MOVE[move], a)
            what = '%s: %s, then %s, then %s on the %s' % (name, h1, move, h2, who)
            if isinstance(b, str):
                rec.fail('move:%s' % name, '%s: %s' % (what, b))
                return
            rec.trans(len(h1) + 1 + len(h2))
            rec.trace()
            rec.eval(3)
            rec.state(fp(name, move, h1, h2, who))
            # copies of the special jacobians are general ones
            if type(b) is not type(a) and not isinstance(a, ngmix.Jacobian):
                rec.fail('class:%s' % name, '%s: %s' % (what, type(b)))
                return
            d = same(query(b), q0)
            if d:
                rec.fail('restored:%s' % name, '%s: restored object differs: %s' % (what, d))
                return
            act, other = (b, a) if who == 'copy' else (a, b)
            got, want = play(act, ops, h2), play(r, ops, h2)
            d = same(got, want) or same(query(act), query(r))
            if d:
                rec.fail('history:%s' % name, '%s: answers differ from those without it: %s' % (what, d))
                return
            d = same(query(other), q0)
            if d:
                rec.fail('shared:%s' % name, '%s: changed the other one: %s' % (what, d))
                return
            # the other one goes on as if it was alone, also with random answers
            r2 = build()
            play(r2, ops, h1)
            d = same(play(other, ops, h2), play(r2, ops, h2))
            if d:
                rec.fail('shared:%s' % name, '%s: the other one answers differently afterwards: %s' % (what, d))
                return


def k_measure(case, rec):
    name, k, move = case['entry'], case['input'], case['move']
    e = REG[name]
    f = MOVE[move]
    ref = c14.reference(name, k)
    rec.outcome((name, ref[1] if isinstance(ref, tuple) else 'ok'))
    for what in ('object', 'input', 'result', 'used object', 'original object', 'both'):
        rng = np.random.RandomState(3)
        o = e.make(rng)
        obs, args = Inputs().get(k), e.args(k)
        o1 = o
        rng.seed(11)
        info = '%s on %s with the %s moved by %s' % (name, k, what, move)
        want = ref
        try:
            if what in ('object', 'both'):
                o1 = f(o)
            if what in ('input', 'both'):
                obs, args = f((obs, args))
            if what == 'original object':
                # the copy is used first; the original must not notice
                o2 = f(o)
                c14.call(e, o2, Inputs().get(k), e.args(k))
            if what == 'used object':
                c14.call(e, o1, Inputs().get(k), e.args(k))
                o1 = f(o1)
                # without the move
                rng2 = np.random.RandomState(3)
                p = e.make(rng2)
                rng2.seed(11)
                c14.call(e, p, Inputs().get(k), e.args(k))
                want = c14.call(e, p, Inputs().get(k), e.args(k))[1]
            before = snap(obs)
            res, got = c14.call(e, o1, obs, args)
            if what == 'result' and res is not None:
                got = reduce(f(res))
        except Exception as err:
            rec.fail('move:%s' % name, '%s: %s' % (info, repr(err)[:200]))
            return
        rec.trans(2)
        rec.trace()
        rec.eval()
        rec.state(fp(name, k, move, what))
        d = eq(got, want)
        if d:
            rec.fail('measure:%s' % name, '%s: %s' % (info, d))
            return
        if not e.effects:
            d = D.diff(snap(obs), before)
            if d:
                rec.fail('input:%s' % name, '%s: %s' % (info, d))


def k_between(case, rec):
    """a result moved and asked after its observation and fitter went on"""
    name, move = case['entry'], case['move']
    e = REG[name]
    k, k2 = e.inputs[0], e.inputs[1]
    rng = np.random.RandomState(3)
    o = e.make(rng)
    inp = Inputs()
    rng.seed(11)
    obs = inp.get(k)
    res, got = c14.call(e, o, obs, e.args(k))
    rec.trans(3)
    rec.trace()
    rec.eval()
    rec.state(fp('between', name, move))
    if res is None:
        return
    moved = MOVE[move](res)
    c14.call(e, o, inp.get(k2), e.args(k2))
    if not isinstance(obs, (ngmix.observation.KObservation, ngmix.observation.KObsList)):
        a = inp.get('A')
        with a.writeable():
            a.image[:, :] = 0.0
    d = eq(reduce(moved), c14.reference(name, k))
    rec.outcome((name, 'between'))
    if d:
        rec.fail('between:%s' % name, 'result of %s moved by %s, then the image was cleared: %s' % (name, move, d))


KINDS = dict(value=k_value, measure=k_measure, between=k_between)


def warmup():
    c14.warmup()


def cases(tier):
    th = tier == 'thorough'
    moves = list(MOVE) if th else ['pickle2', 'pickle5', 'deepcopy']
    names = list(VALUES) + ['result-' + n for n in RESULTS]
    for n in names:
        ops = sorted(value(n)[1])
        res = n.startswith('result')
        h1s = [[]] + [[a] for a in ops]
        if not th and n in ('result-galsim-spergel', 'result-galsim-moffat'):
            continue
        if th or not (res or n in ('obs-nopix', 'obs-zero', 'gmix-exp', 'gmix-dev', 'gmix-turb')):
            h1s += [[a, b] for a in ops for b in ops]
        h2s = [[]] + [[a] for a in ops]
        for mv in moves:
            for h1 in h1s:
                if len(h1) == 2 and not th and mv != ('pickle5' if ops.index(h1[0]) % 2 else 'deepcopy'):
                    continue
                if not th and (mv == 'pickle2' and res or mv != 'pickle5' and n in ('obs-nopix', 'obs-zero')):
                    continue
                after = h2s
                if len(h1) == 2 and not th and len(ops) > 8:
                    after = [[], h2s[1 + (ops.index(h1[0]) + 2 * ops.index(h1[1])) % len(ops)]]
                yield 'value', dict(v=n, move=mv, h1=h1, h2=after)
    for n, e in REG.items():
        for i, k in enumerate(e.inputs):
            for mv in (list(MOVE) if th else ['pickle2', 'pickle5', 'deepcopy'][:3 if i == 0 else 2] if n not in HEAVY
                       else ['pickle5', 'deepcopy'][:2 if i == 0 else 1]):
                yield 'measure', dict(entry=n, input=k, move=mv)
        for mv in (list(MOVE) if th else ['pickle5', 'deepcopy']):
            yield 'between', dict(entry=n, move=mv)


HEAVY = ('metacal', 'metacal-noise', 'galsim-spergel', 'galsim-moffat', 'galsim-mb', 'boot')
