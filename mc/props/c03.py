"""
C03  observations and containers stay valid; invalid updates change nothing
"""
import itertools
import numpy as np
import galsim
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList, GMix, GMixModel
from ngmix.observation import KObservation, KObsList, KMultiBandObsList
from ngmix.gexceptions import GMixFatalError
from mc.core import bfs, fp
from mc.data import snap, diff, jac, jtuple

LEVEL = 'model_checking'
RULE = (
    'Breadth-first search over histories of valid and invalid updates of real '
    'Observations (every attribute x {valid, other valid, None, wrong shape, 1-d, '
    '3-d, wrong type}), of ObsList/MultiBandObsList/KObsList/KMultiBandObsList '
    '(append, item assignment, delete, insert of right and wrong types, metadata) '
    'and of KObservations. After each step: an invalid update raised and the '
    'complete snapshot is unchanged, a valid one gives the state of the reference '
    'model, all invariants (shapes, types) hold and S/N sums equal the reference sums.'
)
ASSUMPTIONS = ['list methods other than append, item assignment and deletion '
               'are not type-checked by the package and are outside the property',
               'image shapes (2,3) and (2,2)']

ERR = (AssertionError, TypeError, ValueError, GMixFatalError)
BAD = ('shape', '1d', '3d')


def arr(shape, k, dtype='f8'):
    n = int(np.prod(shape))
    return ((np.arange(n) * (k + 1)) % 7 + 1 + k).reshape(shape).astype(dtype)


def wt(shape, k):
    w = arr(shape, k)
    w.ravel()[::2] *= (0, -1)[k % 2]
    return w


def badarr(shape, how):
    if how == 'shape':
        return np.ones((shape[0] + 1, shape[1]))
    if how == 'tr':
        return np.ones((shape[1], shape[0]))
    if how == '1d':
        return np.ones(shape[0] * shape[1])
    if how == 'bc':
        return np.ones((1, shape[1]))
    return np.ones((1,) + tuple(shape))


PLANES = ('bmask', 'ormask', 'noise', 'mfrac')
DT = {'bmask': 'i4', 'ormask': 'i4', 'noise': 'f8', 'mfrac': 'f4'}


def make_psf(k):
    return Observation(arr((3, 3), k), jacobian=jac(k, k),
                       gmix=GMix(pars=[1.0 + k, 0, 0, 1, 0, 1]) if k else None)


def make_gmix(k):
    return GMixModel([0, 0, 0, 0, 4.0 + k, 1.0], 'gauss')


OPS = []
for _a in PLANES:
    OPS += [[_a, 0], [_a, None], [_a, 'shape'], [_a, '1d']]
OPS += [['psf', 0], ['psf', 1], ['psf', None], ['psf', 'type'], ['psf', 'list'],
        ['gmix', 0], ['gmix', None], ['gmix', 'type'],
        ['meta', 0], ['meta', None], ['meta', 'type'], ['metaup', 0], ['metaup', 'type'],
        ['image', 1], ['image', 'shape'], ['weight', 1], ['weight', 'shape'],
        ['jacobian', 1], ['jacobian', 'type']]
MORE = []
for _a in PLANES:
    MORE += [[_a, 1], [_a, '3d'], [_a, 'bc'], [_a, 'str']]
MORE += [['gmix', 1], ['psf', 'arr'], ['gmix', 'pars'], ['meta', 'list'], ['metaup', 'none'],
         ['image', 0], ['image', '1d'], ['image', '3d'], ['image', 'bc'], ['image', 'none'],
         ['weight', 0], ['weight', None], ['weight', '1d'], ['weight', '3d'], ['weight', 'bc'],
         ['jacobian', None], ['jacobian', 'dict'],
         ['m_bmask', 0], ['m_psf', 0], ['m_psf', 'type'], ['m_gmix', 'type'], ['m_image', 'shape'],
         ['m_weight', 'shape'], ['m_jacobian', 'type'], ['m_meta', 'type'],
         ['m_noise', None], ['m_psf', None], ['m_gmix', None], ['read', 0]]


class M(object):
    pass


def value(attr, v, shape):
    """the python value to set, whether that is valid"""
    if attr in PLANES or attr in ('image', 'weight'):
        if v in ('shape', '1d', '3d', 'tr', 'bc'):
            return badarr(shape, v), False
        if v == 'str':
            return 'abc', False
        if v == 'none':
            return None, False
        if v is None:
            return None, True
        if attr == 'weight':
            return wt(shape, v), True
        return arr(shape, v, DT.get(attr, 'f8')), True
    if attr == 'psf':
        if v in (0, 1):
            return make_psf(v), True
        return {'type': 3.0, 'list': ObsList(), 'arr': np.ones((2, 2)), None: None}[v], v is None
    if attr == 'gmix':
        if v in (0, 1):
            return make_gmix(v), True
        return {'type': 'exp', 'pars': np.ones(6), None: None}[v], v is None
    if attr in ('meta', 'metaup'):
        if v == 0:
            return {'k': [1]}, True
        if v is None:
            return None, True
        return {'type': 5, 'list': [('a', 1)], 'none': None}[v], False
    if attr == 'jacobian':
        if v == 1:
            return jac(0.5, 0.25), True
        if v is None:
            return None, True
        return {'type': np.ones(6), 'dict': {'row': 0, 'col': 0}}[v], False
    raise ValueError(attr)


def root(shape, k):
    o = Observation(arr(shape, 0), weight=wt(shape, 0), jacobian=jac())
    if k:
        o = Observation(arr(shape, 0), weight=wt(shape, 0), jacobian=jac(),
                        bmask=arr(shape, 3, 'i4'), ormask=arr(shape, 4, 'i4'),
                        noise=arr(shape, 5), mfrac=arr(shape, 6, 'f4'),
                        psf=make_psf(1), gmix=make_gmix(2), meta={'r': 1})
    return o


def build(case, trace):
    shape = tuple(case['shape'])
    o = root(shape, case['full'])
    m = snap(o, pixels=False)
    box = dict(o=o, m=m, errs=[], shape=shape)
    for op in trace:
        apply(box, op)
    return box


def apply(box, op):
    o, m, errs, shape = box['o'], box['m'], box['errs'], box['shape']
    attr, v = op
    if attr == 'read':
        o.get_s2n(), o.pixels, o.has_psf_gmix()
        return
    meth = attr.startswith('m_')
    if meth:
        attr = attr[2:]
    val, ok = value(attr, v, shape)
    before = snap(o)
    try:
        if attr == 'metaup':
            o.update_meta_data(val)
        elif meth:
            getattr(o, 'set_' + attr)(val)
        else:
            setattr(o, attr, val)
    except ERR as err:
        if ok:
            errs.append('valid update %s raised %r' % (op, err))
        d = diff(before, snap(o))
        if d:
            errs.append('rejected update %s changed the observation: %s' % (op, d))
        return
    if not ok:
        errs.append('invalid update %s was accepted' % (op,))
        return
    # the model
    if attr in PLANES:
        m[attr] = None if val is None else val.copy()
    elif attr == 'image':
        m['image'] = val.copy()
    elif attr == 'weight':
        m['weight'] = np.ones(shape) if val is None else val.copy()
    elif attr == 'psf':
        m['psf'] = None if val is None else snap(val, pixels=False)
    elif attr == 'gmix':
        m['gmix'] = None if val is None else dict(cls='GMixModel', pars=val.get_full_pars())
    elif attr == 'meta':
        m['meta'] = {} if val is None else {'k': [1]}
    elif attr == 'metaup':
        m['meta'] = dict(m['meta'], k=[1])
    elif attr == 'jacobian':
        if val is None:
            r, c = (shape[0] - 1) / 2., (shape[1] - 1) / 2.
            m['jac'] = (r, c, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0)
        else:
            m['jac'] = jtuple(val)


def sums(o):
    w = o['weight'] > 0
    return o['image'][w].sum(), (1 / o['weight'][w]).sum(), int(w.sum())


def compare_s2n(x, want, bad):
    I, V, n = want
    got = x.get_s2n_sums()
    if not np.allclose(got, want, rtol=1e-12, atol=0):
        bad.append('s2n sums %s, expected %s' % (got, want))
    s = I / np.sqrt(V) if V > 0 else -9999.0
    if not np.isclose(x.get_s2n(), s, rtol=1e-12, atol=0):
        bad.append('s2n %s, expected %s' % (x.get_s2n(), s))


def compare(box, rec):
    o, m = box['o'], box['m']
    bad = list(box['errs'])
    d = diff(snap(o, pixels=False), m)
    if d:
        bad.append('state differs from the model: %s' % d)
    has = dict(psf=m['psf'], gmix=m['gmix'], bmask=m['bmask'], ormask=m['ormask'],
               noise=m['noise'], mfrac=m['mfrac'])
    for a, v in has.items():
        if bool(getattr(o, 'has_' + a)()) is not (v is not None):
            bad.append('has_%s is %s' % (a, getattr(o, 'has_' + a)()))
    for a, g in (('psf', 'get_psf'), ('gmix', 'get_gmix')):
        try:
            getattr(o, g)()
            got = True
        except RuntimeError:
            got = False
        if got is not (m[a] is not None):
            bad.append('%s works: %s' % (g, got))
    pg = m['psf'] is not None and m['psf']['gmix'] is not None
    if bool(o.has_psf_gmix()) is not pg:
        bad.append('has_psf_gmix is %s' % o.has_psf_gmix())
    if pg and not np.array_equal(o.get_psf_gmix().get_full_pars(), m['psf']['gmix']['pars']):
        bad.append('psf gmix differs')
    for a in ('image', 'weight') + PLANES:
        if m[a] is not None and getattr(o, a).shape != box['shape']:
            bad.append('%s has shape %s' % (a, getattr(o, a).shape))
    compare_s2n(o, sums(m), bad)
    p = o.pixels
    if p is None or len(p) != sums(m)[2]:
        bad.append('number of pixels')
    rec.eval(12)
    rec.outcome('%d%d%d' % (m['psf'] is not None, m['gmix'] is not None, len(m['meta'])))
    return bad


def explore(case, rec, ops, build_, compare_):
    def check(b, hist):
        bad = compare_(b, rec)
        if bad:
            rec.fail(bad[0].split(':')[0].split('[')[0][:50],
                     '; '.join(bad)[:900] + ' after %s' % (hist,),
                     kind=case['sub'], case=dict(case, trace=hist))
        return not bad

    bfs(ops, case['depth'], lambda t: build_(case, t), rec, lambda b: fp(statekey(b)), check,
        prefix=case['prefix'])
    rec.sample({k: case[k] for k in ('sub', 'prefix', 'depth')})


def statekey(b):
    return {k: (v if k not in ('o',) else fp(deepvars(v))) for k, v in b.items() if k != 'objs'}


def deepvars(x):
    if isinstance(x, (ObsList, MultiBandObsList, KObsList, KMultiBandObsList)):
        return [type(x).__name__, x.meta, [deepvars(y) for y in x]]
    if isinstance(x, KObservation):
        return [x.kimage.array, x.kimage.scale, x.weight.array, x.meta, jtuple(x.jacobian),
                deepvars(x.psf) if x.has_psf() else None]
    if hasattr(x, '__dict__'):
        return {k: (deepvars(v) if isinstance(v, Observation) else v) for k, v in vars(x).items()}
    return x


def k_obs(case, rec):
    if 'trace' in case:
        b = build(case, case['trace'])
        one(case, rec, compare(b, rec))
    else:
        explore(case, rec, OPS + (MORE if case['more'] else []), build, compare)


def one(case, rec, bad):
    rec.trace()
    rec.trans(len(case['trace']) or 1)
    rec.state(fp(case))
    if bad:
        rec.fail(bad[0].split(':')[0].split('[')[0][:50], '; '.join(bad)[:900])


# ---------------------------------------------------------------------------
# construction with every combination of one invalid argument

def k_construct(case, rec):
    shape = (2, 3)
    kw = dict(weight=wt(shape, 0), jacobian=jac())
    for a in PLANES:
        kw[a] = arr(shape, 1, DT[a])
    kw['psf'] = make_psf(1)
    kw['gmix'] = make_gmix(1)
    kw['meta'] = {'k': [1]}
    image = arr(shape, 0)
    val, ok = value(case['attr'], case['v'], shape)
    if case['attr'] == 'image':
        image = val
    else:
        kw[case['attr']] = val
    rec.trans()
    rec.trace()
    rec.state(fp(case))
    try:
        Observation(image, **kw)
        got = True
    except ERR:
        got = False
    rec.outcome((ok, got))
    if got is not ok:
        rec.fail('construct', '%s=%s accepted: %s' % (case['attr'], case['v'], got))


# ---------------------------------------------------------------------------
# containers

def kobs(k, n=4):
    im = galsim.Image((arr((n, n), k) + 1j * arr((n, n), k + 1)).astype('c16'), scale=0.5)
    w = galsim.Image(arr((n, n), k), scale=0.5)
    return KObservation(im, weight=w, meta={'k': k})


def leaf(k):
    if k == 2:
        # no positive weight
        return Observation(arr((2, 2), k), weight=np.zeros((2, 2)), ignore_zero_weight=False)
    return Observation(arr((2, 2), k), weight=wt((2, 2), k), meta={'k': k})


def olist(ks):
    r = ObsList()
    for k in ks:
        r.append(leaf(k))
    return r


def klist(ks):
    r = KObsList()
    for k in ks:
        r.append(kobs(k))
    return r


CLS = {'ObsList': ObsList, 'MultiBandObsList': MultiBandObsList,
       'KObsList': KObsList, 'KMultiBandObsList': KMultiBandObsList}


def elem(name):
    """named element: the object and the kind of it"""
    k = name[0]
    a = int(name[1]) if len(name) > 1 else 0
    if k == 'o':
        return leaf(a), 'o'
    if k == 'k':
        return kobs(a), 'k'
    if k == 'L':
        return olist(range(a)), 'L'
    if k == 'E':
        return olist([2] * a), 'L'
    if k == 'K':
        return klist(range(a)), 'K'
    if k == 'M':
        return MultiBandObsList(), 'M'
    if k == 'n':
        return None, 'n'
    if k == 'a':
        return np.ones((2, 2)), 'a'
    if k == 'l':
        return [leaf(0)], 'l'
    if k == 's':
        return 'x', 's'


ELEMS = ['o0', 'o1', 'o2', 'k0', 'L0', 'L1', 'L3', 'E1', 'K0', 'K1', 'M', 'n', 'a', 'l', 's']
ACCEPT = {'ObsList': 'o', 'MultiBandObsList': 'L', 'KObsList': 'k', 'KMultiBandObsList': 'K'}
COPS = [['append', e] for e in ELEMS] + [['set', i, e] for i in (0, -1) for e in ELEMS] + [
    ['set', 9, 'good'], ['slice', 'good'], ['slice', 'bad'], ['del', 0], ['pop'],
    ['meta', 0], ['meta', None], ['meta', 'type'], ['metaup', 0], ['metaup', 'type']]


def cbuild(case, trace):
    x = CLS[case['cls']]()
    box = dict(o=x, ids=[], names=[], meta={}, errs=[], cls=case['cls'], objs=[])
    for op in trace:
        capply(box, op)
    return box


def capply(box, op):
    x, errs = box['o'], box['errs']
    acc = ACCEPT[box['cls']]
    good = {'o': 'o0', 'L': 'L1', 'k': 'k0', 'K': 'K1'}[acc]
    names, objs = box['names'], box['objs']
    before = (list(x), dict(x.meta))
    ok = True
    errok = ERR
    new_n, new_o, new_m = list(names), list(objs), dict(box['meta'])
    if op[0] == 'append':
        e, kind = elem(op[1])
        ok = kind == acc
        new_n.append(op[1])
        new_o.append(e)

        def f():
            x.append(e)
    elif op[0] == 'set':
        n = good if op[2] == 'good' else op[2]
        e, kind = elem(n)
        ok = kind == acc and (-len(names) <= op[1] < len(names))
        errok = ERR + (IndexError,)
        if ok:
            new_n[op[1]] = n
            new_o[op[1]] = e

        def f():
            x[op[1]] = e
    elif op[0] == 'slice':
        e, kind = elem(good if op[1] == 'good' else 'a')
        # plain lists of elements: accepting the right type is optional,
        # accepting the wrong type is not
        if op[1] == 'good':
            return
        ok = False

        def f():
            x[0:1] = [e]
    elif op[0] in ('del', 'pop'):
        if not names:
            return
        i = 0 if op[0] == 'del' else -1
        del new_n[i], new_o[i]

        def f():
            if op[0] == 'del':
                del x[0]
            else:
                x.pop()
    elif op[0] in ('meta', 'metaup'):
        val, ok = value(op[0], op[1], None)
        new_m = {'k': [1]} if val else {}

        def f():
            if op[0] == 'meta':
                x.meta = val
            else:
                x.update_meta_data(val)
    try:
        f()
    except errok as err:
        if ok:
            errs.append('valid %s raised %r' % (op, err))
        if [id(y) for y in x] != [id(y) for y in before[0]] or x.meta != before[1]:
            errs.append('rejected %s changed the list' % (op,))
        return
    if not ok:
        errs.append('%s got accepted by %s' % (op, box['cls']))
        return
    box['names'], box['objs'], box['meta'] = new_n, new_o, new_m


def ccompare(box, rec):
    x = box['o']
    bad = list(box['errs'])
    if [id(y) for y in x] != [id(y) for y in box['objs']]:
        bad.append('elements differ from the model')
    if x.meta != box['meta']:
        bad.append('meta %s, expected %s' % (x.meta, box['meta']))
    if not bad and not box['cls'].startswith('K'):
        lv = []
        for e in box['objs']:
            lv += [e] if isinstance(e, Observation) else list(e)
        I = V = 0.0
        n = 0
        for o in lv:
            s = sums(dict(weight=np.array(o.weight), image=np.array(o.image)))
            I, V, n = I + s[0], V + s[1], n + s[2]
        compare_s2n(x, (I, V, n), bad)
        rec.outcome(n)
    rec.eval(3)
    return bad


def k_list(case, rec):
    if 'trace' in case:
        b = cbuild(case, case['trace'])
        one(case, rec, ccompare(b, rec))
    else:
        explore(case, rec, COPS, cbuild, ccompare)


# ---------------------------------------------------------------------------
# KObservation

KOPS = [['psf', 0], ['psf', 1], ['psf', None], ['psf', 'shape'], ['psf', 'scale'], ['psf', 'type'],
        ['psf', 'obs'], ['meta', 0], ['meta', None], ['meta', 'type'], ['metaup', 0],
        ['metaup', 'type']]


def kbuild(case, trace):
    o = kobs(0)
    if case['full']:
        o.set_psf(kobs(3))
    box = dict(o=o, psf=3 if case['full'] else None, meta={'k': 0}, errs=[])
    for op in trace:
        before = fp(deepvars(o))
        attr, v = op
        if attr == 'psf':
            ok = v in (0, 1, None)
            val = {0: lambda: kobs(0), 1: lambda: kobs(1), None: lambda: None,
                   'shape': lambda: kobs(0, 5), 'type': lambda: 'psf', 'obs': lambda: leaf(0),
                   'scale': lambda: KObservation(
                       galsim.Image(np.ones((4, 4), dtype='c16'), scale=0.7))}[v]()
        else:
            val, ok = value(attr, v, None)
        try:
            if attr == 'psf':
                o.set_psf(val)
            elif attr == 'meta':
                o.meta = val
            else:
                o.update_meta_data(val)
        except ERR as err:
            if ok:
                box['errs'].append('valid %s raised %r' % (op, err))
            if fp(deepvars(o)) != before:
                box['errs'].append('rejected %s changed the k observation' % (op,))
            continue
        if not ok:
            box['errs'].append('invalid %s was accepted' % (op,))
            continue
        if attr == 'psf':
            box['psf'] = v
        elif attr == 'meta':
            box['meta'] = val or {}
        else:
            box['meta'] = dict(box['meta'], **val)
    return box


def kcompare(box, rec):
    o = box['o']
    bad = list(box['errs'])
    if o.has_psf() is not (box['psf'] is not None):
        bad.append('has_psf %s, expected %s' % (o.has_psf(), box['psf'] is not None))
    elif box['psf'] is not None and not np.array_equal(
            o.psf.kimage.array, kobs(box['psf']).kimage.array):
        bad.append('psf differs from the model')
    if o.meta != box['meta']:
        bad.append('meta %s, expected %s' % (o.meta, box['meta']))
    rec.eval(3)
    return bad


def k_kobs(case, rec):
    if 'trace' in case:
        b = kbuild(case, case['trace'])
        one(case, rec, kcompare(b, rec))
    else:
        explore(case, rec, KOPS, kbuild, kcompare)


def k_kconstruct(case, rec):
    how = case['how']
    rec.trans()
    rec.trace()
    rec.state(fp(case))
    im = galsim.Image(np.ones((4, 5), dtype='c16'), scale=0.5)
    good = True
    try:
        if how == 'default':
            o = KObservation(im)
            if o.weight.array.shape != (4, 5) or not (o.weight.array == 1).all() or \
                    o.has_psf() or o.meta != {}:
                rec.fail('kobs-default', 'defaults are wrong')
            j = o.jacobian
            if (j.row0, j.col0, j.scale) != (2.0, 2.0, 0.5):
                rec.fail('kobs-jacobian', 'center %s %s scale %s' % (j.row0, j.col0, j.scale))
        elif how == 'array':
            good = False
            KObservation(im.array)
        elif how == 'real':
            good = False
            KObservation(im.real)
        elif how == 'wshape':
            good = False
            KObservation(im, weight=galsim.Image(np.ones((5, 4)), scale=0.5))
        elif how == 'warray':
            good = False
            KObservation(im, weight=np.ones((4, 5)))
        elif how == 'psftype':
            good = False
            KObservation(im, psf=im)
        elif how == 'psfshape':
            good = False
            KObservation(im, psf=kobs(0))
        elif how == 'meta':
            good = False
            KObservation(im, meta=3)
    except ERR:
        got = False
    else:
        got = True
    if got is not good:
        rec.fail('kobs-construct', '%s accepted: %s' % (how, got))


def k_convert(case, rec):
    """get_mb_obs / get_kmb_obs"""
    e, kind = elem(case['e'])
    k = case['k']
    f = ngmix.observation.get_kmb_obs if k else ngmix.observation.get_mb_obs
    rec.trans()
    rec.trace()
    rec.state(fp(case))
    good = kind in (('k', 'K') if k else ('o', 'L', 'M'))
    try:
        r = f(e)
    except ValueError:
        if good:
            rec.fail('convert', '%s rejected' % case['e'])
        return
    if not good:
        rec.fail('convert', '%s accepted' % case['e'])
        return
    if type(r) is not (KMultiBandObsList if k else MultiBandObsList):
        rec.fail('convert', 'gives a %s' % type(r))
    elif kind in 'ok' and (len(r) != 1 or len(r[0]) != 1 or r[0][0] is not e):
        rec.fail('convert', 'observation not wrapped')
    elif kind in 'LK' and (len(r) != 1 or r[0] is not e):
        rec.fail('convert', 'list not wrapped')
    elif kind == 'M' and r is not e:
        rec.fail('convert', 'multi band list not returned')


KINDS = {'obs': k_obs, 'construct': k_construct, 'list': k_list, 'kobs': k_kobs,
         'kconstruct': k_kconstruct, 'convert': k_convert}
CHUNK = 1


def warmup():
    for f in (0, 1):
        root((2, 3), f)
    leaf(2)


def cases(tier):
    th = tier == 'thorough'
    for attr in PLANES + ('image', 'weight'):
        for v in (0, 1, 'shape', '1d', '3d', 'bc', 'tr'):
            yield 'construct', dict(attr=attr, v=v)
    for attr, vs in (('psf', (0, 1, None, 'type', 'list', 'arr')), ('gmix', (0, 1, None, 'type', 'pars')),
                     ('meta', (0, None, 'type', 'list')), ('jacobian', (1, None, 'type', 'dict'))):
        for v in vs:
            yield 'construct', dict(attr=attr, v=v)
    for full in (0, 1):
        for shape in ([2, 3], [2, 2]):
            yield 'obs', dict(sub='obs', shape=shape, full=full, more=True, prefix=[],
                              depth=2)
        for op in OPS:
            yield 'obs', dict(sub='obs', shape=[2, 3], full=full, more=False, prefix=[op],
                              depth=4 if th else 3)
    for cls in CLS:
        if th:
            for op in COPS:
                yield 'list', dict(sub='list', cls=cls, prefix=[op], depth=4)
        else:
            yield 'list', dict(sub='list', cls=cls, prefix=[], depth=2)
            yield 'list', dict(sub='list', cls=cls, prefix=[
                ['append', {'o': 'o1', 'L': 'L3', 'k': 'k0', 'K': 'K1'}[ACCEPT[cls]]]], depth=3)
    for full in (0, 1):
        yield 'kobs', dict(sub='kobs', full=full, prefix=[], depth=4 if th else 3)
    for how in ('default', 'array', 'real', 'wshape', 'warray', 'psftype', 'psfshape', 'meta'):
        yield 'kconstruct', dict(how=how)
    for e in ELEMS:
        for k in (0, 1):
            yield 'convert', dict(e=e, k=k)
