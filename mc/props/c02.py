"""
C02  copies are equal, complete, independent; equality is exact
"""
import copy
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList, Jacobian, GMix, GMixModel
from mc.core import fp
from mc.data import snap, diff, jac, jtuple

LEVEL = 'model_checking'
RULE = (
    'All 2^7 combinations of present optional attributes (bmask, ormask, noise, '
    'mfrac, gmix, psf, meta) x copy route (copy, copy.copy, copy.deepcopy) x pixel '
    'options: the copy is compared attribute by attribute, then every single '
    'mutation of the alphabet (31 operations) is applied to either side and the '
    'other side has to stay as it was. All ordered pairs of attribute '
    'combinations and all single-value differences for equality. The same for '
    'ObsList/MultiBandObsList of all shapes up to 2x2, for mixtures of every '
    'kind after every operation history up to depth 2 (3 thorough), and jacobians. A state is the '
    'pair of snapshots (original, copy) reached.'
)
ASSUMPTIONS = ['image shape (2,3); list metadata is not part of list equality; '
               'NaN data and metadata holding arrays are outside equality']

OPT = ('bmask', 'ormask', 'noise', 'mfrac', 'gmix', 'psf', 'meta')
SHAPE = (2, 3)
ROUTES = ('copy', 'copy.copy', 'deepcopy')


def base(k=0):
    return (np.arange(6, dtype='f8').reshape(SHAPE) + 1.0 + k)


def gmix(k=0):
    return GMixModel([0.1, 0.2, 0.1, -0.05, 4.0 + k, 2.0], 'exp')


def make_psf(k=0):
    return Observation(base(k) * 0.5, weight=base(k) * 3, jacobian=jac(1.0, 1.0),
                       gmix=GMix(pars=[1.0, 0, 0, 2, 0.1, 3 + k] * 2),
                       bmask=np.ones(SHAPE, dtype='i4'), meta={'psfm': [1, k]},
                       ignore_zero_weight=False)


def make(present, store=True, ignore=True, k=0, change=None):
    """change: attribute with another value"""
    def kk(a):
        return k + (1 if change == a else 0)

    def im(a, dtype='f8'):
        x = base(k).astype(dtype)
        if change == a:
            x[1, 2] += 1
        return x
    kw = {}
    if 'bmask' in present:
        kw['bmask'] = im('bmask', 'i4')
    if 'ormask' in present:
        kw['ormask'] = im('ormask', 'i8')
    if 'noise' in present:
        kw['noise'] = im('noise')
    if 'mfrac' in present:
        kw['mfrac'] = im('mfrac', 'f4')
    if 'gmix' in present:
        kw['gmix'] = gmix(kk('gmix'))
    if 'psf' in present:
        kw['psf'] = make_psf(kk('psf'))
    if 'meta' in present:
        kw['meta'] = {'a': 1, 'l': [1, {'x': kk('meta')}]}
    w = im('weight') * 2
    w[0, 1] = 0.0
    j = jac()
    if change == 'jacobian':
        j = jac(e=0.26)
    elif change == 'jacobian0':
        j = jac(row=1.25)
    return Observation(im('image'), weight=w, jacobian=j, store_pixels=store,
                       ignore_zero_weight=ignore, **kw)


def docopy(x, route):
    if route == 'copy':
        return x.copy()
    if route == 'copy.copy':
        return copy.copy(x)
    return copy.deepcopy(x)


class NA(Exception):
    pass


def m_ctx(attr):
    def f(o):
        if attr not in ('image', 'weight') and not getattr(o, 'has_' + attr)():
            raise NA()
        with o.writeable():
            getattr(o, attr)[0, 0] += 3
    return f


def m_set(attr, dtype='f8'):
    def f(o):
        setattr(o, attr, (base(7)).astype(dtype))
    return f


def m_del(attr):
    def f(o):
        if not getattr(o, 'has_' + attr)():
            raise NA()
        setattr(o, attr, None)
    return f


def m_psf(g):
    def f(o):
        if not o.has_psf():
            raise NA()
        g(o.psf)
    return f


def _jacctx(o):
    with o.writeable():
        o.jacobian.set_cen(row=9.0, col=8.0)


def _gmix_ref(o):
    """the getters give copies of the mixture"""
    if not o.has_gmix():
        raise NA()
    o.gmix.set_flux(99.0)
    o.get_gmix().set_cen(5.0, 5.0)


def _metanest(o):
    if 'l' not in o.meta:
        raise NA()
    o.meta['l'][1]['x'] = 'changed'
    o.meta['l'].append(5)


def _metaset(o):
    o.meta['new'] = 1


def _metaclear(o):
    o.meta.clear()


MUT = {}
for _a in ('image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac'):
    MUT['ctx_' + _a] = m_ctx(_a)
    MUT['set_' + _a] = m_set(_a)
    if _a not in ('image', 'weight'):
        MUT['del_' + _a] = m_del(_a)
MUT['ctx_jac'] = _jacctx
MUT['set_jac'] = lambda o: o.set_jacobian(jac(0.5, 0.5, 1.0))
MUT['set_gmix'] = lambda o: o.set_gmix(gmix(5))
MUT['del_gmix'] = m_del('gmix')
MUT['ref_gmix'] = _gmix_ref
MUT['set_psf'] = lambda o: o.set_psf(make_psf(6))
MUT['del_psf'] = m_del('psf')
MUT['psf_ctx'] = m_psf(m_ctx('image'))
MUT['psf_bmask'] = m_psf(m_ctx('bmask'))
MUT['psf_set_gmix'] = m_psf(lambda p: p.set_gmix(gmix(9)))
MUT['psf_meta'] = m_psf(lambda p: p.meta['psfm'].append(3))
MUT['psf_jac'] = m_psf(_jacctx)
MUT['meta_nest'] = _metanest
MUT['meta_new'] = _metaset
MUT['meta_clear'] = _metaclear
MUT['meta_update'] = lambda o: o.update_meta_data({'a': 77})
MUT['meta_set'] = lambda o: o.set_meta({'z': 1})
MUT['store'] = lambda o: setattr(o, 'store_pixels', not o.store_pixels)
MUT['ignore'] = lambda o: setattr(o, 'ignore_zero_weight', not o.ignore_zero_weight)


def arrays(o, pre=''):
    """all the data arrays reachable from an observation"""
    out = []
    for a in ('image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac'):
        has = getattr(o, 'has_' + a, None)
        if has is None or has():
            out.append((pre + a, getattr(o, a)))
    if o.pixels is not None:
        out.append((pre + 'pixels', o.pixels))
    if o.has_psf():
        out += arrays(o.psf, pre + 'psf.')
    return out


def k_copy(case, rec):
    present, route = case['present'], case['route']

    def mk():
        return make(present, case['store'], case['ignore'])

    o = mk()
    s0 = snap(o)
    c = docopy(o, route)
    rec.trans()
    if type(c) is not type(o):
        rec.fail('copy-type', 'copy is a %s' % type(c))
        return
    d = diff(s0, snap(c))
    if d:
        rec.fail('copy-incomplete', 'copy differs: %s' % d)
        return
    d = diff(s0, snap(o))
    if d:
        rec.fail('copy-changed-original', d)
    if not (o == c and c == o) or (o != c):
        rec.fail('copy-unequal', 'copy does not compare equal')
    for (n, x), (n2, y) in itertools.product(arrays(o), arrays(c)):
        if np.shares_memory(x, y):
            rec.fail('copy-shares', 'copy shares the memory of %s / %s' % (n, n2))
    rec.eval(4)
    for side in (0, 1):
        for name in MUT:
            o = mk()
            pair = (o, docopy(o, route))
            try:
                MUT[name](pair[side])
            except NA:
                continue
            rec.trans(2)
            rec.trace()
            other = pair[1 - side]
            d = diff(s0, snap(other))
            if d:
                rec.fail('copy-not-independent',
                         '%s of the %s changed the %s: %s' % (
                             name, ('original', 'copy')[side],
                             ('copy', 'original')[side], d))
            d = diff(s0, snap(pair[side]))
            if d is None and name not in ('ref_gmix', 'meta_clear'):
                rec.fail('mutation-lost', '%s had no effect' % name)
            if d is not None and name not in ('store', 'ignore'):
                if pair[0] == pair[1] or pair[1] == pair[0]:
                    rec.fail('equal-but-different',
                             'after %s of one side they still compare equal: %s' % (name, d))
            rec.state(fp(case, name, side))
            rec.eval(3)


def subsets():
    for n in range(len(OPT) + 1):
        for s in itertools.combinations(OPT, n):
            yield list(s)


def k_pairs(case, rec):
    p1 = case['present']
    a = make(p1)
    rec.trace()
    for p2 in subsets():
        b = make(p2)
        want = p1 == p2
        for x, y in ((a, b), (b, a)):
            try:
                got = bool(x == y)
                ne = bool(x != y)
            except Exception as err:
                got = ne = repr(err)
            rec.trans(2)
            rec.eval()
            if got is not want or ne is not (not want):
                rec.fail('presence-equality',
                         'with %s compared to with %s: == gives %s, != gives %s' % (
                             p1, p2, got, ne))
        rec.state(fp(p1, p2))
        rec.outcome(want)


def k_values(case, rec):
    present = case['present']
    a = make(present)
    rec.trace()
    for change in ('image', 'weight', 'jacobian', 'jacobian0') + tuple(present):
        b = make(present, change=change)
        rec.trans(2)
        rec.state(fp(present, change))
        if a == b or b == a:
            rec.fail('value-equality', 'equal although %s differs' % change)
    # same content in other forms
    b = make(present, store=False)
    c = make(present, ignore=False)
    if not (a == b and b == a and a == c):
        rec.fail('option-equality', 'unequal although all data are the same')
    rec.trans(3)


def k_shapes(case, rec):
    """observations of different shapes"""
    s1, s2 = tuple(case['s1']), tuple(case['s2'])
    a = Observation(np.ones(s1), weight=np.ones(s1), jacobian=jac())
    b = Observation(np.ones(s2), weight=np.ones(s2), jacobian=jac())
    rec.trace()
    rec.trans()
    rec.state(fp(s1, s2))
    try:
        got = bool(a == b)
    except Exception as err:
        got = repr(err)
    if got is not (s1 == s2):
        rec.fail('shape-equality', 'shapes %s %s compare %s' % (s1, s2, got))


def mklist(shape, psf, k=0):
    """shape: number of epochs in each band; an int gives an ObsList"""
    if isinstance(shape, int):
        r = ObsList(meta={'lm': [k]})
        for i in range(shape):
            r.append(make(['psf', 'meta'] if psf else ['bmask'], k=i + k))
        return r
    r = MultiBandObsList(meta={'mm': {'q': k}})
    for ib, n in enumerate(shape):
        r.append(mklist(n, psf, k=10 * ib + k))
    return r


def leaves(x):
    if isinstance(x, Observation):
        yield x
    else:
        for y in x:
            for z in leaves(y):
                yield z


def lists_of(x):
    yield x
    if isinstance(x, MultiBandObsList):
        for y in x:
            yield y


def nolmeta(s):
    if 'items' not in s:
        return s
    return dict(s, meta=None, items=[nolmeta(x) for x in s['items']])


def k_lists(case, rec):
    shape, psf, route = case['shape'], case['psf'], case['route']
    o = mklist(shape, psf)
    s0 = snap(o)
    c = docopy(o, route)
    d = diff(s0, snap(c))
    if d:
        rec.fail('list-copy-incomplete', d)
        return
    if not (o == c and c == o) or o != c:
        rec.fail('list-copy-unequal', 'copy does not compare equal')
    ids = {id(x) for x in leaves(o)} | {id(x) for x in lists_of(o)}
    for x in list(leaves(c)) + list(lists_of(c)):
        if id(x) in ids:
            rec.fail('list-copy-shares', 'copy holds a %s of the original' % type(x))
    nleaf = len(list(leaves(o)))
    nlist = len(list(lists_of(o)))
    muts = []
    for i in range(nleaf):
        for name in ('ctx_image', 'set_weight', 'ctx_jac', 'psf_ctx', 'meta_new', 'meta_nest',
                     'del_psf', 'set_gmix', 'ctx_bmask'):
            muts.append(('leaf', i, name))
    for i in range(nlist):
        for name in ('meta', 'metanest', 'append', 'pop', 'assign', 'reverse', 'clear'):
            muts.append(('list', i, name))
    for side in (0, 1):
        for mk, i, name in muts:
            o = mklist(shape, psf)
            pair = (o, docopy(o, route))
            try:
                if mk == 'leaf':
                    MUT[name](list(leaves(pair[side]))[i])
                else:
                    lst = list(lists_of(pair[side]))[i]
                    if name == 'meta':
                        lst.meta['zz'] = 1
                    elif name == 'metanest':
                        v = lst.meta.get('lm', lst.meta.get('mm'))
                        v.append(3) if isinstance(v, list) else v.update(w=1)
                    elif name == 'append':
                        lst.append(ObsList() if isinstance(lst, MultiBandObsList) else make([]))
                    elif len(lst) == 0:
                        raise NA()
                    elif name == 'pop':
                        lst.pop()
                    elif name == 'assign':
                        lst[0] = ObsList() if isinstance(lst, MultiBandObsList) else make([])
                    elif name == 'reverse':
                        lst.reverse()
                    elif name == 'clear':
                        del lst[:]
            except NA:
                continue
            rec.trans(2)
            rec.trace()
            rec.eval(2)
            rec.state(fp(case, side, mk, i, name))
            d = diff(s0, snap(pair[1 - side]))
            if d:
                rec.fail('list-copy-not-independent', '%s changed the other side: %s' % (
                    (mk, i, name), d))
            d = diff(nolmeta(s0), nolmeta(snap(pair[side])))
            if d:
                if pair[0] == pair[1] or pair[1] == pair[0]:
                    rec.fail('list-equal-but-different',
                             'after %s they compare equal: %s' % ((mk, i, name), d))


def k_listeq(case, rec):
    a, b = mklist(case['a'], True), mklist(case['b'], True)
    rec.trans(2)
    rec.trace()
    rec.state(fp(case))
    want = case['a'] == case['b']
    if bool(a == b) is not want or bool(b == a) is not want or bool(a != b) is want:
        rec.fail('list-equality', 'shapes %s %s: == gives %s' % (case['a'], case['b'], a == b))


# ---------------------------------------------------------------------------
# mixtures

GKINDS = {
    'full1': lambda: GMix(pars=[1.0, 0.1, 0.2, 4.0, 0.5, 3.0]),
    'full2': lambda: GMix(pars=[1.0, 0.1, 0.2, 4.0, 0.5, 3.0, 2.0, -0.1, 0.4, 2.0, -0.5, 3.5]),
    'full3': lambda: GMix(pars=[1.0, 0.1, 0.2, 4.0, 0.5, 3.0] * 3),
    'gauss': lambda: GMixModel([0.1, 0.2, 0.1, -0.05, 4.0, 2.0], 'gauss'),
    'exp': lambda: GMixModel([0.1, 0.2, 0.1, -0.05, 4.0, 2.0], 'exp'),
    'dev': lambda: GMixModel([0.1, 0.2, 0.1, -0.05, 4.0, 2.0], 'dev'),
    'turb': lambda: GMixModel([0.1, 0.2, 0.1, -0.05, 4.0, 2.0], 'turb'),
    'bdf': lambda: GMixModel([0.1, 0.2, 0.1, -0.05, 4.0, 0.4, 2.0], 'bdf'),
    'bd': lambda: GMixModel([0.1, 0.2, 0.1, -0.05, 4.0, 0.1, 0.4, 2.0], 'bd'),
    'cm': lambda: ngmix.gmix.GMixCM(0.3, 0.8, [0.1, 0.2, 0.1, -0.05, 4.0, 2.0]),
    'coellip1': lambda: ngmix.gmix.GMixCoellip([0.1, 0.2, 0.1, -0.05, 4.0, 2.0]),
    'coellip2': lambda: ngmix.gmix.GMixCoellip([0.1, 0.2, 0.1, -0.05, 4.0, 2.0, 1.0, 0.5]),
}
GFILL = {
    'full1': [2.0, 0.3, -0.2, 3.0, -0.5, 4.0],
    'full2': [2.0, 0.3, -0.2, 3.0, -0.5, 4.0] * 2,
    'full3': [2.0, 0.3, -0.2, 3.0, -0.5, 4.0] * 3,
    'bdf': [0.3, -0.2, -0.1, 0.2, 6.0, 0.7, 3.0],
    'bd': [0.3, -0.2, -0.1, 0.2, 6.0, -0.1, 0.7, 3.0],
    'coellip2': [0.3, -0.2, -0.1, 0.2, 6.0, 3.0, 1.5, 2.5],
}
GOPS = ['flux', 'cen', 'sheared', 'round', 'roundp', 'fill', 'badfill', 'render', 'conv', 'norms']


def gapply(gm, kind, op):
    if op == 'flux':
        gm.set_flux(7.5)
    elif op == 'cen':
        gm.set_cen(1.5, -2.5)
    elif op == 'sheared':
        gm = gm.get_sheared(0.1, 0.05)
    elif op == 'round':
        gm = gm.make_round()
    elif op == 'roundp':
        gm = gm.make_round(preserve_size=True)
    elif op == 'fill':
        gm.fill(GFILL.get(kind, [0.3, -0.2, -0.1, 0.2, 6.0, 3.0]))
    elif op == 'badfill':
        p = np.array(GFILL.get(kind, [0.3, -0.2, -0.1, 0.2, 6.0, 3.0]))
        if not kind.startswith('full'):
            p[2] = 1.5
            try:
                gm.fill(p)
            except ngmix.GMixRangeError:
                pass
    elif op == 'render':
        gm.make_image([3, 3])
    elif op == 'norms':
        gm.set_norms()
    elif op == 'conv':
        gm = gm.convolve(GMixModel([0, 0, 0, 0, 2.0, 1.0], 'gauss'))
    return gm


def gsame(a, b):
    return (np.array_equal(a.get_full_pars(), b.get_full_pars())
            and np.allclose(a.make_image([4, 5]), b.make_image([4, 5]), rtol=1e-13, atol=1e-16))


def k_gmix(case, rec):
    kind = case['kind']
    gm = GKINDS[kind]()
    for op in case['ops']:
        gm = gapply(gm, kind, op)
        if op == 'conv':
            kind = 'full'
    rec.trans(len(case['ops']) + 1)
    pars = gm.get_full_pars()
    rec.state(fp(pars, case['kind']))
    for route in ROUTES:
        c = docopy(gm, route)
        rec.trace()
        if len(c) != len(gm) or not np.array_equal(pars, c.get_full_pars()):
            rec.fail('gmix-copy-incomplete', '%s after %s: %s vs %s' % (
                route, case['ops'], pars.tolist(), c.get_full_pars().tolist()))
            continue
        if not np.array_equal(pars, gm.get_full_pars()):
            rec.fail('gmix-copy-changed-original', route)
        if not (gm == c and c == gm):
            rec.fail('gmix-copy-unequal', route)
        if not gsame(gm, c):
            rec.fail('gmix-copy-render', 'copy evaluates differently')
        for op in ('flux', 'cen', 'fill'):
            if op == 'fill' and kind == 'full':
                continue
            for side in (0, 1):
                x = [gm.copy(), None]
                x[1] = docopy(x[0], route)
                gapply(x[side], kind, op)
                rec.trans(2)
                rec.eval()
                if not np.array_equal(x[1 - side].get_full_pars(), pars):
                    rec.fail('gmix-copy-not-independent', '%s of one side changed the other' % op)
                if (x[0] == x[1] or x[1] == x[0]) and not np.array_equal(
                        x[side].get_full_pars(), pars):
                    rec.fail('gmix-equal-but-different', op)
        # through an observation
        o = Observation(base(), gmix=gm)
        g = o.gmix
        if not np.array_equal(g.get_full_pars(), pars):
            rec.fail('obs-gmix', 'observation holds %s' % g.get_full_pars().tolist())


def k_gmixeq(case, rec):
    a = GKINDS[case['a']]()
    b = GKINDS[case['b']]()
    want = np.array_equal(a.get_full_pars(), b.get_full_pars())
    rec.trans(2)
    rec.trace()
    rec.state(fp(case))
    for x, y in ((a, b), (b, a)):
        try:
            got = bool(x == y)
        except Exception as err:
            got = repr(err)
        if got is not want:
            rec.fail('gmix-equality', '%s == %s gives %s' % (case['a'], case['b'], got))
    if case['a'] == case['b']:
        n = len(a)
        for i in range(n):
            for f in range(6):
                p = a.get_full_pars()
                p[6 * i + f] += 0.125
                c = GMix(pars=p)
                d = GMix(pars=a.get_full_pars())
                rec.eval()
                if d == c or c == d:
                    rec.fail('gmix-equality', 'equal although parameter %d of %d differs' % (f, i))
            # changes that keep sums, products or the determinant
            q = a.get_full_pars()
            for what, idx, val in (
                    ('sign of irc', [4], [-q[6 * i + 4]]), ('sign of row', [1], [-q[6 * i + 1]]),
                    ('sign of col', [2], [-q[6 * i + 2]]), ('sign of p', [0], [-q[6 * i]]),
                    ('signs of cen', [1, 2], [-q[6 * i + 1], -q[6 * i + 2]]),
                    ('irr and icc', [3, 5], [q[6 * i + 5], q[6 * i + 3]]),
                    ('row and col', [1, 2], [q[6 * i + 2], q[6 * i + 1]]),
                    ('irr*2, icc/2', [3, 5], [q[6 * i + 3] * 2, q[6 * i + 5] / 2])):
                p = q.copy()
                p[[6 * i + k for k in idx]] = val
                c = GMix(pars=p)
                d = GMix(pars=q)
                rec.eval()
                if np.array_equal(p, q) != bool(d == c) or np.array_equal(p, q) != bool(c == d):
                    rec.fail('gmix-equality', 'equality %s after changing %s of %d' % (d == c, what, i))


# ---------------------------------------------------------------------------
# jacobians

JV = [dict(row=1.0, col=2.0, dvdrow=0.3, dvdcol=0.0, dudrow=0.0, dudcol=0.3),
      dict(row=1.0, col=2.0, dvdrow=-0.3, dvdcol=0.1, dudrow=0.05, dudcol=0.2),
      dict(row=0.0, col=0.0, dvdrow=0.0, dvdcol=1.0, dudrow=-1.0, dudcol=0.0)]


def k_jac(case, rec):
    kw = JV[case['j']]
    a = Jacobian(**kw)
    t0 = jtuple(a)
    for route in ROUTES:
        b = docopy(a, route)
        rec.trans()
        rec.trace()
        if jtuple(b) != t0 or not a == b or not b == a:
            rec.fail('jac-copy', 'copy differs')
        b.set_cen(row=5.0, col=6.0)
        if jtuple(a) != t0 or a == b:
            rec.fail('jac-copy-not-independent', 'set_cen of the copy')
        b = docopy(a, route)
        c = Jacobian(**kw)
        d = docopy(c, route)
        c.set_cen(row=5.0, col=6.0)
        if jtuple(d) != t0:
            rec.fail('jac-copy-not-independent', 'set_cen of the original')
        rec.state(fp(case, route))
    for k in kw:
        k2 = dict(kw)
        k2[k] += 0.125
        c = Jacobian(**k2)
        rec.eval()
        if a == c or c == a:
            rec.fail('jac-equality', 'equal although %s differs' % k)
    # changes that keep the determinant, the scale or sums
    D4 = ('dvdrow', 'dvdcol', 'dudrow', 'dudcol')
    changes = [dict(row=kw['col'], col=kw['row']), {k: -kw[k] for k in D4},
               dict(dvdcol=-kw['dvdcol'], dudrow=-kw['dudrow']), dict(dvdrow=-kw['dvdrow'], dudcol=-kw['dudcol']),
               dict(dvdcol=kw['dudrow'], dudrow=kw['dvdcol']), dict(dvdrow=kw['dudcol'], dudcol=kw['dvdrow']),
               dict(dvdrow=2 * kw['dvdrow'], dudcol=kw['dudcol'] / 2), dict(row=-kw['row']), dict(col=-kw['col'])]
    changes += [{k: np.nextafter(kw[k], 9)} for k in kw if kw[k] != 0]
    changes += [{x: kw[y], y: kw[x]} for x, y in itertools.combinations(kw, 2)]
    for ch in changes:
        k2 = dict(kw, **ch)
        if k2['dvdrow'] * k2['dudcol'] - k2['dvdcol'] * k2['dudrow'] == 0:
            continue
        c = Jacobian(**k2)
        rec.eval()
        if bool(a == c) != (k2 == kw) or bool(c == a) != (k2 == kw):
            rec.fail('jac-equality', '%s and %s: equality %s' % (kw, k2, a == c))


KINDS = {'copy': k_copy, 'pairs': k_pairs, 'values': k_values, 'shapes': k_shapes,
         'lists': k_lists, 'listeq': k_listeq, 'gmix': k_gmix, 'gmixeq': k_gmixeq, 'jac': k_jac}
CHUNK = 8


def warmup():
    make(list(OPT))
    make([], ignore=False)
    for k in GKINDS:
        k_gmix(dict(kind=k, ops=['render', 'conv']), __import__('mc.core').core.Rec())


def cases(tier):
    thorough = tier == 'thorough'
    opts = list(itertools.product((True, False), repeat=2))
    for i, s in enumerate(subsets()):
        for r, route in enumerate(ROUTES):
            for k, (store, ignore) in enumerate(opts):
                if thorough or k == (i + r) % 4:
                    yield 'copy', dict(present=s, route=route, store=store, ignore=ignore)
    for s in subsets():
        yield 'pairs', dict(present=s)
        yield 'values', dict(present=s)
    shapes = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 3), (3, 2)]
    for s1, s2 in itertools.product(shapes, repeat=2):
        yield 'shapes', dict(s1=list(s1), s2=list(s2))
    ls = [0, 1, 2, 3, [], [0], [1], [2], [1, 1], [1, 2], [2, 2], [0, 1], [2, 1, 2]]
    for shape in ls:
        for psf in (True, False):
            for route in ROUTES:
                yield 'lists', dict(shape=shape, psf=psf, route=route)
    for a, b in itertools.product(ls, repeat=2):
        if isinstance(a, int) == isinstance(b, int):
            yield 'listeq', dict(a=a, b=b)
    for kind in GKINDS:
        for d in range(0, (4 if thorough else 3)):
            for ops in itertools.product(GOPS, repeat=d):
                if 'conv' in ops[:-1]:
                    continue
                yield 'gmix', dict(kind=kind, ops=list(ops))
        for b in GKINDS:
            yield 'gmixeq', dict(a=kind, b=b)
    for j in range(len(JV)):
        yield 'jac', dict(j=j)
