"""
C01  pixels of an Observation always mirror its current data
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, Jacobian, DiagonalJacobian
from ngmix.gexceptions import GMixFatalError
from mc.core import bfs, fp

LEVEL = 'model_checking'
RULE = (
    'Breadth-first search over histories of real Observation objects: every '
    'sequence (to the depth bound) of image/weight/jacobian setters with valid '
    'and invalid values, in-place edits in a writeable context (also with an '
    'exception in the body), deferred updates, store_pixels/ignore_zero_weight '
    'toggles, reads and copies, from every root (image shape x weight map x '
    'jacobian x options). After every history all getters, the complete pixel '
    'list and the read-only guard are compared with a reference model that '
    'recomputes the pixel list from scratch. Histories are merged only when '
    'both the model state and every attribute of the real object are equal.'
)
ASSUMPTIONS = [
    'writes through references obtained inside a writeable context but used '
    'after it, and through the arrays the caller passed in, are outside the property',
    'image shapes up to 4x3; float tolerance 1e-12 relative on derived pixel fields',
]

SHAPES = {'23': (2, 3), '32': (3, 2), '11': (1, 1), '43': (4, 3)}


def image(shape, k):
    n = shape[0] * shape[1]
    if k == 0:
        return (np.arange(n, dtype='f8') + 1.0).reshape(shape)
    if k == 1:
        return (-3.5 * np.arange(n, dtype='f8') + 0.25).reshape(shape)
    return np.zeros(shape)


def weight(shape, name):
    n = shape[0] * shape[1]
    w = np.ones(n)
    if name == 'ones':
        pass
    elif name == 'var':
        w = 0.5 + np.arange(n) / 4.0
    elif name == 'zero0':
        w[0] = 0.0
        if n == 1:
            w[0] = 2.0
    elif name == 'mixed':
        w = 1.0 + np.arange(n) * 0.25
        w[1::3] = 0.0
        w[2::3] = -2.0
    elif name == 'tiny':
        w[:] = 1.0e-300
        w[-1] = 5.0e-324
    elif name == 'last':
        w[:] = 0
        w[-1] = 4.0
    elif name == 'zeros':
        w[:] = 0
    elif name == 'neg':
        w[:] = -1
    elif name == 'nan':
        w = 1.0 + np.arange(n) * 0.25
        w[::2] = np.nan
    elif name == 'nan0':
        w[:] = np.nan
    elif name == 'inf':
        w = 1.0 + np.arange(n) * 0.25
        w[0], w[-1] = np.nan, np.inf
    return w.reshape(shape)


JPARS = {
    # row, col, dvdrow, dvdcol, dudrow, dudcol
    'diag': (1.0, 0.5, 0.25, 0.0, 0.0, 0.25),
    'shear': (0.5, 1.0, 0.3, 0.05, -0.02, 0.2),
    'neg': (0.0, 0.0, -0.3, 0.1, 0.1, 0.2),
}


def make_jac(name):
    r, c, a, b, d, e = JPARS[name]
    return Jacobian(row=r, col=c, dvdrow=a, dvdcol=b, dudrow=d, dudcol=e)


class Model(object):
    def __init__(self, shape, wname, jname, store, ignore):
        self.shape = shape
        self.image = image(shape, 0)
        self.weight = weight(shape, wname)
        self.jac = JPARS[jname] if jname else self.default_jac()
        self.store = store
        self.ignore = ignore

    def default_jac(self):
        return ((self.shape[0] - 1) / 2.0, (self.shape[1] - 1) / 2.0,
                1.0, 0.0, 0.0, 1.0)

    def possible(self):
        return not (self.store and self.ignore) or (self.weight > 0).any()

    def pixels(self):
        """the complete list, None if not stored"""
        if not self.store or not self.possible():
            return None
        row0, col0, dvdrow, dvdcol, dudrow, dudcol = self.jac
        area = abs(dvdrow * dudcol - dvdcol * dudrow)
        out = []
        for r in range(self.shape[0]):
            for c in range(self.shape[1]):
                w = self.weight[r, c]
                if self.ignore and not w > 0:
                    continue
                out.append((
                    dudrow * (r - row0) + dudcol * (c - col0),
                    dvdrow * (r - row0) + dvdcol * (c - col0),
                    area, self.image[r, c],
                    np.sqrt(w) if w > 0 else 0.0,
                ))
        return np.array(out)


class Boom(Exception):
    pass


OPS_VALID = [
    ['image', 0], ['image', 1],
    ['weight', 'ones'], ['weight', 'mixed'], ['weight', 'last'], ['weight', None],
    ['jac', 'diag'], ['jac', 'shear'], ['jac', None],
    ['store', True], ['store', False],
    ['ignore', True], ['ignore', False],
    ['ctx', 'image'], ['ctx', 'weight'], ['ctx', 'jac'], ['ctx', 'all'], ['ctx', 'boom'],
    ['ctx', 'none'],
    ['read'], ['copy'],
]
OPS_BAD = [
    ['weight', 'zeros'], ['ctx', 'zeros'],
    ['image', 'badshape'], ['weight', 'badshape'], ['weight', 'bad1d'], ['jac', 'bad'],
]
OPS_MORE = [
    ['weight', 'var'], ['weight', 'tiny'], ['weight', 'neg'], ['image', 2],
    ['jac', 'neg'], ['deferred', 'iw'], ['deferred', 'j'], ['method', 'all'],
    ['ctx', 'set'], ['ctx', 'toggle'], ['deepcopy'], ['ctx', 'zero1'],
]


def build(case, trace, rec=None):
    shape = SHAPES[case['shape']]
    m = Model(shape, case['weight'], case['jac'], case['store'], case['ignore'])
    jac = make_jac(case['jac']) if case['jac'] else None
    obs = Observation(m.image.copy(), weight=m.weight.copy(), jacobian=jac,
                      store_pixels=m.store, ignore_zero_weight=m.ignore,
                      bmask=np.zeros(shape, dtype='i4'), noise=m.image * 0.5)
    box = [obs, m, []]
    for op in trace:
        apply(box, op)
    return box


BAD = (AssertionError, ValueError, TypeError)


def apply(box, op):
    """apply op to the real object and to the model, note disagreements"""
    obs, m, errs = box
    shape = m.shape
    name = op[0]
    old = (m.image.copy(), m.weight.copy(), m.jac, m.store, m.ignore)
    expect_bad = False

    def run():
        if name == 'image':
            if op[1] == 'badshape':
                obs.image = np.zeros((shape[0] + 1, shape[1]))
            else:
                obs.image = image(shape, op[1])
        elif name == 'weight':
            if op[1] == 'badshape':
                obs.weight = np.ones((shape[1] + 1, shape[0]))
            elif op[1] == 'bad1d':
                obs.weight = np.ones(shape[0] * shape[1])
            elif op[1] is None:
                obs.set_weight(None)
            else:
                obs.weight = weight(shape, op[1])
        elif name == 'jac':
            if op[1] == 'bad':
                obs.jacobian = [1, 2, 3]
            elif op[1] is None:
                obs.set_jacobian(None)
            else:
                obs.jacobian = make_jac(op[1])
        elif name == 'store':
            obs.store_pixels = op[1]
        elif name == 'ignore':
            obs.ignore_zero_weight = op[1]
        elif name == 'ctx':
            how = op[1]
            with obs.writeable():
                if how in ('image', 'all', 'boom'):
                    obs.image[0, 0] += 5.0
                if how in ('weight', 'all'):
                    obs.weight[-1, -1] = 9.0
                if how == 'zero1':
                    obs.weight[0, 0] = 0.0
                if how == 'zeros':
                    obs.weight[:, :] = 0.0
                if how in ('jac', 'all'):
                    obs.jacobian.set_cen(row=0.25, col=-1.5)
                if how == 'set':
                    obs.image = image(shape, 1)
                    obs.image[0, 0] = -7.0
                    obs.weight = weight(shape, 'var')
                    obs.weight[0, 0] = 16.0
                if how == 'toggle':
                    obs.store_pixels = not obs.store_pixels
                    obs.image[0, 0] = 77.0
                if how == 'boom':
                    raise Boom()
        elif name == 'read':
            obs.pixels, obs.image, obs.weight, obs.jacobian, obs.get_s2n()
        elif name == 'deferred':
            if 'i' in op[1]:
                obs.set_image(image(shape, 1), update_pixels=False)
            if 'w' in op[1]:
                obs.set_weight(weight(shape, 'var'), update_pixels=False)
            if 'j' in op[1]:
                obs.set_jacobian(make_jac('shear'), update_pixels=False)
            obs.update_pixels()
        elif name == 'method':
            obs.set_image(image(shape, 0))
            obs.set_weight(weight(shape, 'var'))
            obs.set_jacobian(make_jac('neg'))
        elif name == 'copy':
            box[0] = obs.copy()
        elif name == 'deepcopy':
            import copy
            box[0] = copy.deepcopy(obs)

    # the model
    if name == 'image':
        if op[1] == 'badshape':
            expect_bad = True
        else:
            m.image = image(shape, op[1])
    elif name == 'weight':
        if op[1] in ('badshape', 'bad1d'):
            expect_bad = True
        else:
            m.weight = weight(shape, op[1] or 'ones')
    elif name == 'jac':
        if op[1] == 'bad':
            expect_bad = True
        else:
            m.jac = JPARS[op[1]] if op[1] else m.default_jac()
    elif name == 'store':
        m.store = op[1]
    elif name == 'ignore':
        m.ignore = op[1]
    elif name == 'ctx':
        how = op[1]
        if how in ('image', 'all', 'boom'):
            m.image[0, 0] += 5.0
        if how in ('weight', 'all'):
            m.weight[-1, -1] = 9.0
        if how == 'zero1':
            m.weight[0, 0] = 0.0
        if how == 'zeros':
            m.weight[:, :] = 0.0
        if how in ('jac', 'all'):
            m.jac = (0.25, -1.5) + tuple(m.jac[2:])
        if how == 'set':
            m.image = image(shape, 1)
            m.image[0, 0] = -7.0
            m.weight = weight(shape, 'var')
            m.weight[0, 0] = 16.0
        if how == 'toggle':
            m.store = not m.store
            m.image[0, 0] = 77.0
    elif name == 'deferred':
        if 'i' in op[1]:
            m.image = image(shape, 1)
        if 'w' in op[1]:
            m.weight = weight(shape, 'var')
        if 'j' in op[1]:
            m.jac = JPARS['shear']
    elif name == 'method':
        m.image = image(shape, 0)
        m.weight = weight(shape, 'var')
        m.jac = JPARS['neg']

    raised = None
    try:
        run()
    except (GMixFatalError, Boom) + BAD as err:
        raised = err

    if name == 'ctx' and op[1] == 'boom':
        # with no positive weights leaving the context raises too
        if not isinstance(raised, (Boom, GMixFatalError)):
            errs.append('exception in a context body got lost: %r' % (raised,))
    elif expect_bad:
        if raised is None:
            errs.append('invalid update %s was accepted' % (op,))
    elif isinstance(raised, GMixFatalError):
        if m.possible() and not (
            # a compound update can pass through an impossible state
            name in ('deferred', 'method') or (name == 'ctx' and op[1] in ('set', 'toggle'))
        ):
            errs.append('valid update %s raised %r' % (op, raised))
    elif raised is not None:
        errs.append('update %s raised %r' % (op, raised))
    elif not m.possible() and name not in ('read',):
        # an update that would have no pixels has to raise, except that
        # setting an option to its present value does nothing
        noop = (name == 'store' and old[3] == op[1]) or (
            name == 'ignore' and old[4] == op[1])
        if not noop:
            errs.append('update %s should raise: no positive weights' % (op,))

    if isinstance(raised, GMixFatalError):
        # the failed update may have been kept or undone; follow the object
        o = box[0]
        if name in ('deferred', 'method') or (name == 'ctx' and op[1] in ('set', 'toggle')):
            # stopped somewhere in the middle of several updates
            m.image, m.weight = o.image.copy(), o.weight.copy()
        for attr, k, cur in (('image', 0, m.image), ('weight', 1, m.weight)):
            val = getattr(o, attr)
            if np.array_equal(val, old[k]):
                setattr(m, attr, old[k])
        j = o.jacobian
        jt = (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)
        if np.allclose(jt, old[2], rtol=0, atol=0):
            m.jac = old[2]
        if bool(o.store_pixels) == old[3]:
            m.store = old[3]
        if bool(o.ignore_zero_weight) == old[4]:
            m.ignore = old[4]


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-13)


def compare(box, rec, sigp=''):
    obs, m, errs = box
    bad = list(errs)
    if not np.array_equal(obs.image, m.image):
        bad.append('image: %s, expected %s' % (obs.image.tolist(), m.image.tolist()))
    if not np.array_equal(obs.weight, m.weight, equal_nan=True):
        bad.append('weight: %s, expected %s' % (obs.weight.tolist(), m.weight.tolist()))
    j = obs.jacobian
    jt = (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)
    if not np.array_equal(jt, m.jac):
        bad.append('jacobian: %s, expected %s' % (jt, m.jac))
    if bool(obs.store_pixels) != m.store or bool(obs.ignore_zero_weight) != m.ignore:
        bad.append('options: %s %s, expected %s %s' % (
            obs.store_pixels, obs.ignore_zero_weight, m.store, m.ignore))
    want = m.pixels()
    pix = obs.pixels
    if want is None:
        if pix is not None:
            bad.append('pixels: %d pixels are stored, expected none (%s)' % (
                len(pix), 'not stored' if not m.store else 'no positive weights'))
    elif pix is None:
        bad.append('pixels: none, expected %d' % len(want))
    else:
        got = np.array([[p['u'], p['v'], p['area'], p['val'], p['ierr']] for p in pix])
        if not close(got, want):
            bad.append('pixels: %s, expected %s' % (got.tolist(), want.tolist()))
        # the guard
        try:
            pix['val'][0] = 1e6
            bad.append('pixels can be modified')
        except ValueError:
            pass
    before = (obs.image.copy(), obs.weight.copy(), obs.bmask.copy(), obs.noise.copy())
    for attr in ('image', 'weight', 'bmask', 'noise'):
        try:
            getattr(obs, attr)[0, 0] = 55
        except ValueError:
            pass
    try:
        obs.jacobian.set_cen(row=1000, col=1000)
    except ValueError:
        pass
    after = (obs.image, obs.weight, obs.bmask, obs.noise)
    for a, b, n in zip(before, after, ('image', 'weight', 'bmask', 'noise')):
        if not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
            bad.append('%s was modified outside a writeable context' % n)
    j = obs.jacobian
    if (j.row0, j.col0) != (m.jac[0], m.jac[1]):
        bad.append('jacobian was modified outside a writeable context')
    rec.eval()
    rec.outcome('none' if want is None else 'npix=%d' % len(want))
    return bad


def k_explore(case, rec):
    ops = {'valid': OPS_VALID, 'bad': OPS_VALID + OPS_BAD,
           'all': OPS_VALID + OPS_BAD + OPS_MORE}[case['ops']]

    def check(box, hist):
        bad = compare(box, rec)
        if bad:
            rec.fail(bad[0].split(':')[0][:60], '; '.join(bad) + ' after %s' % (hist,),
                     kind='trace', case=dict(case, trace=hist))
        return not bad

    def canon(box):
        obs, m, errs = box
        return fp(vars(obs), m.image, m.weight, list(m.jac), m.store, m.ignore)

    bfs(ops, case['depth'], lambda t: build(case, t), rec, canon, check,
        prefix=case['prefix'])
    rec.sample(dict(root=case['shape'], prefix=case['prefix']))


def k_trace(case, rec):
    bad = compare(build(case, case['trace']), rec)
    rec.trace()
    rec.trans(len(case['trace']) or 1)
    rec.state(fp(case))
    if bad:
        rec.fail(bad[0].split(':')[0][:60], '; '.join(bad))


def k_construct(case, rec):
    """constructor: weights that leave no pixels"""
    shape = SHAPES[case['shape']]
    m = Model(shape, case['weight'], 'diag', case['store'], case['ignore'])
    rec.trans()
    rec.trace()
    rec.state(fp(case))
    try:
        obs = Observation(m.image.copy(), weight=m.weight.copy(), jacobian=make_jac('diag'),
                          store_pixels=m.store, ignore_zero_weight=m.ignore,
                          bmask=np.zeros(shape, dtype='i4'), noise=m.image * 0.5)
    except GMixFatalError:
        rec.outcome('raise')
        if m.possible():
            rec.fail('construct', 'constructor raised with usable pixels')
        return
    if not m.possible():
        rec.fail('construct', 'constructor accepted an observation without positive weights')
        return
    bad = compare([obs, m, []], rec)
    if bad:
        rec.fail(bad[0].split(':')[0][:60], '; '.join(bad))


def k_exact(case, rec):
    """input forms: dtype, order, strides of image and weight"""
    shape = SHAPES[case['shape']]
    m = Model(shape, 'mixed' if shape != (1, 1) else 'ones', 'shear', True, case['ignore'])
    im, wt = m.image.copy(), m.weight.copy()
    form = case['form']
    m.image = im.astype('f4').astype('f8') if form == 'f4' else im

    def conv(a):
        if form == 'f4':
            return a.astype('f4')
        if form == 'fortran':
            return np.asfortranarray(a)
        if form == 'strided':
            b = np.zeros((a.shape[0] * 2, a.shape[1] * 2))
            b[::2, ::2] = a
            return b[::2, ::2]
        if form == 'swapped':
            return a.astype('>f8')
        if form == 'list':
            return a.tolist()
        if form == 'negstride':
            return a[::-1].copy()[::-1]
        if form == 'int':
            return a.astype('i8')
        raise ValueError(form)
    if form == 'int':
        m.image = im.astype('i8').astype('f8')
        m.weight = wt.astype('i8').astype('f8')
    obs = Observation(conv(im), weight=conv(wt), jacobian=make_jac('shear'),
                      ignore_zero_weight=case['ignore'],
                      bmask=np.zeros(shape, dtype='i4'), noise=m.image * 0.5)
    box = [obs, m, []]
    bad = compare(box, rec)
    obs.image = conv(im)
    obs.weight = conv(wt)
    bad += compare(box, rec)
    rec.trace()
    rec.trans(3)
    rec.state(fp(case))
    if bad:
        rec.fail(bad[0].split(':')[0][:60], '; '.join(bad))


def k_nonfinite(case, rec):
    """
    weights that are not numbers, in a child process: the compiled code has no
    checks of bounds
    """
    import os
    rec.trans(3)
    rec.trace()
    rec.state(fp(case))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        text = ''
        try:
            shape = SHAPES[case['shape']]
            m = Model(shape, case['weight'], 'shear', case['store'], case['ignore'])
            bad = []
            try:
                obs = Observation(m.image.copy(), weight=m.weight.copy(), jacobian=make_jac('shear'),
                                  store_pixels=m.store, ignore_zero_weight=m.ignore,
                                  bmask=np.zeros(shape, dtype='i4'), noise=m.image * 0.5)
                if not m.possible():
                    bad.append('construct: accepted without positive weights')
                else:
                    bad += compare([obs, m, []], rec)
                    o2 = Observation(m.image.copy(), jacobian=make_jac('shear'), store_pixels=m.store,
                                     ignore_zero_weight=m.ignore, bmask=np.zeros(shape, dtype='i4'),
                                     noise=m.image * 0.5)
                    o2.weight = m.weight.copy()
                    bad += compare([o2, m, []], rec)
                    with o2.writeable():
                        o2.weight[:] = m.weight * 2
                    m.weight = m.weight * 2
                    bad += compare([o2, m, []], rec)
            except GMixFatalError:
                if m.possible():
                    bad.append('construct: raised with usable pixels')
            text = '; '.join(bad)
        except BaseException as err:
            text = 'exception: %s: %s' % (type(err).__name__, err)
        try:
            os.write(w, text.encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    text = b''
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        text += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    rec.outcome('nonfinite')
    if status:
        rec.fail('crash', 'the process died (status %d) with weights %s' % (status, case['weight']))
    elif text:
        text = text.decode()
        rec.fail('nonfinite:' + text.split(':')[0][:40], text)


KINDS = {'nonfinite': k_nonfinite, 'explore': k_explore, 'trace': k_trace, 'construct': k_construct, 'exact': k_exact}
CHUNK = 1


def warmup():
    Observation(np.zeros((2, 2)))
    Observation(np.zeros((2, 2)), ignore_zero_weight=False)


def cases(tier):
    thorough = tier == 'thorough'
    for shape in SHAPES:
        for w in ('ones', 'var', 'zero0', 'mixed', 'tiny', 'last', 'zeros', 'neg'):
            for store, ignore in itertools.product((True, False), repeat=2):
                yield 'construct', dict(shape=shape, weight=w, store=store, ignore=ignore)
        for w in ('nan', 'nan0', 'inf'):
            for store, ignore in itertools.product((True, False), repeat=2):
                yield 'nonfinite', dict(shape=shape, weight=w, store=store, ignore=ignore)
        for form in ('f4', 'fortran', 'strided', 'swapped', 'list', 'negstride', 'int'):
            for ignore in (True, False):
                yield 'exact', dict(shape=shape, form=form, ignore=ignore)
    for store, ignore in itertools.product((True, False), repeat=2):
        # deep with the core alphabet, from one root; partitioned by first op
        for op in OPS_VALID + OPS_BAD:
            yield 'explore', dict(shape='23', weight='mixed', jac='diag', store=store,
                                  ignore=ignore, ops='bad', prefix=[op],
                                  depth=4 if thorough else 3)
        # every root with the full alphabet
        for shape in SHAPES:
            for w in ('ones', 'zero0', 'last'):
                for jac in ('shear', None):
                    yield 'explore', dict(shape=shape, weight=w, jac=jac, store=store,
                                          ignore=ignore, ops='all', prefix=[],
                                          depth=3 if thorough else 2)
