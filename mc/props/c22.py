"""
C22  MEDS readers return each object's cutouts, masks, weights and psfs in order

The meds package is not installed: a stand-in module with the documented
interface of meds.MEDS, kept in memory, is put in its place.
"""
import itertools
import sys
import types
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'An in-memory stand-in for the MEDS file class serves catalogues in which every pixel of '
    'every cutout of every extension identifies object, cutout, extension and band.  All '
    'catalogues of up to three objects with up to three cutouts, every subset of optional '
    'extensions, psfs and catalogue columns, every weight type, every subset of cutouts '
    'without positive weight, read errors at every read of an object, every object selection '
    'up to length three for one to three bands, and all histories of reads up to a depth; the '
    'returned lists are compared cutout by cutout with the catalogue.'
)
ASSUMPTIONS = [
    'the stand-in follows the documented interface of meds.MEDS; the real package is not installed',
    'a failing read of an optional extension means the extension is not there',
]
CHUNK = 4
CASE_TIMEOUT = 300
WTYPES = ('weight', 'uberseg', 'cweight', 'cseg', 'cseg-canonical')
EXTS = ('bmask', 'ormask', 'noise', 'mfrac')
CODE = {'image': 1, 'weight': 2, 'seg': 3, 'bmask': 4, 'ormask': 5, 'noise': 6, 'mfrac': 7, 'psf': 8,
        'uberseg': 9, 'cweight': 10, 'cseg': 11, 'cseg-canonical': 12}


class ReadError(Exception):
    pass


class MEDS(object):
    """stand-in; spec is a dictionary describing the file"""

    def __init__(self, spec):
        self.spec = spec
        self.band = spec.get('band', 0)
        nc = spec['ncutout']
        n = len(nc)
        m = max(list(nc) + [1])
        dt = [('id', 'i8'), ('ncutout', 'i4'), ('box_size', 'i4'), ('file_id', 'i4', m), ('orig_row', 'f8', m), ('orig_col', 'f8', m),
              ('orig_start_row', 'i4', m), ('orig_start_col', 'i4', m), ('cutout_row', 'f8', m), ('cutout_col', 'f8', m)]
        cols = spec.get('cols', ())
        dt += [(c, 'i4' if c == 'number' else 'f4') for c in cols]
        if spec.get('psf'):
            dt += [('psf_cutout_row', 'f8', m), ('psf_cutout_col', 'f8', m)]
        self._cat = np.zeros(n, dtype=dt)
        c = self._cat
        nfile = 5
        for i in range(n):
            c['id'][i] = 1000 + 7 * i + 100 * self.band
            c['ncutout'][i] = nc[i]
            c['box_size'][i] = 4 + (i + self.band) % 3
            for col in cols:
                c[col][i] = (3 * i + {'number': 11, 'flux_auto': 50.5, 'x2': 1.25, 'y2': 2.5}[col]) + self.band
            for k in range(m):
                t = 100 * i + 10 * k + self.band
                c['file_id'][i, k] = (3 * i + 2 * k + self.band) % nfile
                c['orig_row'][i, k] = t + 0.1
                c['orig_col'][i, k] = t + 0.2
                c['orig_start_row'][i, k] = t + 3000
                c['orig_start_col'][i, k] = t + 4000
                c['cutout_row'][i, k] = 1.5 + 0.1 * i + 0.01 * k
                c['cutout_col'][i, k] = 1.6 - 0.1 * i + 0.02 * k
                if spec.get('psf'):
                    c['psf_cutout_row'][i, k] = 1.1 + 0.2 * i + 0.03 * k
                    c['psf_cutout_col'][i, k] = 0.9 + 0.1 * i + 0.05 * k
        kind = spec.get('paths', 'U')
        self._ii = np.zeros(nfile, dtype=[('image_id', 'i8'), ('image_path', kind + '40'), ('scale', 'f8')])
        for f in range(nfile):
            self._ii['image_id'][f] = 77 + f
            self._ii['image_path'][f] = '/data/b%d/file-%d.fits  ' % (self.band, f)
            self._ii['scale'][f] = 1.0 + 0.1 * f + 0.01 * self.band
        self.fault = None
        self.nread = 0

    def _read(self, what):
        self.nread += 1
        if self.fault is not None and self.nread == self.fault:
            self.faulted = what
            raise ReadError('%s' % (what,))

    # interface
    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, key):
        return self._cat[key]

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._ii

    def has_psf(self):
        return 'psf_cutout_row' in self._cat.dtype.names

    def _check(self, i, k):
        if k >= self._cat['ncutout'][i]:
            raise ValueError('object %d has %d cutouts' % (i, self._cat['ncutout'][i]))

    def pix(self, what, i, k):
        """what a pixel array holds; the truth for the comparison"""
        n = int(self._cat['box_size'][i])
        if what == 'psf':
            n = 3 + (i + k) % 2
        base = CODE[what] * 1000 + 100 * i + 10 * k + self.band
        a = base + np.arange(n * n).reshape(n, n) / 64.0
        if what in ('bmask', 'ormask', 'seg'):
            return a.astype('i4')
        if what == 'mfrac':
            return (a % 97) / 97.0
        if what in WTYPES:
            z = self.spec.get('zero', {}).get((what, i, k))
            if z == 'zero':
                a = a * 0
            elif z == 'neg':
                a = -a
            else:
                a[0, 1] = 0
        return a.astype('f4')

    def get_cutout(self, iobj, icutout, type='image'):
        self._check(iobj, icutout)
        self._read(('cutout', type))
        if type in EXTS and type not in self.spec.get('exts', ()):
            raise ValueError("bad cutout type: '%s'" % type)
        if type not in ('image', 'weight', 'seg') + EXTS:
            raise ValueError("bad cutout type: '%s'" % type)
        return self.pix(type, iobj, icutout)

    def has_type(self, type):
        return type in ('image', 'weight', 'seg') or type in self.spec.get('exts', ())

    _has_type = has_type

    def get_uberseg(self, iobj, icutout, fast=True):
        self._check(iobj, icutout)
        self._read(('uberseg',))
        return self.pix('uberseg', iobj, icutout)

    def get_cweight_cutout(self, iobj, icutout, restrict_to_seg=False):
        self._check(iobj, icutout)
        self._read(('cweight',))
        a = self.pix('cweight', iobj, icutout)
        return a if restrict_to_seg else a + 0.5

    def get_cseg_weight(self, iobj, icutout, use_canonical_cen=False):
        self._check(iobj, icutout)
        self._read(('cseg',))
        return self.pix('cseg-canonical' if use_canonical_cen else 'cseg', iobj, icutout)

    def get_psf(self, iobj, icutout):
        self._check(iobj, icutout)
        self._read(('psf',))
        if not self.has_psf():
            raise ValueError('no psf')
        return self.pix('psf', iobj, icutout)

    def jac(self, i, k):
        return dict(row0=1.5 + 0.1 * i + 0.01 * k, col0=1.6 - 0.1 * i + 0.02 * k, dudrow=0.01 * (i + 1), dudcol=0.263 + 0.01 * k,
                    dvdrow=0.27 + 0.02 * i, dvdcol=-0.01 * (k + 1) - 0.001 * self.band)

    def get_jacobian(self, iobj, icutout):
        self._check(iobj, icutout)
        self._read(('jacobian',))
        return self.jac(iobj, icutout)

    def get_cutout_list(self, iobj, type='image'):
        return [self.get_cutout(iobj, k, type=type) for k in range(self._cat['ncutout'][iobj])]

    def get_psf_list(self, iobj):
        return [self.get_psf(iobj, k) for k in range(self._cat['ncutout'][iobj])]

    def get_jacobian_list(self, iobj):
        return [self.get_jacobian(iobj, k) for k in range(self._cat['ncutout'][iobj])]

    def get_jacobian_matrix(self, iobj, icutout):
        j = self.get_jacobian(iobj, icutout)
        return np.array([[j['dudrow'], j['dudcol']], [j['dvdrow'], j['dvdcol']]])


def readers():
    """import the readers of the package on top of the stand-in"""
    have = sys.modules.get('meds')
    if have is None or getattr(have, 'MEDS', None) is not MEDS:
        m = types.ModuleType('meds')
        m.MEDS = MEDS
        sys.modules['meds'] = m
        sys.modules.pop('ngmix.medsreaders', None)
    import ngmix.medsreaders as mr
    return mr


def jt(o):
    j = o.jacobian
    return dict(row0=j.row0, col0=j.col0, dudrow=j.dudrow, dudcol=j.dudcol, dvdrow=j.dvdrow, dvdcol=j.dvdcol)


def check_obs(rec, tag, m, i, k, wt, ob):
    """one observation against the file"""
    def bad(sig, msg):
        rec.fail(sig, '%s object %d cutout %d: %s' % (tag, i, k, msg))
    if not isinstance(ob, Observation):
        return bad('type', '%s' % type(ob))
    if not np.array_equal(ob.image, m.pix('image', i, k)):
        bad('image', 'image is not that of the cutout: starts %s' % ob.image.ravel()[:2])
    if not np.array_equal(ob.weight, m.pix(wt, i, k)):
        bad('weight', '%s is not that of the cutout: starts %s' % (wt, ob.weight.ravel()[:2]))
    for e in EXTS:
        has = getattr(ob, 'has_' + e)()
        if has != (e in m.spec.get('exts', ())):
            bad('ext', '%s present %s, in the file %s' % (e, has, not has))
        elif has and not np.array_equal(getattr(ob, e), m.pix(e, i, k)):
            bad('ext', '%s is not that of the cutout: starts %s' % (e, getattr(ob, e).ravel()[:2]))
    j = m.jac(i, k)
    got = jt(ob)
    if any(abs(got[x] - j[x]) > 1e-12 for x in j):
        bad('jacobian', '%s expected %s' % (got, j))
    if ob.has_psf() != m.has_psf():
        bad('psf', 'psf present %s' % ob.has_psf())
    elif ob.has_psf():
        p = m.pix('psf', i, k)
        if not np.array_equal(ob.psf.image, p):
            bad('psf', 'psf image is not that of the cutout: starts %s' % ob.psf.image.ravel()[:2])
        elif not np.allclose(ob.psf.weight, (1000.0 / p.max()) ** 2, rtol=1e-5):
            bad('psf', 'psf weight %s' % ob.psf.weight.ravel()[:2])
        j = dict(j, row0=m._cat['psf_cutout_row'][i, k], col0=m._cat['psf_cutout_col'][i, k])
        got = jt(ob.psf)
        if any(abs(got[x] - j[x]) > 1e-12 for x in j):
            bad('psf', 'psf jacobian %s expected %s' % (got, j))
    c = m._cat
    f = int(c['file_id'][i, k])
    want = dict(id=c['id'][i], index=i, icut=k, cutout_index=k, file_id=f, file_path='file-%d.fits' % f,
                orig_row=c['orig_row'][i, k], orig_col=c['orig_col'][i, k], orig_start_row=c['orig_start_row'][i, k],
                orig_start_col=c['orig_start_col'][i, k], scale=m._ii['scale'][f])
    cols = m.spec.get('cols', ())
    if 'flux_auto' in cols:
        want['flux'] = c['flux_auto'][i]
    if 'x2' in cols and 'y2' in cols:
        want['T'] = c['x2'][i] + c['y2'][i]
    if 'number' in cols:
        want['number'] = c['number'][i]
    for key, v in want.items():
        if key not in ob.meta:
            bad('meta', 'no %s in the meta data' % key)
        else:
            g = ob.meta[key]
            if isinstance(g, bytes):
                g = g.decode()
            if g != v:
                bad('meta', 'meta %s is %r, expected %r' % (key, g, v))
    for key in ('flux', 'T', 'number'):
        if key not in want and key in ob.meta:
            bad('meta', 'meta %s although the catalogue has no such column' % key)
    rec.state(fp(tag, i, k, wt, float(ob.image[0, 0])))


def usable(m, i, wt):
    return [k for k in range(int(m._cat['ncutout'][i])) if m.spec.get('zero', {}).get((wt, i, k)) is None]


def check_list(rec, tag, m, i, wt, ol):
    rec.trans()
    rec.eval()
    ks = usable(m, i, wt)
    if not isinstance(ol, ObsList):
        return rec.fail('type', '%s: %s' % (tag, type(ol)))
    if len(ol) != len(ks):
        return rec.fail('skip', '%s %s object %d: %d observations, usable cutouts %s of %d' % (
            tag, wt, i, len(ol), ks, m._cat['ncutout'][i]))
    for k, ob in zip(ks, ol):
        check_obs(rec, tag, m, i, k, wt, ob)
    cols = m.spec.get('cols', ())
    want = {}
    if ks:
        if 'flux_auto' in cols:
            want['flux'] = m._cat['flux_auto'][i]
        if 'x2' in cols and 'y2' in cols:
            want['T'] = m._cat['x2'][i] + m._cat['y2'][i]
    for key in ('flux', 'T'):
        if (key in ol.meta) != (key in want) or (key in want and ol.meta[key] != want[key]):
            rec.fail('meta', '%s object %d: list meta %s, expected %s' % (tag, i, dict(ol.meta), want))


def k_cat(case, rec):
    """all catalogues of a size, all weight types and zero-weight subsets"""
    mr = readers()
    for nc in itertools.product(range(4), repeat=case['nobj']):
        if nc[0] != case['first']:
            continue
        cuts = [(i, k) for i, n in enumerate(nc) for k in range(n)]
        if len(cuts) > case['maxcuts']:
            continue
        for wt in WTYPES:
            subsets = itertools.product((None, 'zero'), repeat=len(cuts)) if len(cuts) <= case['allzero'] else (
                [tuple('zero' if j == i else None for j in range(len(cuts))) for i in range(len(cuts))]
                + [tuple('neg' if j != i else None for j in range(len(cuts))) for i in range(len(cuts))] + [(None,) * len(cuts)])
            for z in subsets:
                zero = {(wt,) + c: v for c, v in zip(cuts, z) if v}
                m = mr.NGMixMEDS(dict(ncutout=nc, exts=EXTS, psf=True, cols=('number', 'flux_auto', 'x2', 'y2'), zero=zero))
                for i in range(len(nc)):
                    check_list(rec, 'catalogue %s zero %s' % (nc, z), m, i, wt, m.get_obslist(i, weight_type=wt))
                rec.trace()
    rec.outcome(case['nobj'])


def k_ext(case, rec):
    """every subset of extensions, psf, columns, path types"""
    mr = readers()
    for n in range(5):
        for exts in itertools.combinations(EXTS, n):
            for psf, wt, paths in itertools.product((True, False), WTYPES, 'US'):
                if paths == 'S' and wt != 'weight':
                    continue
                for cols in case['cols']:
                    spec = dict(ncutout=(2, 0, 3), exts=exts, psf=psf, cols=cols, paths=paths, zero={(wt, 2, 1): 'zero'}, band=case['band'])
                    m = mr.NGMixMEDS(spec)
                    for i in range(3):
                        tag = 'exts %s psf %s columns %s' % (exts, psf, cols)
                        try:
                            ol = m.get_obslist(i, weight_type=wt)
                        except TypeError:
                            if paths == 'S':
                                continue        # byte paths need not be supported
                            raise
                        check_list(rec, tag, m, i, wt, ol)
                        for k in range(int(m._cat['ncutout'][i])):
                            if (wt, i, k) in spec['zero']:
                                continue
                            check_obs(rec, tag + ' get_obs', m, i, k, wt, m.get_obs(i, k, weight_type=wt))
                            if wt == 'weight':
                                check_obs(rec, tag + ' default', m, i, k, wt, m.get_obs(i, k))
                            j = m.get_ngmix_jacobian(i, k)
                            w = m.jac(i, k)
                            if not isinstance(j, ngmix.Jacobian) or any(
                                    abs(a - w[b]) > 1e-12 for a, b in ((j.row0, 'row0'), (j.col0, 'col0'), (j.dudrow, 'dudrow'),
                                                                      (j.dudcol, 'dudcol'), (j.dvdrow, 'dvdrow'), (j.dvdcol, 'dvdcol'))):
                                rec.fail('jacobian', 'get_ngmix_jacobian %d %d' % (i, k))
                            rec.trans(3)
                    if wt == 'weight':
                        for i in range(3):
                            check_list(rec, tag + ' default', m, i, wt, m.get_obslist(i))
                rec.trace()
    rec.outcome(case['band'])


def k_fault(case, rec):
    """a read error at each read of an object: required data raise, nothing is skipped or shifted"""
    mr = readers()
    for wt in WTYPES:
        spec = dict(ncutout=(1, 3), exts=EXTS, psf=True, cols=('flux_auto', 'x2', 'y2'), zero={})
        m = mr.NGMixMEDS(spec)
        m.get_obslist(1, weight_type=wt)
        total = m.nread
        for at in range(1, total + 1):
            m = mr.NGMixMEDS(spec)
            m.fault = at
            rec.trans()
            rec.eval()
            rec.trace()
            rec.state(fp('fault', wt, at))
            try:
                ol = m.get_obslist(1, weight_type=wt)
                err = None
            except Exception as e:
                err = e
            what = m.faulted
            opt = what[0] == 'cutout' and what[1] in EXTS
            if not opt:
                if not isinstance(err, ReadError):
                    rec.fail('fault', '%s: failing read of %s gives %r' % (wt, what, err if err is not None else len(ol)))
            elif err is None:
                # the extension may be missing from that cutout, nothing else may differ
                if len(ol) != 3:
                    rec.fail('fault', '%s: failing read of %s leaves %d observations' % (wt, what, len(ol)))
                for k, ob in enumerate(ol):
                    if not np.array_equal(ob.image, m.pix('image', 1, k)) or not np.array_equal(ob.weight, m.pix(wt, 1, k)):
                        rec.fail('fault', '%s: failing read of %s changes cutout %d' % (wt, what, k))
                    for e in EXTS:
                        if getattr(ob, 'has_' + e)():
                            if not np.array_equal(getattr(ob, e), m.pix(e, 1, k)):
                                rec.fail('fault', '%s: failing read of %s changes %s of cutout %d' % (wt, what, e, k))
                        elif e != what[1]:
                            rec.fail('fault', '%s: failing read of %s removes %s of cutout %d' % (wt, what, e, k))
            # afterwards the reader works
            m.fault = None
            check_list(rec, 'after a read error', m, 1, wt, m.get_obslist(1, weight_type=wt))
    for bad in ('blah', '', 'Weight', 'cseg_canonical', None, 3, 'weights', 'seg', 'image'):
        m = mr.NGMixMEDS(dict(ncutout=(2, 1), exts=EXTS, psf=True))
        mm = mr.MultiBandNGMixMEDS([m, m])
        for f in (lambda: m.get_obs(0, 1, weight_type=bad), lambda: m.get_obslist(0, weight_type=bad),
                  lambda: mm.get_mbobs(1, weight_type=bad), lambda: mm.get_mbobs_list(weight_type=bad),
                  lambda: mm.get_mbobs_list(indices=[1], weight_type=bad)):
            rec.trans()
            try:
                f()
                rec.fail('weight-type', 'weight type %r accepted' % (bad,))
            except ValueError:
                pass
            rec.state(fp('bad', bad))
    rec.outcome('fault')


def bands(mr, n, nc, zero=()):
    out = []
    for b in range(n):
        z = {(w, i, k): 'zero' for (bb, i, k) in zero if bb == b for w in WTYPES}
        out.append(mr.NGMixMEDS(dict(ncutout=nc[b], exts=EXTS[b:], psf=b != 1, cols=('number', 'flux_auto', 'x2', 'y2')[b:], zero=z, band=b)))
    return out


def check_mb(rec, tag, ms, i, wt, mb):
    if not isinstance(mb, MultiBandObsList) or len(mb) != len(ms):
        return rec.fail('bands', '%s object %d: %s with %s bands of %d' % (tag, i, type(mb), len(mb), len(ms)))
    for m, ol in zip(ms, mb):
        check_list(rec, tag + ' band %d' % m.band, m, i, wt, ol)


def k_multi(case, rec):
    mr = readers()
    nb = case['nb']
    ncs = [(2, 1, 3), (1, 0, 2), (3, 2, 1)]
    zeros = [(), [(0, 0, 1)], [(nb - 1, 2, 0), (0, 2, 2)], [(0, 1, 0)]]
    for order in itertools.permutations(range(3), nb):
        nc = [ncs[o] for o in order]
        for zero in zeros:
            ms = bands(mr, nb, nc, zero)
            mm = mr.MultiBandNGMixMEDS(ms)
            rec.trans()
            if mm.nband != nb or mm.size != 3:
                rec.fail('size', 'nband %s size %s' % (mm.nband, mm.size))
            for wt in WTYPES:
                for i in range(3):
                    check_mb(rec, 'get_mbobs', ms, i, wt, mm.get_mbobs(i, weight_type=wt))
                    if wt == 'weight':
                        check_mb(rec, 'get_mbobs default', ms, i, wt, mm.get_mbobs(i))
                full = mm.get_mbobs_list(weight_type=wt)
                if len(full) != 3:
                    rec.fail('select', 'all: %d of 3 objects' % len(full))
                for i, mb in enumerate(full):
                    check_mb(rec, 'all', ms, i, wt, mb)
            if not zero:
                for n in range(case['sel'] + 1):
                    for ind in itertools.product(range(3), repeat=n):
                        for form in (list, tuple, np.array) if n == 2 else (list,):
                            for wt in (('weight', 'cseg') if n < 3 else ('uberseg',)):
                                arg = form(ind) if form is not np.array else np.array(ind, dtype='i8')
                                got = mm.get_mbobs_list(indices=arg, weight_type=wt)
                                rec.trans()
                                if len(got) != n:
                                    rec.fail('select', 'indices %s: %d objects' % (ind, len(got)))
                                for i, mb in zip(ind, got):
                                    check_mb(rec, 'indices %s' % (ind,), ms, i, wt, mb)
                        rec.trace()
            rec.state(fp('multi', nb, order, str(zero)))
    rec.outcome(nb)


def k_hist(case, rec):
    """all histories of reads; earlier results keep their content, later ones are unaffected by edits"""
    mr = readers()
    ops = [(i, k, wt) for i, k in ((0, 0), (0, 1), (1, 0)) for wt in ('weight', 'cseg')] + [(0, None, 'uberseg'), (1, None, 'weight')]
    for seq in itertools.product(range(len(ops)), repeat=case['depth']):
        if seq[0] != case['first']:
            continue
        m = mr.NGMixMEDS(dict(ncutout=(2, 1), exts=EXTS, psf=True, cols=('flux_auto',)))
        cat = m._cat.copy()
        kept = []
        for n, s in enumerate(seq):
            i, k, wt = ops[s]
            if k is None:
                ol = m.get_obslist(i, weight_type=wt)
                check_list(rec, 'history %s' % (seq,), m, i, wt, ol)
                obs = list(ol)
            else:
                obs = [m.get_obs(i, k, weight_type=wt)]
                rec.trans()
                rec.eval()
                check_obs(rec, 'history %s' % (seq,), m, i, k, wt, obs[0])
            if n % 2 == 0:
                for o in obs:       # use it up
                    o.image = o.image * 0 - 5.0
                    o.psf.image = o.psf.image * 0 + 1.0
                    o.jacobian = ngmix.UnitJacobian(row=0, col=0)
                    o.meta['id'] = -1
                    o.set_bmask(None)
            else:
                kept += [(o, D.snap(o)) for o in obs]
        for o, s in kept:
            if D.diff(s, D.snap(o)):
                rec.fail('alias', 'history %s: an earlier observation changed' % (seq,))
        if not np.array_equal(cat, m._cat):
            rec.fail('input', 'the catalogue was modified')
        rec.trace()
    rec.outcome('hist')


KINDS = {'cat': k_cat, 'ext': k_ext, 'fault': k_fault, 'multi': k_multi, 'hist': k_hist}


def cases(tier):
    full = tier != 'quick'
    for n in (1, 2, 3):
        for f in range(4):
            yield 'cat', dict(nobj=n, first=f, maxcuts=9 if full or n < 3 else 6, allzero=7 if full else 4)
    cols = [(), ('number',), ('flux_auto',), ('x2', 'y2'), ('x2',), ('y2',), ('number', 'flux_auto', 'x2', 'y2')]
    for b in (0, 1):
        for c in cols:
            yield 'ext', dict(band=b, cols=[c])
    yield 'fault', {}
    for nb in (1, 2, 3):
        yield 'multi', dict(nb=nb, sel=3 if full or nb < 3 else 2)
    for f in range(8):
        yield 'hist', dict(depth=4 if full else 3, first=f)


def warmup():
    readers()
