"""
C21  aperture and psf fluxes match direct integration and are flagged per band
"""
import itertools
import os
import contextlib
import io
import shutil
import tempfile
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix.gaussap import get_gaussap_flux
from ngmix.fitting import PSFFluxFitter, GalsimPSFFluxFitter
from ngmix.gmix.gmix import GMixCM
from ngmix.gmix_ndim import GMixND
from mc.core import fp
from mc import data as D
from mc import gmref as R

LEVEL = 'model_checking'
RULE = (
    'Aperture fluxes: every table of up to three objects drawn from a palette of good, faint, '
    'negative, clipped, out-of-range and non-finite rows x every mask x model x bands x '
    'aperture x input form, entry by entry against the closed form and a fine-grid integral.  '
    'Psf and template fluxes: every list of up to three epochs drawn from a palette of jacobian, '
    'shape, weight and psf classes x mode x normalisation x data class, all epoch orders and '
    'scalings, and all histories of fits with one fitter, against the weighted least-squares '
    'solution.  N-dimensional mixture: all histories of evaluations, samples, loads and '
    'replacements up to a depth, all batches of points from a palette, against the density.'
)
ASSUMPTIONS = [
    'weights are not negative and templates have non-zero sum',
    'sizes below 1e-4 (also negative) are taken as 1e-4 in aperture fluxes',
    'flux errors are scaled by the residual chi squared per degree of freedom',
]
CHUNK = 2
CASE_TIMEOUT = 300


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')
    if a.shape != b.shape:
        return False
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all='ignore'):
        return bool(np.all(same | (np.abs(a - b) <= atol + rtol * np.abs(b))))


# ---------------------------------------------------------------------------
# aperture fluxes

HEAD = {                    # cen1 cen2 g1 g2 T [fracdev for bdf], fracdev/TdByTe for cm
    'good': ([0.1, -0.2, 0.1, -0.05, 0.8], 0.4, 0.7),
    'big': ([0.0, 0.3, -0.4, 0.5, 30.0], 0.9, 2.0),
    'round': ([0.0, 0.0, 0.0, 0.0, 2.0], 0.0, 1.0),
    'clip': ([0.0, 0.0, 0.2, 0.0, -3.0], 1.0, 1.0),
    'zero-T': ([5.0, 0.0, 0.0, 0.1, 0.0], 0.5, 0.5),
    'shape': ([0.0, 0.0, 0.8, 0.7, 2.0], 0.5, 1.0),
    'shape1': ([0.0, 0.0, 1.0, 0.0, 2.0], 0.5, 1.0),
    'nan-g': ([0.0, 0.0, 0.1, np.nan, 2.0], 0.5, 1.0),
    'nan-T': ([0.0, 0.0, 0.1, 0.1, np.nan], 0.5, 1.0),
    'inf-T': ([0.0, 0.0, 0.1, 0.1, np.inf], 0.5, 1.0),
    'nan-all': ([np.nan] * 5, np.nan, np.nan),
}
BADROWS = ('shape', 'shape1', 'nan-g', 'nan-T', 'inf-T', 'nan-all')
FLUX = {'good': [10.0, 3.0, 0.5], 'big': [-4.0, 0.0, 1e5], 'round': [1.0, np.nan, 2.0], 'clip': [2.0, 5.0, np.inf],
        'zero-T': [7.0, 1e-8, 3.0]}
FWHM = (1.0, 2.5, 300.0)


def row(name, model, nband):
    h, fd, _ = HEAD[name]
    f = FLUX.get(name, [2.0, 3.0, 4.0])[:nband]
    return list(h) + ([fd] if model == 'bdf' else []) + list(f)


REFC = {}


def refap(name, model, band, fwhm):
    """flux and whether the entry is good"""
    key = (name, model, band, fwhm)
    if key not in REFC:
        h, fd, td = HEAD[name]
        flux = FLUX.get(name, [2.0, 3.0, 4.0])[band]
        if name in BADROWS or not np.isfinite(flux):
            REFC[key] = (np.nan, False)
        else:
            h = list(h)
            h[4] = max(h[4], 1e-4)
            if model == 'cm':
                gm = GMixCM(fd, td, h + [flux])
            else:
                gm = ngmix.GMixModel(h + ([fd] if model == 'bdf' else []) + [flux], model)
            REFC[key] = (R.apflux(gm.get_full_pars().reshape(-1, 6), fwhm / 2.3548200450309493), True)
    return REFC[key]


def k_gap(case, rec):
    model, nband, pal, n = case['model'], case['nband'], case['palette'], case['n']
    for names in itertools.product(pal, repeat=n):
        if n == 3 and names[0] != case['first']:
            continue
        pars = np.array([row(x, model, nband) for x in names])
        kw = {}
        if model == 'cm':
            kw = dict(fracdev=np.array([HEAD[x][1] for x in names]), TdByTe=np.array([HEAD[x][2] for x in names]))
        for mask in [None] + list(itertools.product((True, False), repeat=n)):
            for fwhm in case['fwhm']:
                for form in FORMS if (n <= 2 and fwhm == FWHM[1]) else ('arr',):
                    p, k, m = pars, dict(kw), mask
                    if form == 'list':
                        p = pars.tolist()
                        k = {a: b.tolist() for a, b in kw.items()}
                    elif form == 'fortran':
                        p = np.asfortranarray(pars)
                        m = None if mask is None else np.array(mask)
                    elif form == 'stride':
                        big = np.full((2 * n, pars.shape[1] + 3), 99.0)
                        big[::2, 1:1 + pars.shape[1]] = pars
                        p = big[::2, 1:1 + pars.shape[1]]
                        m = None if mask is None else np.array(mask, dtype='i4')
                    elif form == 'big-endian':
                        p = pars.astype('>f8')
                        k = {a: b.astype('>f8') for a, b in kw.items()}
                    elif form == 'one':
                        if n > 1:
                            continue
                        p = pars[0]
                        k = {a: b[0] for a, b in kw.items()}
                        m = None if mask is None else mask[0]
                    p0 = np.array(p, copy=True)
                    k0 = {a: np.array(b) for a, b in k.items()}
                    rec.trans(n * nband)
                    rec.eval()
                    try:
                        with np.errstate(all='ignore'):
                            fl, flags = get_gaussap_flux(p, model, fwhm, mask=m, verbose=False, **k)
                    except Exception as err:
                        rec.fail('raise', '%s %s mask %s %s: %r' % (model, names, mask, form, err))
                        continue
                    if fl.shape != (n, nband) or flags.shape != (n, nband):
                        rec.fail('shape', '%s %s: %s %s' % (model, names, fl.shape, flags.shape))
                        continue
                    for i, b in itertools.product(range(n), range(nband)):
                        want, ok = refap(names[i], model, b, fwhm)
                        if mask is not None and not mask[i]:
                            want, wf = np.nan, ngmix.flags.NO_ATTEMPT
                        else:
                            wf = 0 if ok else ngmix.flags.GMIX_RANGE_ERROR
                        if flags[i, b] != wf:
                            rec.fail('flags', '%s %s mask %s %s object %d band %d: flags %d, expected %d' % (
                                model, names, mask, form, i, b, flags[i, b], wf))
                        elif not close(fl[i, b], want, 1e-8):
                            rec.fail('flux', '%s %s mask %s %s object %d band %d: flux %s, expected %s' % (
                                model, names, mask, form, i, b, fl[i, b], want))
                    if not np.array_equal(p0, np.asarray(p), equal_nan=True) or any(
                            not np.array_equal(k0[a], np.asarray(k[a]), equal_nan=True) for a in k):
                        rec.fail('input', 'input table modified')
                    rec.state(fp('gap', model, nband, names, mask, fwhm, form))
        rec.trace()
    rec.outcome((model, n))


FORMS = ('arr', 'list', 'fortran', 'stride', 'big-endian', 'one')


def k_gapdirect(case, rec):
    """the closed form is the integral of model times aperture centred on the object"""
    model = case['model']
    for name in ('good', 'round', 'big'):
        h, fd, td = HEAD[name]
        for fwhm in (1.5, 4.0):
            pars = [list(h) + ([fd] if model == 'bdf' else []) + [5.0]]
            kw = dict(fracdev=[fd], TdByTe=[td]) if model == 'cm' else {}
            fl, flags = get_gaussap_flux(pars, model, fwhm, verbose=False, **kw)
            gm = GMixCM(fd, td, pars[0]) if model == 'cm' else ngmix.GMixModel(pars[0], model)
            s = fwhm / 2.3548200450309493
            # polar grid, logarithmic in radius, about the object's centre
            lr = np.linspace(np.log(1e-4), np.log(6 * s), 700)
            r = np.exp(lr)[:, None]
            th = (np.arange(96) * (2 * np.pi / 96))[None, :]
            v, u = r * np.sin(th), r * np.cos(th)
            tot = 0.0
            for p, rr, cc, irr, irc, icc in gm.get_full_pars().reshape(-1, 6):
                det = irr * icc - irc ** 2
                chi2 = (icc * v * v + irr * u * u - 2 * irc * u * v) / det
                dens = p / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2)
                tot += (dens * np.exp(-r ** 2 / 2 / s ** 2) * r * r).sum() * (lr[1] - lr[0]) * 2 * np.pi / 96
            rec.trans()
            rec.eval()
            rec.trace()
            rec.state(fp('direct', model, name, fwhm))
            if flags[0, 0] != 0 or abs(fl[0, 0] - tot) > 2e-3 * 5.0:
                rec.fail('flux', '%s %s fwhm %g: %s, integral %g' % (model, name, fwhm, fl, tot))
    rec.outcome(model)


def k_gapmisc(case, rec):
    """empty tables, mask and table of different length, unusual weights"""
    for model in ('gauss', 'exp', 'dev', 'turb', 'bdf', 'cm'):
        for nband in (1, 2, 4):
            ncol = (6 if model == 'bdf' else 5) + nband
            kw = dict(fracdev=[], TdByTe=[]) if model == 'cm' else {}
            rec.trans()
            rec.eval()
            rec.trace()
            try:
                fl, flags = get_gaussap_flux(np.zeros((0, ncol)), model, 2.0, verbose=False, **kw)
                if fl.shape != (0, nband) or flags.shape != (0, nband):
                    rec.fail('empty', '%s: %s' % (model, fl.shape))
            except Exception as e:
                rec.fail('empty', '%s, %d bands: empty table raises %r' % (model, nband, e))
            rec.state(fp('empty', model, nband))
            t = np.array([row('good', model, min(nband, 3))] * 3)
            kw = dict(fracdev=[.1] * 3, TdByTe=[1.] * 3) if model == 'cm' else {}
            for m in ([True], [True] * 2, [False] * 4):
                rec.trans()
                try:
                    get_gaussap_flux(t, model, 2.0, mask=m, verbose=False, **kw)
                    rec.fail('mask', 'mask of length %d accepted for 3 objects' % len(m))
                except (AssertionError, ValueError):
                    pass
    for fd, td in ((None, [1.0] * 3), ([0.1] * 2, [1.0] * 3), ([0.1] * 3, [1.0] * 4), ([0.1] * 3, None)):
        rec.trans()
        try:
            get_gaussap_flux(np.array([row('good', 'cm', 1)] * 3), 'cm', 2.0, fracdev=fd, TdByTe=td, verbose=False)
            rec.fail('cm', 'fracdev %s TdByTe %s accepted for three objects' % (fd, td))
        except (AssertionError, ValueError, TypeError):
            pass
    rec.outcome('misc')


# ---------------------------------------------------------------------------
# psf and template fluxes

JAC = [(3.1, 2.8, 1.0, 0.0, 0.0, 1.0), (2.5, 3.2, 0.3, 0.05, -0.02, 0.25), (3.0, 1.5, 0.02, 0.4, -0.35, 0.03)]
SH = [(7, 7), (6, 8), (7, 5)]
EPOCHS = {
    # name: jac, shape, weight, psf scale, kwargs
    'a': (0, 0, 'flat', 0, {}), 'b': (1, 1, 'vary', 1, {}), 'c': (2, 2, 'zeros', 2, {}),
    'd': (1, 0, 'zeros', 0, dict(ignore_zero_weight=False)), 'e': (0, 2, 'one', 1, {}),
    'z': (1, 1, 'allzero', 0, dict(ignore_zero_weight=False)), 'n': (0, 0, 'zeros', 1, dict(store_pixels=False)),
}
PSFG = [[1.0, 0.0, 0.0, 0.9, 0.0, 0.9], [3.0, 0.1, -0.05, 0.2, 0.03, 0.25, 1.0, 0.1, -0.05, 0.5, 0.0, 0.6], [0.2, 0.0, 0.0, 0.06, 0.0, 0.09]]


def epoch(name, k, kind, mode, scale=1.0):
    """kind: exact, noise, both, zero; mode psf-gmix, obs-gmix, psf-template, obs-template"""
    ji, si, wk, pi, kw = EPOCHS[name]
    j = JAC[ji]
    sh = SH[si]
    jac = ngmix.Jacobian(row=j[0], col=j[1], dvdrow=j[2], dvdcol=j[3], dudrow=j[4], dudcol=j[5])
    w = np.full(sh, 2.0 + k)
    if wk != 'flat':
        w = 1.0 + np.abs(D.noise(sh, 300 + k))
    if wk == 'zeros':
        w[0, 1:3] = 0
        w[3, 2] = 0
    elif wk == 'allzero':
        w[:] = 0
    elif wk == 'one':
        w[:] = 0
        w[2, 2] = 1.7
    gm = ngmix.GMix(pars=PSFG[pi])
    if 'template' in mode:
        t = np.abs(D.noise(sh, 330 + k)) + 0.05
    else:
        t = gm.make_image(sh, jacobian=jac)
    im = np.zeros(sh)
    if kind in ('exact', 'both'):
        im = im + 4.0 * t
    if kind in ('noise', 'both'):
        im = im + 0.3 * D.noise(sh, 360 + k)
    psf = Observation(np.ones((3, 3)), jacobian=ngmix.UnitJacobian(row=1, col=1), gmix=gm if mode == 'psf-gmix' else None)
    ob = Observation(im * scale, weight=w, jacobian=jac, psf=psf if mode.startswith('psf') else None,
                     gmix=gm if mode == 'obs-gmix' else None, **kw)
    if mode == 'psf-template':
        ob.psf.template = t
    elif mode == 'obs-template':
        ob.template = t
    return ob


def template_of(ob, mode, normalize):
    if mode == 'psf-gmix':
        g = ob.psf.gmix
    elif mode == 'obs-gmix':
        g = ob.gmix
    else:
        t = (ob.psf if mode == 'psf-template' else ob).template
        return t / t.sum() if (mode == 'obs-template' or normalize) else t
    f = g.get_flux() if (mode == 'obs-gmix' or normalize) else 1.0
    return g.make_image(ob.image.shape, jacobian=ob.jacobian) / f


def lsq(obs, temps):
    """the weighted linear least-squares solution"""
    a = b = 0.0
    n = 0
    for o, t in zip(obs, temps):
        a += (o.weight * t * o.image).sum()
        b += (o.weight * t * t).sum()
        n += int((o.weight > 0).sum())
    if b == 0:
        return None, None, None, n
    f = a / b
    chi2 = sum((o.weight * (o.image - f * t) ** 2).sum() for o, t in zip(obs, temps))
    scale = sum((o.weight * o.image ** 2).sum() for o in obs)
    return f, chi2, (b, scale), n


def judge(rec, tag, res, obs, temps, rtol=1e-9, ftol=1e-12):
    f, chi2, bs, n = lsq(obs, temps)
    for k in ('flux', 'flux_err', 'flags', 'chi2per', 'dof'):
        if k not in res:
            return rec.fail('keys', '%s: no %s in the result' % (tag, k))
    if f is None or n == 1:
        if res['flags'] == 0:
            rec.fail('flags', '%s: no information but flags 0' % tag)
        return
    if res['flags'] != 0:
        return rec.fail('flags', '%s: flags %s for good data' % (tag, res['flags']))
    b, scale = bs
    atol = ftol * np.sqrt(scale / b)
    if not close(res['flux'], f, rtol, atol):
        rec.fail('flux', '%s: flux %r, least squares %r' % (tag, res['flux'], f))
    err = np.sqrt(chi2 / b / (n - 1))
    if not close(res['flux_err'], err, max(rtol, 1e-8), np.sqrt(ftol) * 1e-1 * np.sqrt(scale / b / (n - 1))):
        rec.fail('error', '%s: error %r, expected %r' % (tag, res['flux_err'], err))
    if res['dof'] != n - 1 or not close(res['chi2per'], chi2 / (n - 1), max(rtol, 1e-8), ftol * scale / (n - 1)):
        rec.fail('chi2', '%s: chi2 per dof %r over %r, expected %r over %d' % (tag, res['chi2per'], res['dof'], chi2 / (n - 1), n - 1))


def mklist(names, kind, mode, scale=1.0, aslist=True):
    ol = ObsList()
    for k, x in enumerate(names):
        ol.append(epoch(x, k, kind, mode, scale))
    return ol if aslist else ol[0]


MODES = ('psf-gmix', 'obs-gmix', 'psf-template', 'obs-template')


def k_psf(case, rec):
    mode = case['mode']
    for names in itertools.product(*case['names']):
        for kind, norm in itertools.product(('exact', 'noise', 'both', 'zero'), (True, False)):
            for aslist in (True, False) if len(names) == 1 else (True,):
                ob = mklist(names, kind, mode, aslist=aslist)
                obs = [ob] if isinstance(ob, Observation) else list(ob)
                temps = [template_of(o, mode, norm) for o in obs]
                before = D.snap(ob)
                tbefore = [np.array(getattr(x, 'template', 0.0)) for o in obs
                           for x in (o, o.psf if o.has_psf() else o)]
                fitter = PSFFluxFitter(do_psf=mode.startswith('psf'), normalize_psf=norm)
                tag = '%s %s %s normalize %s' % (mode, names, kind, norm)
                rec.trans()
                rec.eval()
                try:
                    with np.errstate(divide='raise', invalid='raise'):
                        res = fitter.go(ob)
                except Exception as e:
                    rec.fail('raise', '%s: %r' % (tag, e))
                    continue
                judge(rec, tag, res, obs, temps)
                if D.diff(before, D.snap(ob)) or any(
                        not np.array_equal(a, b) for a, b in zip(tbefore, [
                            np.array(getattr(x, 'template', 0.0)) for o in obs
                            for x in (o, o.psf if o.has_psf() else o)])):
                    rec.fail('input', '%s: the input was modified' % tag)
                rec.state(fp('psf', tag, aslist))
                rec.outcome(int(res['flags'] != 0))
                if kind == 'both' and res['flags'] == 0:
                    # linear in the image
                    for s in (-3.0, 1e-3, 1e4):
                        r2 = fitter.go(mklist(names, kind, mode, scale=s, aslist=aslist))
                        rec.trans()
                        if not close(r2['flux'], s * res['flux'], 1e-9) or not close(r2['flux_err'], abs(s) * res['flux_err'], 1e-7):
                            rec.fail('linear', '%s: image times %g gives flux %r error %r, was %r %r' % (
                                tag, s, r2['flux'], r2['flux_err'], res['flux'], res['flux_err']))
                    # any order of the epochs
                    for perm in itertools.permutations(range(len(names))):
                        if perm == tuple(range(len(names))):
                            continue
                        ol = ObsList()
                        for i in perm:
                            ol.append(ob[i])
                        r2 = fitter.go(ol)
                        rec.trans()
                        if r2['flags'] or not close(r2['flux'], res['flux'], 1e-10) or not close(r2['flux_err'], res['flux_err'], 1e-8):
                            rec.fail('order', '%s: order %s changes the result' % (tag, perm))
                    # the same result of the same result object again
                    old = (res['flux'], res['flux_err'], res['flags'], res['chi2per'])
                    res.go()
                    if not close(res['flux'], old[0], 1e-12) or not close(res['flux_err'], old[1], 1e-9) or res['flags'] != old[2]:
                        rec.fail('again', '%s: calling go again changes the result' % tag)
        rec.trace()


def k_psfhist(case, rec):
    """one fitter, all histories of fits; every result stays as it was"""
    mode = case['mode']
    lists = [mklist(n, k, mode) for n, k in ((('a', 'b'), 'both'), (('z',), 'both'), (('c', 'd', 'a'), 'noise'), (('b',), 'exact'))]
    for norm in (True, False):
        for seq in itertools.product(range(len(lists)), repeat=case['depth']):
            fitter = PSFFluxFitter(do_psf=mode.startswith('psf'), normalize_psf=norm)
            past = []
            for i in seq:
                res = fitter.go(lists[i])
                rec.trans()
                past.append((res, dict(res), i))
            for res, vals, i in past:
                if any(not close(res[k], v) for k, v in vals.items() if k != 'model'):
                    rec.fail('history', '%s: an earlier result changed' % (seq,))
                judge(rec, 'history %s %s' % (mode, seq), res, list(lists[i]), [template_of(o, mode, norm) for o in lists[i]])
            rec.eval()
            rec.trace()
            rec.state(fp('psfhist', mode, norm, seq))
    rec.outcome(mode)


def k_psferr(case, rec):
    ob = epoch('a', 0, 'both', 'psf-gmix')
    ol = mklist(('a', 'b'), 'both', 'psf-gmix')
    none = Observation(ob.image, weight=ob.weight, jacobian=ob.jacobian, psf=Observation(np.ones((3, 3)), jacobian=ob.jacobian))
    nopsf = Observation(ob.image, weight=ob.weight, jacobian=ob.jacobian)
    part = ObsList()
    part.append(ob)
    part.append(none)
    todo = [(True, none), (False, ob), (False, nopsf), (True, nopsf), (True, None), (True, [ob]), (True, 3), (True, part), (False, ol)]
    for psf, o in todo:
        rec.trans()
        rec.eval()
        rec.trace()
        rec.state(fp('err', psf, repr(type(o))))
        try:
            res = PSFFluxFitter(do_psf=psf).go(o)
        except Exception as e:
            rec.outcome(type(e).__name__)
            continue
        rec.fail('error', 'do_psf %s without templates (%s) gives %s' % (psf, type(o), dict(res)))


def gsobs(name, k, kind, model, method, scale=1.0, pscale=0.25):
    """observation with a psf image; returns it and the reference template"""
    import galsim
    ji, si, wk, pi, kw = EPOCHS[name]
    sh = {0: (15, 15), 1: (12, 17), 2: (9, 9)}[si]
    a, b, c, d = [(0.25, 0, 0, 0.25), (0.27, 0.03, -0.02, 0.25), (0.02, 0.28, -0.26, 0.01)][ji]
    jac = ngmix.Jacobian(row=(sh[0] - 1) / 2.0 + 0.3 * k, col=(sh[1] - 1) / 2.0 - 0.2, dvdrow=a, dvdcol=b, dudrow=c, dudcol=d)
    pj = ngmix.Jacobian(row=8.0 + 0.2 * k, col=8.1, dvdrow=pscale, dvdcol=0, dudrow=0, dudcol=pscale)
    pim = ngmix.GMixModel([0, 0, 0.03, -0.02 * k, 0.5 + 0.2 * k, 2.5 + k], 'gauss').make_image((17, 17), jacobian=pj)
    w = np.full(sh, 2.0 + k)
    if wk != 'flat':
        w = 1.0 + np.abs(D.noise(sh, 300 + k))
    if wk == 'zeros':
        w[0, 1:3] = 0
    elif wk == 'allzero':
        w[:] = 0
    psf = Observation(pim, jacobian=pj)
    nim = pim / pim.sum()
    cc = (np.array((17, 17)) - 1) / 2.0
    r, c_ = pj.get_cen()
    ii = galsim.InterpolatedImage(galsim.Image(nim, wcs=pj.get_galsim_wcs()), offset=(c_ - cc[1], r - cc[0]), x_interpolant='lanczos15')
    o = ii if model is None else galsim.Convolve(model.withFlux(1.0), ii)
    r, c_ = jac.get_cen()
    t = o.drawImage(nx=sh[1], ny=sh[0], wcs=jac.get_galsim_wcs(), dtype=float, method=method,
                    offset=(c_ - (sh[1] - 1) / 2.0, r - (sh[0] - 1) / 2.0)).array
    im = np.zeros(sh)
    if kind in ('exact', 'both'):
        im = im + 4.0 * t
    if kind in ('noise', 'both'):
        im = im + 0.02 * D.noise(sh, 360 + k)
    return Observation(im * scale, weight=w, jacobian=jac, psf=psf, **kw), t


def k_galsim(case, rec):
    import galsim
    model = {'none': None, 'exp': galsim.Exponential(half_light_radius=0.5, flux=7.0),
             'gauss': galsim.Gaussian(fwhm=0.4).shear(g1=0.2, g2=0.1), 'big': galsim.Exponential(half_light_radius=4.0)}[case['model']]
    for names in itertools.product(*case['names']):
        for kind, method in itertools.product(('exact', 'both', 'noise'), ('auto', 'no_pixel')):
            pairs = [gsobs(x, k, kind, model, method) for k, x in enumerate(names)]
            ol = ObsList()
            for o, _ in pairs:
                ol.append(o)
            arg = ol if len(ol) > 1 else ol[0]
            before = D.snap(arg)
            fitter = GalsimPSFFluxFitter(model=model, draw_method=method)
            rec.trans()
            rec.eval()
            tag = 'galsim %s %s %s %s' % (case['model'], names, kind, method)
            try:
                with np.errstate(divide='raise'):
                    res = fitter.go(arg)
            except Exception as e:
                rec.fail('raise', '%s: %r' % (tag, e))
                continue
            judge(rec, tag, res, list(ol), [t for _, t in pairs], rtol=2e-5, ftol=1e-8)
            if D.diff(before, D.snap(arg)):
                rec.fail('input', '%s: the input was modified' % tag)
            rec.state(fp(tag))
            if kind == 'both' and res['flags'] == 0:
                for s in (-2.0, 1e3):
                    o2 = ObsList()
                    for k, x in enumerate(names):
                        o2.append(gsobs(x, k, kind, model, method, s)[0])
                    r2 = fitter.go(o2)
                    rec.trans()
                    if not close(r2['flux'], s * res['flux'], 1e-6) or not close(r2['flux_err'], abs(s) * res['flux_err'], 1e-4):
                        rec.fail('linear', '%s: not linear in the image' % tag)
        rec.trace()
    rec.outcome(case['model'])


# ---------------------------------------------------------------------------
# n-dimensional mixture

def ndmix(ndim, ng, k=0):
    w = 1.0 + np.arange(ng) + 0.3 * k
    w = w / w.sum()
    m = np.array([[(i + 1) * (-1) ** d * 0.7 + 0.1 * d + k for d in range(ndim)] for i in range(ng)])
    c = []
    for i in range(ng):
        a = np.eye(ndim) * (0.5 + 0.3 * i + 0.2 * k)
        for p in range(ndim):
            for q in range(p):
                a[p, q] = a[q, p] = 0.1 * (p + q + i)
        c.append(a)
    return w, m, np.array(c)


def ndref(mix, x, comp=None):
    """log density at one point"""
    w, m, c = mix
    lp = []
    for i in range(len(w)):
        d = np.asarray(x, dtype='f8') - m[i]
        lp.append(np.log(w[i]) - 0.5 * (d @ np.linalg.solve(c[i], d)) - 0.5 * np.linalg.slogdet(2 * np.pi * c[i])[1])
    if comp is not None:
        return lp[comp]
    return np.logaddexp.reduce(lp)


def points(ndim):
    return [np.zeros(ndim), np.arange(ndim) * 0.5 - 0.7, np.full(ndim, 3.0), np.full(ndim, -1e3), np.full(ndim, 2e5)]


def k_nd(case, rec):
    """every batch of points, alone or together, components, forms"""
    ndim, ng = case['ndim'], case['ng']
    mix = ndmix(ndim, ng)
    src = [a.copy() for a in mix]
    if ndim == 1 and case['flat']:
        g = GMixND(weights=src[0], means=src[1][:, 0].copy(), covars=src[2][:, 0, 0].copy())
    else:
        g = GMixND(weights=src[0], means=src[1], covars=src[2])
    for a in src:
        a[...] = -77.0          # later changes of the input have no effect
    pts = points(ndim)
    old = []
    for comp in [None] + list(range(ng)):
        ref = [ndref(mix, p, comp) for p in pts]
        kw = {} if comp is None else dict(component=comp)
        for n in range(1, case['n'] + 1):
            for idx in itertools.product(range(len(pts)), repeat=n):
                batch = np.array([pts[i] for i in idx])
                want = np.array([ref[i] for i in idx])
                for form in ('arr', 'list', 'stride', 'f', 'i'):
                    if form != 'arr' and n != 2:
                        continue
                    b = batch
                    wv = want
                    if form == 'list':
                        b = batch.tolist()
                    elif form == 'stride':
                        big = np.full((2 * n, ndim + 2), 55.0)
                        big[::2, 1:1 + ndim] = batch
                        b = big[::2, 1:1 + ndim]
                    elif form == 'f':
                        b = np.asfortranarray(batch)
                    elif form == 'i':
                        b = np.round(batch).astype('i8')
                        wv = np.array([ndref(mix, x, comp) for x in b])
                    if ndim == 1 and n == 3:
                        b = batch[:, 0]
                    b0 = np.array(b, copy=True)
                    rec.trans(2)
                    lp = g.get_lnprob_array(b, **kw)
                    p = g.get_prob_array(b, **kw)
                    if not close(lp, wv, 1e-10, 1e-10):
                        rec.fail('nd', '%dd %d gaussians component %s points %s %s: lnprob %s, expected %s' % (ndim, ng, comp, idx, form, lp, wv))
                    if not close(p, np.exp(wv), 1e-9 * max(1.0, np.abs(wv[wv > -700]).max() if (wv > -700).any() else 1), 1e-300):
                        rec.fail('nd', '%dd %d gaussians component %s points %s %s: prob %s, expected %s' % (ndim, ng, comp, idx, form, p, np.exp(wv)))
                    if not np.array_equal(b0, b):
                        rec.fail('input', 'points modified')
                    old.append((lp, lp.copy()))
                rec.eval()
                rec.state(fp('nd', ndim, ng, comp, idx))
        for i, x in enumerate(pts):
            for y in (x, x.tolist(), x[0] if ndim == 1 else x):
                rec.trans(2)
                lp, p = g.get_lnprob_scalar(y, **kw), g.get_prob_scalar(y, **kw)
                if not close(lp, ref[i], 1e-10, 1e-10) or not close(p, np.exp(ref[i]), 1e-9 * max(1, abs(ref[i])), 1e-300):
                    rec.fail('nd', '%dd component %s point %d: scalar %s %s expected %s' % (ndim, comp, i, lp, p, ref[i]))
        rec.trace()
    for a, b in old:
        if not np.array_equal(a, b):
            rec.fail('alias', 'an earlier result changed')
            break
    for bad in ([0.0] * (ndim + 1), np.zeros((2, ndim + 1)), np.zeros((2, ndim - 1)), np.zeros(ndim - 1)):
        for f in (g.get_lnprob_scalar, g.get_prob_scalar, g.get_lnprob_array, g.get_prob_array):
            a = np.array(bad)
            if 'array' in f.__name__ and a.ndim == 1 and (ndim == 1):
                continue        # a list of points
            if 'scalar' in f.__name__ and a.ndim == 2:
                continue
            if a.size == 0:
                continue
            rec.trans()
            try:
                r = f(bad)
                rec.fail('dims', '%s of points of shape %s gives %s for a %d-dimensional mixture' % (f.__name__, a.shape, r, ndim))
            except (ValueError, RuntimeError, AssertionError, IndexError):
                pass
    rec.outcome((ndim, ng))


def refsample(rng, mix, n):
    w, m, c = mix
    k = rng.multinomial(n, w)
    return np.vstack([rng.multivariate_normal(m[i], c[i], int(k[i])) for i in range(len(w))])


NDOPS = ('A', 'B', 'l', 'p', 'L', 'P', 'c', 's', 'S', 'F', 'fit')


def k_ndhist(case, rec):
    """histories of set, load, fit, evaluate and sample on one object"""
    tmp = tempfile.mkdtemp(prefix='c21')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            _ndhist(case, rec, tmp)
    finally:
        shutil.rmtree(tmp)


def _ndhist(case, rec, tmp):
    ndim = case['ndim']
    A, B, F = ndmix(ndim, 2), ndmix(ndim, 3, 1), ndmix(ndim, 1, 2)
    fn = os.path.join(tmp, 'f.fits')
    GMixND(*F).save_mixture(fn)
    pts = points(ndim)[:3]
    r0 = np.random.RandomState(4)
    data = np.vstack([r0.normal(size=(60, ndim)) * 0.1, r0.normal(size=(40, ndim)) * 0.2 + 50.0])
    fitted = []
    for d in (data[:60], data[60:]):
        fitted.append((len(d) / 100.0, d.mean(axis=0), np.atleast_2d(np.cov(d.T, bias=True)) + 1e-6 * np.eye(ndim)))
    for seq in itertools.product(NDOPS, repeat=case['depth']):
        if seq[0] != case['first']:
            continue
        if sum(s == 'fit' for s in seq) > 1:
            continue
        rng, ref = np.random.RandomState(8), np.random.RandomState(8)
        g = GMixND(*A, rng=rng)
        other = GMixND(*B, rng=np.random.RandomState(9))
        cur = A
        for s in seq:
            rec.trans()
            if s in 'ABF':
                cur = {'A': A, 'B': B, 'F': F}[s]
                if s == 'F':
                    g.load_mixture(fn)
                else:
                    g.set_mixture(*cur)
            elif s == 'fit':
                g.fit(data, 2)
                ref.set_state(rng.get_state())
                cur = (g.weights.copy(), g.means.copy(), g.covars.copy())
                if not g.converged:
                    rec.fail('fit', '%s: not converged' % (seq,))
                o = np.argsort(cur[1][:, 0])
                for i, (w, m, c) in zip(o, fitted):
                    if not (close(cur[0][i], w, 1e-6) and close(cur[1][i], m, 1e-6, 1e-6) and close(cur[2][i], c, 1e-4, 1e-5)):
                        rec.fail('fit', '%s: components %s' % (seq, cur))
            elif s == 'l':
                for p in pts:
                    if not close(g.get_lnprob_scalar(p), ndref(cur, p), 1e-9, 1e-9):
                        rec.fail('nd', '%s: lnprob %s of %s expected %s' % (seq, g.get_lnprob_scalar(p), p, ndref(cur, p)))
            elif s == 'p':
                for p in pts:
                    if not close(g.get_prob_scalar(p), np.exp(ndref(cur, p)), 1e-6, 1e-300):
                        rec.fail('nd', '%s: prob' % (seq,))
            elif s == 'L':
                if not close(g.get_lnprob_array(np.array(pts)), [ndref(cur, p) for p in pts], 1e-9, 1e-9):
                    rec.fail('nd', '%s: lnprob array' % (seq,))
            elif s == 'P':
                if not close(g.get_prob_array(np.array(pts)), np.exp([ndref(cur, p) for p in pts]), 1e-6, 1e-300):
                    rec.fail('nd', '%s: prob array' % (seq,))
            elif s == 'c':
                if not close(g.get_lnprob_scalar(pts[1], component=0), ndref(cur, pts[1], 0), 1e-9, 1e-9):
                    rec.fail('nd', '%s: component' % (seq,))
                other.get_lnprob_array(np.array(pts))
            elif s in 'sS':
                n = None if s == 's' else 5
                x = g.sample(n) if n else g.sample()
                want = refsample(ref, cur, n or 1)
                if ndim == 1:
                    want = want[:, 0]
                if n is None:
                    want = want[0]
                if not close(x, want, 1e-9, 1e-9):
                    rec.fail('sample', '%s: sample %s, from the current mixture and state %s' % (seq, x, want))
                    break
            if not (close(g.weights, cur[0]) and close(g.means, cur[1]) and close(g.covars, cur[2])):
                rec.fail('state', '%s: mixture parameters' % (seq,))
        rec.eval()
        rec.trace()
        rec.state(fp('ndh', ndim, seq))
    w, m, c = A
    for kw in (dict(weights=w), dict(means=m), dict(covars=c), dict(weights=w, means=m), dict(means=m, covars=c), dict(weights=w, covars=c)):
        try:
            GMixND(**kw)
            rec.fail('partial', 'only %s accepted' % sorted(kw))
        except RuntimeError:
            pass
    # file round trip
    for ng in (1, 2, 3):
        a = ndmix(ndim, ng, 1)
        GMixND(*a).save_mixture(fn + 'x')
        h = GMixND(file=fn + 'x')
        rec.trans()
        if not (close(h.weights, a[0]) and close(h.means, a[1]) and close(h.covars, a[2])):
            rec.fail('file', 'round trip of %d gaussians in %d dimensions' % (ng, ndim))
        elif not close(h.get_lnprob_array(np.array(pts)), [ndref(a, p) for p in pts], 1e-10, 1e-10):
            rec.fail('file', 'values after a round trip')
    rec.outcome(ndim)


KINDS = {'gap': k_gap, 'gapdirect': k_gapdirect, 'gapmisc': k_gapmisc, 'psf': k_psf, 'psfhist': k_psfhist, 'psferr': k_psferr,
         'galsim': k_galsim, 'nd': k_nd, 'ndhist': k_ndhist}


def cases(tier):
    full = tier != 'quick'
    models = ('gauss', 'exp', 'dev', 'turb', 'bdf', 'cm')
    allrows = list(HEAD)
    few = ['good', 'big', 'clip', 'shape', 'nan-T']
    yield 'gapmisc', {}
    yield 'psferr', {}
    for m in models:
        yield 'gapdirect', dict(model=m)
        for nb in (1, 2, 3):
            yield 'gap', dict(model=m, nband=nb, palette=allrows, n=1, fwhm=FWHM)
            yield 'gap', dict(model=m, nband=nb, palette=allrows if full or nb == 3 and m in ('exp', 'cm', 'bdf') else few, n=2, fwhm=FWHM if full else FWHM[1:2])
            if nb == 2 or full:
                pal = allrows if full else ['good', 'clip', 'nan-T'] if m not in ('cm', 'bdf') else few
                for f in pal:
                    yield 'gap', dict(model=m, nband=nb, palette=pal, n=3, first=f, fwhm=FWHM[1:2])
    E = list(EPOCHS)
    for mode in MODES:
        for e in E:
            yield 'psf', dict(mode=mode, names=[[e]])
            yield 'psf', dict(mode=mode, names=[[e], E])
            if full:
                for f in E:
                    yield 'psf', dict(mode=mode, names=[[e], [f], E])
            else:
                yield 'psf', dict(mode=mode, names=[[e], ['b', 'z'], ['c', 'n']])
        yield 'psfhist', dict(mode=mode, depth=4 if full else 3)
    G = ['a', 'b', 'c', 'd', 'z', 'n']
    for m in ('none', 'exp', 'gauss', 'big'):
        for e in G:
            yield 'galsim', dict(model=m, names=[[e]])
            if full:
                yield 'galsim', dict(model=m, names=[[e], G])
        if not full:
            yield 'galsim', dict(model=m, names=[['a', 'z'], ['b', 'c']])
        yield 'galsim', dict(model=m, names=[['a', 'c'], ['b'], ['d']])
    for nd in (1, 2, 3):
        for ng in (1, 2, 3):
            for flat in (False, True) if nd == 1 else (False,):
                yield 'nd', dict(ndim=nd, ng=ng, n=4 if full else 3, flat=flat)
    for nd in (1, 2):
        for f in NDOPS:
            yield 'ndhist', dict(ndim=nd, depth=4 if full else 3, first=f)


def warmup():
    import galsim, sklearn.mixture, fitsio  # noqa
    with np.errstate(all='ignore'):
        get_gaussap_flux([row('good', 'exp', 1)], 'exp', 2.0, verbose=False)
        get_gaussap_flux([row('good', 'cm', 1)], 'cm', 2.0, fracdev=[.1], TdByTe=[1.], verbose=False)
    g = GMixND(*ndmix(2, 2))
    g.get_lnprob_scalar([0., 0.])
    g.get_lnprob_scalar([0., 0.], component=0)
    g.get_prob_scalar([0., 0.])
