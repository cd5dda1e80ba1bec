#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property, start of the commit subject, what failed
FIXED = [
 ('C01', 'do not keep stale pixels', 'an update that raised because no weight was positive left the previous pixel list in place'),
 ('C02', 'Observation equality when only', 'observations compared equal although only one side had an optional attribute, or raised for different shapes'),
 ('C02', 'GMix equality for different', 'comparing mixtures with different numbers of gaussians raised or compared the first gaussians only'),
 ('C02', 'copies of model mixtures keep', 'copies of model mixtures lost changes made after filling (set_cen, set_flux, ...); also seen by C04'),
 ('C04', 'a failed GMix fill leaves', 'a fill that raised left the mixture half filled; also seen by C02'),
 ('C04', 'a mixture with an invalid gaussian', 'an invalid mixture raised only on the first evaluation'),
 ('C04', 'make_round sets the determinants', 'make_round left stale determinants'),
 ('C03', 'a rejected psf or gmix', 'set_psf/set_gmix with a wrong type deleted the previous value before raising'),
 ('C06', 'a rejected update leaves the Shape', 'a rejected set_g1g2 changed the shape'),
 ('C07', 'a rejected set_cen leaves', 'a rejected set_cen changed part of the jacobian'),
 ('C08', 'number of prior slots in the residuals', 'one prior slot too many was counted for simple models, so the covariance scaling dropped the first data pixel; also seen by C13'),
 ('C08', 'spergel and moffat fit models', 'spergel and moffat fit models evaluated a negative size instead of rejecting it'),
 ('C09', 'error of a ratio with zero', 'get_ratio_var was NaN for a zero numerator, so an exactly round object was flagged with NONPOS_SHAPE_VAR'),
 ('C09', 'GaussMom results are in flux', 'flagged GaussMom results, and MF, M00 and their errors always, were off by the pixel area'),
 ('C09', 'higher order moments in failed', 'sums_err had 6 entries for 17 failed moments; regularize_mom_shapes raised for 17 moments'),
 ('C10', 'metacal psf can be requested again', 'after drawing the target psf failed once, every later request for it on the same object raised TypeError (an intermediate was left under the same cache key)'),
 ('C11', 'metacal with a fitted psf does not', "psf='fitgauss' set gmix and meta['result'] of the psf of the caller's observation"),
 ('C11', 'metacal noshear and 1p', "the psf images of the noshear and 1p observations were the same array for psf='dilate'"),
 ('C13', 'errors are set in the result when', 'results of fits whose function was not finite had no pars_err'),
 ('C13', 'flag fits with fewer data than', 'fewer data than parameters with zero residuals was reported with flags 0'),
 ('C13', 'covariance of bounded fits for scipy', 'with bounds the covariance and errors were those of other parameters (permutation read as one based)'),
 ('C13', 'rounding does not move parameters', 'residuals were evaluated outside the bounds by rounding, e.g. lower bound 0.1 reached'),
 ('C14', 'psf flux guessers do not reuse', 'TPSFFluxGuesser and relatives returned guesses from the psf fluxes of an observation changed or freed since (cache keyed by id)'),
 ('C14', 'adaptive moments do not modify the guess', 'AdmomFitter.go overwrote the GMix guess of the caller'),
 ('C14', 'make_kobs does not add to the meta', 'make_kobs (and so GalsimFitter) added realspace_gsimage, scale and scratch images to the meta of the input'),
 ('C14', 'galsim fits do not add to the meta', 'GalsimFitter added kmodel, ierr, scratch to the meta of k space observations sent by the caller'),
 ('C15', 'adaptive moments keep the cause of a failure', 'a failure (e.g. non-positive flux) in the last allowed iteration was reported as having reached the maximum number of iterations'),
 ('C16', 'psf mixture guesses are valid', 'GMixPSFGuesser with 3-5 gaussians drew the off-diagonal moment from +-0.01 absolute: at pixel scale 0.05 about two of three guesses have a non-positive determinant'),
 ('C16', 'BDGuesser sets fracdev', 'BDGuesser overwrote logTratio (slot 5) with a fracdev guess and left fracdev to the prior'),
 ('C17', 'FlatPrior.get_lnprob_array', 'FlatPrior.get_lnprob_array returned a scalar'),
 ('C17', 'CenPrior.get_prob_array', 'CenPrior.get_prob_array raised TypeError for arrays'),
 ('C17', 'TruncatedGaussian includes', 'TruncatedGaussian.get_lnprob_array returned -inf at minval and maxval, where get_lnprob_scalar is finite'),
 ('C18', 'the BD and BDF priors can be used with a tuple', 'PriorBDSep/PriorBDFSep raised TypeError for a tuple of flux priors'),
 ('C18', 'PriorCoellipSame has one bound', 'PriorCoellipSame.bounds held lists and the wrong number of entries'),
 ('C18', 'PriorCoellipSame samples one T', 'PriorCoellipSame.sample put the sum of two T samples in the first T slot'),
 ('C18', 'PriorCoellipSame.get_lnprob_array', 'PriorCoellipSame.get_lnprob_array read the second T as flux and ignored the rest'),
 ('C17', 'GPriorBA samples from the new', 'GPriorBA.sample1d/sample2d after set_sigma or set_pars used the maximum of the old distribution: wider distributions were clipped'),
 ('C17', 'GPriorBA can be sampled for sigma of one', 'GPriorBA(sigma >= 1): the maximum was found to be zero and all samples accepted (uniform in |g|); superseded by the next'),
 ('C17', 'GPriorBA knows its maximum', 'GPriorBA.sample1d raised RuntimeError for some random states when sigma < 0.006'),
 ('C01', 'pixels with nan weight are ignored', 'fill_pixels wrote past the end of the pixel list when a weight was nan (counted as unused, stored as used)'),
 ('C19', 'the text of flags names the highest bit', 'get_flags_str left out bit 31 of the 32-bit flag word'),
 ('C20', 'simulate_obs works for observations without positive weight', 'simulate_obs raised for observations made with ignore_zero_weight/store_pixels so that they have no positive weight'),
 ('C21', 'gaussian aperture fluxes of objects with non-finite', 'get_gaussap_flux gave the full flux for a nan shape or size, and nan for a nan flux, with flags zero'),
 ('C21', 'gaussian aperture fluxes can be made for a table without', 'get_gaussap_flux raised for an empty table'),
 ('C21', 'GMixND samples from the current mixture', 'GMixND.sample after a second set_mixture/load_mixture drew from the first mixture'),
 ('C21', 'GMixND log probability far from', 'GMixND.get_lnprob was -inf far from the mixture where the density underflows'),
 ('C21', 'GMixND does not read past the end', 'GMixND read past the end of points with too few dimensions'),
 ('C21', 'psf flux errors do not count pixels with zero', 'PSFFluxFitter raised or counted zero-weight pixels in the degrees of freedom for observations made with store_pixels=False'),
 ('C21', 'chi squared and error of galsim psf fluxes', 'GalsimPSFFluxFitter computed chi2 and the flux error from a model of another flux than the best fit when the template does not fit on the stamp'),
 ('C24', 'k-space observations have the center', 'galsim fits measured the position from the centre of the stamp instead of the jacobian centre, and epochs with different centres were not aligned'),
 ('C25', 'pickled or copied fit results evaluate', 'calc_fdiff of a pickled or deep copied fit result returned the residuals of the parameters evaluated before the copy'),
 ('C13', 'leastsqbound answers improper', 'leastsqbound raised IndexError (uninitialised fjac/ipvt) for input the minimizer refuses, when bounds are given'),
 ('C17', 'the fits of priors accept array-likes', 'LogNormal.fit and the fit of shape priors raised for lists, which the documentation allows'),
 ('C11', 'MetacalFitGaussPSF raises BootPSFFailure', 'the fitgauss target raised LinAlgError when the fitted psf mixture has no size (e.g. PSFs fit with point mixtures)'),
 ('C08', 'every observation is fit with its own psf', 'FitModel decided by the first observation of the first band whether psf mixtures are used: epochs with psf were fit without, or AttributeError'),
 ('C27', 'mixtures without gaussians, and negative', 'GMix with no gaussians and fill_fdiff with negative start read and wrote outside of their arrays'),
 ('C28', 'conversions between eta and other shapes', "g1g2_to_eta1eta2 and the other conversions with eta, given lists, converted the first entry only or failed; big endian or strided arrays of these gave values of single entries"),
 ('C28', 'jacobians transform arrays of any byte order', "Jacobian.get_vu and get_rowcol raised for arrays that are not of native byte order or precision"),
 ('C28', 'leastsqbound starts at the guess', "leastsqbound with bounds truncated the transformed guess to integers when the guess is an array of integers, so the fit started elsewhere or outside the bounds"),
 ('C29', 'LMBounds can be used in joint priors', "a joint prior holding LMBounds raised AttributeError in get_lnprob_scalar, so bounds without a prior could not be used in a fit"),
 ('C30', 'moments skip stored pixels without weight', "GaussMom, weighted sums and AdmomFitter raised ZeroDivisionError with ignore_zero_weight=False when pixels had no weight"),
 ('C30', 'what is in pixels without weight is not used', "a nan or large number in a pixel without weight made psf fluxes nan or wrong (image*weight, negative weights counted), set the sky of EM, the guess of the flux and the flux of the admom image"),
]
KNOWN = [
 dict(id='K01', property='C11', status='known', sig='types-modified', case=dict(psf='gauss', types=['noshear']),
      what="get_all_metacal appends '1p' to the caller's list of types when it holds noshear but not 1p; "
           "not repaired because test_metacal_types_smoke asserts len(obs_dict) == len(types) with '1p' in "
           "obs_dict after asking for ['noshear'], which is only true if the list is modified"),
]
for ier, txt in ((5, 'no attempt'), (6, 'center shifted too far'), (7, 'flux <= 0'), (8, 'T <= 0')):
    KNOWN.append(dict(
        id='K%02d' % (ier - 3), property='C13', status='known', sig='status-bit-of-other-cause', case=dict(ier=ier),
        what="run_leastsq reports minimizer status %d with the flag 2**%d, whose name and text (%r) are those of "
             "another cause; not repaired: it needs new flag constants and changes values users may test for" % (
                 ier, ier - 5, txt)))
for i, op in enumerate(('rot90', 'flipv')):
    KNOWN.append(dict(
        id='K%02d' % (6 + i), property='C24', status='known', sig='gauss-target-size',
        case=dict(m=['mcal', 'gauss', False], base='full', words=[[['sky', op]]], part='size', tol=2e-4),
        what="the size of the metacal gauss target psf depends on the orientation of the psf on the sky (%s), because the "
             "k grid in _get_gauss_target_psf is half a pixel off; not repaired: with the right grid the target is "
             "another one and test_metacal_bootstrap_gaussmom_response, which asserts a recorded response, fails" % op))
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()]
out = []
for i, (p, s, w) in enumerate(FIXED):
    h = [a for a, b in log if b.startswith('fix: ' + s)]
    assert len(h) == 1, (s, h)
    out.append(dict(id='F%02d' % (i + 1), property=p, status='fixed', commit=h[0],
                    what='fixed: property=%s %s %s' % (p, h[0], w)))
out += KNOWN
json.dump(dict(findings=out), open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
used = set(o.get('commit') for o in out)
print(len(out), 'unlisted:', [b for a, b in log if b.startswith('fix:') and a not in used and 'the 4 and 5 gaussian psf' not in b and 'the size of the gaussian target' not in b])   # these were reverted
