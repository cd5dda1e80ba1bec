#!/usr/bin/env python3
"""Writes properties.jsonl (kept in step with MANIFEST.json by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(obs), hook_needed=None)))

prop('C01', "Observation pixels always mirror the current image, weight and jacobian",
 "After any sequence of updates of an Observation (image, weight or jacobian setters, in-place edits inside a writeable context, toggling store_pixels or ignore_zero_weight), its pixel list equals the one a fresh Observation built from the current image, weight, jacobian and options would have: exactly the positive-weight pixels in row-major order (all pixels with ierr 0 for non-positive weight when zero weights are kept), u,v from the jacobian, area = scale squared, ierr = sqrt(weight); it is absent when pixels are not stored. "
 "Outside a writeable context no data of the observation can be modified through what it hands out. "
 "An update that raises leaves no stale pixels to be used.",
 ["histories","inputs"], "every sequence of observation updates up to a bounded depth over small images, zero/negative/mixed weights, diagonal and sheared jacobians, all four store/ignore option pairs",
 "The tests apply one setter to one random image and compare once; toggles, contexts, failing updates and their orders are never combined.",
 ["ngmix/observation.py","ngmix/pixels/pixels.py","ngmix/pixels/pixels_nb.py"],
 [("update_pixels called from each setter and __exit__","ngmix/observation.py:Observation.update_pixels"),("fill_pixels","ngmix/pixels/pixels_nb.py")],
 [("pixels","cached per-pixel records used by every fitter","Observation.pixels")],["obs.pixels","obs.image","obs.weight","obs.jacobian"])

prop('C02', "Copies of observations and containers are equal, complete and independent",
 "copy(), copy.copy and copy.deepcopy of an Observation, ObsList, MultiBandObsList, Jacobian or GMix give an object with the same data in every attribute (image, weight, bmask, ormask, noise, mfrac, jacobian, gmix, psf, meta, pixel options) that compares equal to the original. "
 "Changing either object afterwards never changes the other. "
 "Two observations (or lists of them) compare equal exactly when the same optional attributes are present and all corresponding values are equal, in either order of comparison.",
 ["inputs","histories"], "every combination of present optional attributes, every copy route, then every single mutation of either side",
 "Tests copy a fully populated object and check a few attributes; the 2^n presence combinations and the mutate-after-copy pairs are not enumerated, and equality is only exercised between objects with the same attributes.",
 ["ngmix/observation.py","ngmix/gmix/gmix.py","ngmix/jacobian/jacobian.py"],
 [("Observation.copy/__eq__","ngmix/observation.py"),("ObsList/MultiBandObsList copy/__eq__","ngmix/observation.py"),("GMix.copy/__eq__","ngmix/gmix/gmix.py"),("Jacobian.copy/__eq__","ngmix/jacobian/jacobian.py")],
 (),["copy()","=="])

prop('C03', "Observations and containers stay valid: invalid updates are rejected atomically",
 "An Observation never holds an image-like attribute whose shape differs from its image, a psf that is not an Observation, a gmix that is not a GMix or metadata that is not a dict, and ObsList, MultiBandObsList and their k-space versions never hold elements of the wrong type after append or item assignment. "
 "Every update with a wrong shape or type raises and leaves the object exactly as it was. "
 "The simple S/N sums of a list are the sums over its members, counting exactly the positive-weight pixels, and S/N is -9999 when there are none.",
 ["histories","inputs"], "every sequence of valid and invalid setter, delete, append and assignment calls up to a bounded depth",
 "Tests check that some bad inputs raise but never that the object is unchanged afterwards or that later valid operations still work.",
 ["ngmix/observation.py"],
 [("shape and type assertions in set_*","ngmix/observation.py"),("append/__setitem__ overrides","ngmix/observation.py"),("get_s2n_sums","ngmix/observation.py")],(),["setters","append","get_s2n"])

prop('C04', "A gaussian mixture always evaluates according to its current parameters",
 "After any sequence of fill, set_cen, set_flux, set_norms, rendering, likelihood evaluation, copying, shearing, rounding and convolving of a GMix or model mixture, its getters, rendered image, copies, likelihood, residuals, model S/N, aperture flux and weighted sums are those of a mixture freshly built from its current full parameters. "
 "A mixture with any component of non-positive determinant or size raises GMixRangeError on every attempt to evaluate it, never just on the first. "
 "Operations documented to return a new mixture leave their inputs unchanged.",
 ["histories","inputs"], "every operation sequence up to a bounded depth on mixtures of each kind (full with 1 to 3 gaussians, gauss, exp, dev, turb, bdf, bd, coellip, cm), including invalid components at each position",
 "Tests evaluate a mixture once after constructing it; the lazily computed normalisation makes the answer depend on earlier calls, which no test varies.",
 ["ngmix/gmix/gmix.py","ngmix/gmix/gmix_nb.py","ngmix/gmix/render_nb.py"],
 [("norm_set lazy normalisation","ngmix/gmix/gmix_nb.py:gmix_set_norms"),("invalidation on update","ngmix/gmix/gmix.py:set_flux,get_sheared,make_round")],
 [("norm_set/pnorm/drr..","lazy normalisation fields","gauss2d records")],["make_image","get_loglike","get_full_pars","copy"])

prop('C05', "Mixture moments obey the algebra of convolution, shear, models and concatenation",
 "For every model the mixture built from parameters has exactly the requested centre, shape and flux (and size, for gauss, exp, dev, turb, cm, bd, bdf up to the tabulated profile's accuracy). "
 "Convolution adds psf covariances, multiplies in the psf normalised to unit flux without moving the centre, shearing composes with the group law and preserves flux and centre, rounding gives zero ellipticity with the documented size, and concatenation appends components. "
 "Rendering equals the analytic sum of bivariate gaussians at each pixel centre (the fast exponential within its stated accuracy and cutoff), and the galsim object has the same flux, centre and covariance.",
 ["inputs","histories"], "all models and parameter grids, and all chains of algebraic operations up to a bounded depth against a moment-level reference model",
 "Tests check a few single operations with loose tolerances on random parameters; chains of operations and all model/psf pairs are not covered.",
 ["ngmix/gmix/gmix.py","ngmix/gmix/gmix_nb.py","ngmix/moments.py","ngmix/fastexp_nb.py"],
 [("fill functions","ngmix/gmix/gmix_nb.py"),("gmix_convolve_fill","ngmix/gmix/gmix_nb.py"),("get_sheared_moments","ngmix/moments.py"),("fexp","ngmix/fastexp_nb.py")],(),["get_full_pars","get_e1e2T","make_image"])

prop('C06', "Shapes stay in the unit disc and conversions and shears are mutually inverse",
 "A Shape always has |g|<1: construction or update outside that range raises GMixRangeError and leaves the object as it was. "
 "Conversions between g, e and eta are mutually inverse on the whole disc, agree between scalars and arrays, and raise exactly outside their domain. "
 "Shearing by s then by -s restores the shape, shearing by zero is the identity, rotation by theta turns the shape by twice theta, negation flips both components, and mixed chains follow the complex shear-addition law.",
 ["inputs","histories"], "all pairs over a grid covering the disc to its rim and beyond, scalar and array forms, and all chains of shear/rotate/negate/update operations to a bounded depth",
 "Tests sample a few dozen shapes well inside the disc; the rim, rejected updates and long chains are not covered.",
 ["ngmix/shape.py","ngmix/moments.py"],
 [("Shape.set_g1g2 range check","ngmix/shape.py"),("shear_reduced","ngmix/shape.py"),("e1e2_to_g1g2 etc.","ngmix/shape.py")],(),["Shape","conversion functions"])

prop('C07', "Jacobian coordinate maps are exact inverses and consistent in every convention",
 "For any non-degenerate jacobian and any sequence of set_cen and copy calls, pixel-to-sky and sky-to-pixel transforms are inverse to each other, agree between the row,col/v,u and x,y/u,v naming, between scalars and arrays, and with the equivalent galsim WCS. "
 "The determinant, scale and area follow from the four derivatives, and every constructor route (vu, uv, diagonal, unit, from galsim WCS) describing the same transformation gives equal objects. "
 "Incomplete or mixed keyword sets are rejected.",
 ["inputs","histories"], "all sign/zero patterns of derivatives, all constructor routes, points on and off the grid, and all short sequences of updates",
 "Tests use a handful of jacobians and never mix update sequences with the inverse transforms.",
 ["ngmix/jacobian/jacobian.py","ngmix/jacobian/jacobian_nb.py","ngmix/pixels/pixels_nb.py"],
 [("Jacobian._init_rowcol/_init_xy","ngmix/jacobian/jacobian.py"),("jacobian_get_vu/rowcol","ngmix/jacobian/jacobian_nb.py")],(),["Jacobian(...)","get_vu","get_rowcol","get_galsim_wcs"])

prop('C08', "Likelihood, residuals and fit models agree, whatever was evaluated before",
 "For any mixture and observations, the log likelihood is -0.5 times the sum of squared residuals over the stored pixels, is additive over epochs and bands, ignores pixels with non-positive weight and counts the used pixels; template and model S/N sums are those of the same pixels. "
 "For every fit model (simple, coellip, bd, bdf, with and without psf, prior and multiple bands and epochs), log probability and residual vector at given parameters agree with that likelihood plus the prior, each band uses its own flux parameter, and parameters outside the allowed range give -infinity / large residuals rather than an error. "
 "Evaluating any sequence of parameter vectors, valid or invalid, does not change the value at any of them.",
 ["inputs","histories"], "all band/epoch/psf/prior configurations up to 3 bands x 2 epochs, all models, and all evaluation sequences over an alphabet of valid and invalid parameter vectors to a bounded depth",
 "Tests run whole fits and check the recovered parameters to a few percent; they never compare log probability with residuals or reuse a model after an invalid evaluation.",
 ["ngmix/fitting/results.py","ngmix/gmix/gmix.py","ngmix/gmix/gmix_nb.py"],
 [("get_loglike/fill_fdiff","ngmix/gmix/gmix_nb.py"),("FitModel.calc_lnprob/calc_fdiff","ngmix/fitting/results.py"),("_fill_gmix_all/get_band_pars","ngmix/fitting/results.py")],
 [("cached convolved mixtures","reused across evaluations","FitModel")],["get_loglike","calc_lnprob","calc_fdiff"])

prop('C09', "Moment results flag every unusable quantity and report finite values otherwise",
 "For any moment sums and covariance matrix, the derived result reports each of flux, size, shape and S/N as the defining formula of the sums with first-order error propagation, with its flag zero only when value and error are finite, and each failure condition (non-positive flux, size or variance, out of range shape) sets its documented flag and the overall flag is non-zero whenever that of a part is. "
 "Deriving a result never alters the sums it was given. "
 "The gaussian-weighted and pre-psf moment fitters report sums, fluxes and errors in the same normalisation whatever flags are set.",
 ["inputs","configurations"], "every combination of sums and variances from a set including zero, negative, tiny, huge, NaN and correlated entries, for 6 and 17 moments, with and without regularisation",
 "Tests check a few good objects and two or three failures; combinations of failing entries are not enumerated.",
 ["ngmix/moments.py","ngmix/gaussmom.py","ngmix/prepsfmom.py","ngmix/util.py"],
 [("make_mom_result","ngmix/moments.py"),("get_ratio_error/get_ratio_var","ngmix/util.py"),("flags","ngmix/flags.py")],(),["make_mom_result","GaussMom.go","PGaussMom.go"])

prop('C10', "Caches never change results",
 "Results of metacalibration and of the pre-psf moment fitters are identical whatever caches are enabled and whatever was measured before: for any history of measurements of different observations, configurations, cache enabling, disabling and clearing, each measurement equals the one made in a fresh process state with caches off. "
 "Cached arrays handed out to one measurement are not altered by another.",
 ["histories","configurations"], "every history up to a bounded depth of cache operations and measurements over observations that share or differ in each part of a cache key (image content, psf, jacobian, scale, kernel, padding, interpolation)",
 "Tests check timing and one repeat of the same measurement; histories that alternate colliding keys are not explored.",
 ["ngmix/prepsfmom.py","ngmix/metacal/metacal.py"],
 [("lru caches keyed by sizes and jacobian","ngmix/prepsfmom.py"),("galsim object caches keyed by image bytes","ngmix/metacal/metacal.py")],
 [("module-level caches","shared between all measurements in a process","ngmix/prepsfmom.py, ngmix/metacal")],["turn_on_*_caching","get_all_metacal","KSigmaMom.go"])

prop('C11', "Metacal returns the requested images and leaves its inputs untouched",
 "Metacalibration returns every requested type and no other (noshear and 1p are made together and may both be present), each with the same Observation/ObsList/MultiBandObsList structure and with the same metadata and jacobian as the input, an image transformed by the named shear and psf, and a psf observation with the target psf. "
 "The input observations, the list of types and the passed psf are not modified, and the results share no image data with them or with each other. "
 "With noise fixing the weight becomes 1/(1/w+1/w_noise) of the summed image and noise, and the result depends only on the inputs and the given random state.",
 ["configurations","inputs","histories"], "all subsets of types, all psf modes, fixnoise and noise-image options, all container shapes, weights with zeros, and repeated calls",
 "Tests run the default type list on single observations; type subsets, container shapes, mutation of inputs and weight maps with zeros are not enumerated.",
 ["ngmix/metacal/metacal.py","ngmix/metacal/convenience.py"],
 [("get_all_metacal","ngmix/metacal/convenience.py"),("_doadd_single_obs / _add_noise_obs","ngmix/metacal/convenience.py"),("MetacalDilatePSF.get_all","ngmix/metacal/metacal.py")],(),["get_all_metacal"])

prop('C12', "Runners and bootstrappers follow the retry and failure protocol always",
 "For any sequence of fitter outcomes a runner calls the fitter at most ntry times, stops at the first success and returns the last attempt's result, with a new guess for each attempt. "
 "The psf runner stores the result on each psf observation, and sets its mixture exactly when the fit succeeded and has one. "
 "With failed psfs ignored, exactly the epochs whose psf fit failed are dropped and a band left empty raises BootPSFFailure; otherwise every epoch is kept. An exception of a fitter or guesser propagates, the object fit sees the remaining epochs in order and the caller's observations keep their structure; the metacal bootstrap applies the same to each metacal image.",
 ["fault_sequences","configurations"], "every assignment of success, failure, or missing result to each psf and object attempt for all container shapes up to 3 bands x 3 epochs and ntry up to 3",
 "Tests use real fitters that nearly always succeed plus one hand-made failure; the combinations of failing epochs, bands and attempts are not explored.",
 ["ngmix/runners.py","ngmix/bootstrap.py","ngmix/metacal/bootstrap.py"],
 [("run_fitter","ngmix/runners.py"),("run_psf_fitter","ngmix/runners.py"),("remove_failed_psf_obs","ngmix/bootstrap.py")],
 [("psf.meta['result']","last psf fit result","Observation.psf.meta")],["Runner.go","PSFRunner.go","Bootstrapper.go","MetacalBootstrapper.go"])

prop('C13', "The least-squares wrapper reports every minimizer outcome and respects bounds",
 "For every answer the minimizer can give (each status, singular, negative or non-finite covariance, exceptions from bad values, too few data), the wrapper returns a result whose flags are non-zero exactly when the fit is unusable with the documented flag for the cause, and whose parameters, errors and covariance are always present with the right shapes. "
 "Parameter bounds are never violated in a residual evaluation or in the result, for open, one-sided and two-sided bounds, and transforms to and from unbounded coordinates are inverse. "
 "When priors are used the covariance scaling counts only the data.",
 ["fault_sequences","inputs"], "every minimizer status x covariance kind x data count, and every bound pattern x starting point x parameter count up to 3",
 "Tests run converging fits; minimizer failures are rare and never enumerated.",
 ["ngmix/fitting/leastsqbound.py"],
 [("run_leastsq","ngmix/fitting/leastsqbound.py"),("leastsqbound/_internal2external","ngmix/fitting/leastsqbound.py"),("_test_cov","ngmix/fitting/leastsqbound.py")],(),["run_leastsq","leastsqbound"])

prop('C14', "Measurements are pure: inputs unmodified, no history or global state matters",
 "Every fitter, runner, guesser and simulation gives the same result for the same inputs and random state whatever the object was used for before, whatever other objects were used, and whatever the state of numpy's global random generator, which it neither reads nor advances. "
 "Running a measurement modifies neither the observations, nor the guess, nor the prior or psf mixtures passed in. "
 "Results already returned do not change when the same object is used again.",
 ["histories"], "every history of up to three measurements over an alphabet of fitter kinds and observations, including failing ones",
 "Tests use a new fitter per measurement and do not compare inputs before and after.",
 ["ngmix/fitting","ngmix/em/em.py","ngmix/admom/admom.py","ngmix/gaussmom.py","ngmix/prepsfmom.py","ngmix/guessers.py","ngmix/simobs.py","ngmix/gaussap.py"],
 [("results built per call","ngmix/fitting/fitters.py"),("rng arguments","ngmix/priors/random.py")],(),["*.go"])

prop('C15', "Adaptive-moment and EM fits report accurate status and mixtures",
 "An adaptive moments or EM fit reports flag 0 only if it converged within the iteration limit with a finite positive-size mixture, and then the mixture it returns is a fixed point: rerunning from it converges at once to the same values, and reported size, shape, flux, iteration count and moments agree with the mixture. "
 "A non-zero flag names the cause and asking a failed result for its mixture raises. "
 "EM conserves the image flux, honours its options for fixed flux, centre, covariance and psf convolution exactly, and the sky handling restores the original image scale.",
 ["inputs","configurations"], "all small model images over grids of shape, size, noise-free offset and iteration limits, all EM option sets and 1 to 3 gaussians, and degenerate images (flat, zero, negative, single pixel, NaN)",
 "Tests check recovery on a few noisy realisations; iteration limits, degenerate images and option combinations are not enumerated.",
 ["ngmix/admom/admom.py","ngmix/admom/admom_nb.py","ngmix/em/em.py","ngmix/em/em_nb.py"],
 [("admom loop","ngmix/admom/admom_nb.py"),("em_run and variants","ngmix/em/em_nb.py"),("EMResult/AdmomResult","ngmix/em/em.py, ngmix/admom/admom.py")],(),["AdmomFitter.go","EMFitter.go"])

prop('C16', "Guessers return well-formed guesses that the prior accepts and the fit can use",
 "Every guesser returns a parameter vector (or nrand of them) of exactly the length its model and number of bands need, finite, with |g|<1, centred on the requested size and flux within the documented scatter, and with a prior every guess is inside the prior's support. "
 "Psf-flux based guesses reflect the observation passed in this call, per band, using good bands to replace bad ones and raising PSFFluxFailure when none is good. "
 "Mixture guesses have the requested number of gaussians with positive size and can be evaluated.",
 ["inputs","configurations","histories"], "all guessers x bands 1 to 3 x nrand x with/without prior x random answers driven to the extremes of their ranges",
 "Tests draw a few random guesses with friendly values; extremes of the random draws, bad bands and reuse on several observations are not covered.",
 ["ngmix/guessers.py"],
 [("_fix_guess","ngmix/guessers.py"),("_get_psf_fluxes","ngmix/guessers.py"),("get_shape_guess","ngmix/guessers.py")],(),["guesser(obs=..., nrand=...)"])

prop('C17', "Priors are self-consistent: support, scalar and array forms, residuals, samples",
 "For every prior, scalar and array evaluations agree point by point, probability is the exponential of log probability where both exist, the peak log probability is zero, and points outside the support raise GMixRangeError or give zero probability in each form consistently. "
 "The least-squares residual squared equals minus twice the log probability inside the support. "
 "Samples have the requested size, lie in the support, and depend only on the given random state.",
 ["inputs","configurations"], "all prior classes over grids of parameters and of points including the ends of the support, just inside and just outside, and scripted random answers at the extremes",
 "Tests check a few interior points and sample statistics.",
 ["ngmix/priors/priors.py","ngmix/priors/shape.py","ngmix/priors/multivariate.py","ngmix/priors/kde.py"],
 [("get_lnprob_*/get_fdiff/sample","ngmix/priors/priors.py"),("GPriorBA","ngmix/priors/shape.py")],(),["get_lnprob_scalar","get_lnprob_array","get_fdiff","sample"])

prop('C18', "Joint priors combine their components slot by slot",
 "For every joint prior and number of bands, the log probability of a parameter vector is the sum of its components' log probabilities evaluated on that component's own slots, identically for one vector and for an array of vectors, and the residual entries are one per parameter constraint with squares summing to minus twice it. "
 "The bounds handed to the minimizer have one entry per parameter, equal to the component's bounds. "
 "Samples put each component's draws in that component's slots, so every sample lies in the prior's own support, and an out of range value in any one slot raises GMixRangeError.",
 ["inputs","configurations"], "all joint priors x 1 to 3 bands x every subset of slots at inside, edge and outside values x which components are bounded",
 "Tests check sums on random interior points for one band; slot mix-ups between identical components and bounded combinations are not enumerated.",
 ["ngmix/joint_prior.py"],
 [("fill_fdiff/get_lnprob_scalar/get_lnprob_array/sample/set_bounds","ngmix/joint_prior.py")],(),["PriorSimpleSep etc."])

prop('C19', "Result flags are disjoint bits and their text names exactly the bits set",
 "All named flags are distinct single bits with a description, and the text for any flag value lists the descriptions of exactly the bits set and nothing else, including for unknown bits of the 32-bit flag word. "
 "Every flag a measurement can return decomposes into named bits.",
 ["inputs"], "all subsets of the named flag bits, unknown bits, and every flag produced in the fault enumerations",
 "Tests check a few sums of flags.",
 ["ngmix/flags.py"],
 [("get_flags_str","ngmix/flags.py")],(),["get_flags_str"])

prop('C20', "Simulated and k-space observations correspond one to one to their inputs",
 "Simulating from a mixture or fit result gives an observation (or nested list) of the same structure, weights, jacobians and psfs (plus the noise image) whose image is the model convolved with that epoch's and band's psf plus noise of the weight map's variance from the given random state only, with zero noise where requested. "
 "Converting to k space takes the center of each jacobian as origin and gives common dimensions and spacing over all epochs and bands, a psf entry exactly when the input has one, weights half the maximum weight divided by the number of pixels, and metadata added only to the new objects. "
 "Inputs are not modified.",
 ["inputs","configurations"], "all container shapes up to 2 bands x 2 epochs, with/without psf, noise options, noise factors and weight maps with zeros",
 "Tests check only a few shapes and image sums.",
 ["ngmix/simobs.py","ngmix/observation.py"],
 [("simulate_obs","ngmix/simobs.py"),("make_kobs","ngmix/observation.py")],(),["simulate_obs","make_kobs"])

prop('C21', "Aperture and psf fluxes match direct integration and are flagged per band",
 "Gaussian-aperture fluxes of a parameter table equal, object by object and band by band, the integral of the model (sizes of 1e-4 and less taken as 1e-4) times the aperture weight, with masked or failing entries flagged and set to the default and no effect on the other entries. "
 "Psf and template flux fits return the weighted linear least-squares solution with its error for any number of epochs, scale linearly with the image, and flag zero-weight data instead of dividing by zero. "
 "The n-dimensional mixture evaluates the same with one or many points, alone or batched, in any order, refuses points of another dimension and samples from the current mixture.",
 ["inputs","configurations","histories"], "all mask patterns over small tables x bands x models, all epoch/weight patterns, and all orderings of evaluations",
 "Tests compare a single object; batches, masks and orderings are not enumerated.",
 ["ngmix/gaussap.py","ngmix/fitting/results.py","ngmix/gmix_ndim/gmix_ndim.py"],
 [("get_gaussap_flux","ngmix/gaussap.py"),("PSFFluxFitModel.go","ngmix/fitting/results.py"),("GMixND","ngmix/gmix_ndim/gmix_ndim.py")],(),["get_gaussap_flux","PSFFluxFitter.go","GMixND"])

prop('C22', "MEDS readers return each object's cutouts, masks, weights and psfs in order",
 "For every object and band of the input files the reader returns one Observation per usable cutout, in order, whose image, chosen weight type, optional masks, noise, jacobian, psf and metadata are those of that object and cutout; cutouts without positive weight are skipped without shifting the others. "
 "Unknown weight types raise. "
 "Multi-band readers return one list per file in order for all or the selected objects.",
 ["inputs","configurations","fault_sequences"], "all small catalogues (up to 3 objects x 3 cutouts), every subset of optional extensions and zero-weight cutouts, all weight types",
 "The meds package is not installed here, so the existing tests of this module do not run at all.",
 ["ngmix/medsreaders.py"],
 [("NGMixMEDS.get_obslist/get_obs","ngmix/medsreaders.py"),("MultiBandNGMixMEDS","ngmix/medsreaders.py")],(),["get_obslist","get_mbobs"])

prop('C23', "Measurements in concurrent threads do not affect each other",
 "Two measurements made at the same time in two threads, each with its own fitter, priors and random state, give exactly the results they give alone, also when both read the same observation and whatever the state of the galsim, fft and kernel caches. "
 "Turning a cache on or off in one thread while the other measures changes no result and raises nothing. "
 "Observations that are only measured are not modified at any moment another thread could see.",
 ["inputs","schedules","configurations"], "all measurements in pairs of threads, all schedules with one preemption at a line of the python code and two at function entries, all cache states",
 "Tests are single threaded; a shared scratch array or a cache entry filled in two steps shows only for particular interleavings.",
 ["ngmix/metacal/metacal.py","ngmix/prepsfmom.py","ngmix/fitting","ngmix/em/em.py","ngmix/admom/admom.py","ngmix/gaussmom.py","ngmix/guessers.py"],
 [("galsim object caches","ngmix/metacal/metacal.py"),("fft and kernel caches","ngmix/prepsfmom.py"),("results built per call","ngmix/fitting/results.py")],(),["*.go","turn_on_fft_caching","turn_on_galsim_caching"])

prop('C24', "Results follow the sky, not the pixel layout, the units or the list order",
 "Measuring the same sky through another pixel layout (flipped, rotated or transposed stamps, image and psf separately, or padded with zero-weight pixels) gives the same result. "
 "Rotating, reflecting, scaling or translating the sky coordinates, scaling the counts, splitting an observation into complementary masks and reordering epochs or bands transform every reported shape, size, flux, position, error, signal to noise and covariance exactly as the parameters they belong to. "
 "Metacal images and simulations of a transformed observation are the transformed images.",
 ["inputs","configurations","histories"], "all words of up to two (thorough: three) symmetry operations x all measurements",
 "Tests use square stamps, aligned pixel grids and one unit; mix-ups of rows and columns, of stamp centre and jacobian centre, or of pixel and sky units cancel there.",
 ["ngmix/jacobian","ngmix/observation.py","ngmix/fitting","ngmix/em","ngmix/admom","ngmix/gaussmom.py","ngmix/prepsfmom.py","ngmix/metacal/metacal.py","ngmix/simobs.py"],
 [("galsim fits and k images","ngmix/observation.py make_iilist"),("metacal target psfs","ngmix/metacal/metacal.py"),("moment sums","ngmix/gmix/gmix_nb.py, ngmix/prepsfmom.py")],(),["*.go","MetacalBootstrapper","simulate_obs"])

prop('C25', "Objects survive pickling and deep copies at any point of their history",
 "Every object that holds data or configuration (observations and lists, k-space observations, mixtures, shapes, jacobians, priors, joint priors, fitters, guessers, runners, bootstrappers, results) can be pickled and restored or deep copied at any point of its history. "
 "The restored object answers every later query and operation, including random draws and model evaluations at new parameters, exactly as the object would have without it. "
 "Operations on the restored object never show in the original, nor the other way round.",
 ["inputs","histories","configurations"], "all classes x histories of up to two operations before and one after x pickle protocols and deepcopy x measurements with transported fitter, input or result",
 "Tests pickle nothing but a few plain objects and never operate on the restored ones; multiprocessing users get stale views or shared state silently.",
 ["ngmix/observation.py","ngmix/gmix/gmix.py","ngmix/fitting/results.py","ngmix/priors","ngmix/joint_prior.py","ngmix/jacobian/jacobian.py","ngmix/runners.py","ngmix/guessers.py"],
 [("references between parts of a result","ngmix/fitting/results.py"),("random states of priors","ngmix/priors/priors.py"),("pixels kept by observations","ngmix/observation.py")],(),["pickle.dumps/loads","copy.deepcopy"])

prop('C26', "An interrupted or failing measurement leaves no trace",
 "When an exception (an interrupt, lack of memory, an error of a library) comes up inside a fit, moment measurement, guesser, runner, bootstrapper, simulation or metacalibration and reaches the caller, the inputs are what they were (apart from documented results on psf observations), "
 "as are numpy's global random generator and settings, and the same object, and all module caches, can be used again: "
 "the next measurements of the same and of other inputs are exactly those of fresh objects on fresh inputs.",
 ["fault points","histories","inputs","configurations"], "all measurements x every call they make from ngmix code x exception x cache setting x what was measured before",
 "Tests never interrupt a measurement; users do (interrupts in notebooks, timeouts, failing libraries on odd objects) and keep using the objects and caches.",
 ["ngmix/metacal/metacal.py","ngmix/prepsfmom.py","ngmix/fitting","ngmix/runners.py","ngmix/bootstrap.py","ngmix/guessers.py","ngmix/observation.py","ngmix/em/em.py","ngmix/admom/admom.py"],
 [("cache of target psfs","ngmix/metacal/metacal.py get_target_psf, _do_dilate"),("fft and kernel caches","ngmix/prepsfmom.py"),("psf results","ngmix/runners.py run_psf_fitter")],(),["*.go","get_all_metacal","MetacalDilatePSF.get_all","simulate_obs"])

prop('C27', "Compiled code never reads or writes outside its arrays",
 "Whatever is passed through the public interface (parameter, guess, residual and mask arrays of any length, images of any shape down to one pixel, psfs, paddings, apertures and kernels of any relative size, mixtures with any number of gaussians, and zero, negative, huge or non-finite values anywhere), "
 "the compiled functions read and write only inside their arrays and tables: a call either works or raises an exception, it never uses or changes foreign memory.",
 ["inputs","configurations"], "array lengths 0..15, image shapes up to 5x5 (13x13 for pre-psf moments), pairs of extreme values in every parameter, every measurement",
 "Compiled functions are not bounds checked: a wrong index silently reads or corrupts memory, tests pass until it crashes.",
 ["ngmix/gmix/gmix_nb.py","ngmix/gmix/render_nb.py","ngmix/em/em_nb.py","ngmix/admom/admom_nb.py","ngmix/pixels/pixels_nb.py","ngmix/prepsfmom.py","ngmix/gmix_ndim/gmix_ndim_nb.py","ngmix/fastexp_nb.py"],
 [("range of the fast exponential","ngmix/fastexp_nb.py and its callers"),("scratch arrays","ngmix/em/em_nb.py"),("fdiff start","ngmix/gmix/gmix.py fill_fdiff")],(),["GMix*","EMFitter*","AdmomFitter","PGaussMom","KSigmaMom","GMixND","get_gaussap_flux"])

prop('C28', "Results depend on the values passed in, not on how they are stored",
 "Whatever form the numbers passed in have (arrays in C or Fortran order, strided, reversed, unaligned fields of tables, read-only, of any byte order, precision or integer type, subclasses of arrays, and scalars of any numeric type), every constructor, setter, evaluation, conversion, fit and measurement gives the result it gives for native double precision arrays of the same values, with the same shape, "
 "and leaves the arrays passed in as they were. Lists and tuples give that result too or are refused with an exception; they never give another one silently.",
 ["inputs","configurations"], "all entry points x arguments x 20 representations, one argument, all pairs and all arguments at once",
 "Tests pass native contiguous double precision arrays; data of users come from FITS tables and images: big endian, single precision, integers, slices.",
 ["ngmix/observation.py","ngmix/gmix/gmix.py","ngmix/jacobian/jacobian.py","ngmix/shape.py","ngmix/moments.py","ngmix/priors","ngmix/joint_prior.py","ngmix/guessers.py","ngmix/fitting","ngmix/gaussap.py","ngmix/gmix_ndim"],
 [("conversion of data","ngmix/observation.py set_image, set_weight, set_noise"),("arrays given to compiled code","ngmix/jacobian/jacobian.py get_vu"),("scalar or array","ngmix/shape.py, ngmix/priors/priors.py")],(),["Observation","GMix*","Jacobian.get_vu","Fitter.go","g1g2_to_*","priors","guessers"])

prop('C29', "Bounds of priors hold for the parameter they belong to in every fit",
 "For every joint prior, any number of bands or gaussians, and any assignment of bounds (two-sided, one-sided, at zero, LMBounds, or none) to its components, the least-squares fitters evaluate the model only at parameters within the bounds of the component each parameter belongs to, and successful results lie within them; parameters without bounds are free, so a minimum within the bounds is found. "
 "Bounds are part of the fit model for every fitter, in the order of its parameters, a prior without bounds leaves all parameters free, and the bounds handed out are copies.",
 ["configurations","inputs"], "fitters x joint priors x bands x assignments of six kinds of bounds to one, two and all components",
 "No test fits with bounds that matter; an exchanged or dropped bound changes results only when the minimizer would leave the interval.",
 ["ngmix/joint_prior.py","ngmix/priors/priors.py","ngmix/fitting/results.py","ngmix/fitting/fitters.py","ngmix/fitting/galsim_fitters.py"],
 [("set_bounds","ngmix/joint_prior.py"),("has_bounds, LMBounds","ngmix/priors/priors.py"),("_set_bounds, bounds","ngmix/fitting/results.py"),("bounds given to run_leastsq","ngmix/fitting/fitters.py")],(),["Fitter.go","CoellipFitter.go","GalsimFitter.go","PriorSimpleSep","PriorBDFSep"])

prop('C30', "What is in pixels without weight does not matter",
 "Measurements made on images (real-space fits, moments, adaptive moments, EM, template and psf fluxes, likelihoods, s/n, and the guessers, runners and bootstrappers that use them) give the same result whatever numbers, nan or infinities are in the pixels whose weight is not positive, for every pattern of such pixels, in any exposure or band or the psf, and however the mask was set. "
 "For moments, fluxes, likelihoods and EM without a given sky the result is also the same whether such pixels are stored (ignore_zero_weight=False, finite contents) or not, and adding a border of them changes no fit, moment or flux (nothing but the pixels filled in by EM).",
 ["inputs","configurations"], "all measurements x single-pixel, row, column, border, half and checkerboard masks x six contents x three weights x four ways to set a mask",
 "Masked pixels of real data hold anything; tests rarely mask, and then with zeros.",
 ["ngmix/pixels","ngmix/fitting/results.py","ngmix/em/em.py","ngmix/em/em_nb.py","ngmix/admom","ngmix/gmix/gmix_nb.py","ngmix/guessers.py","ngmix/observation.py"],
 [("pixel list","ngmix/pixels/pixels_nb.py fill_pixels"),("PSFFluxFitModel.go","ngmix/fitting/results.py"),("prep_obs, fill_zero_weight_pixels","ngmix/em"),("censums, momsums","ngmix/admom/admom_nb.py")],(),["Observation.pixels","PSFFluxFitter.go","EMFitter.go","AdmomFitter.go","GaussMom.go","Fitter.go"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80, (p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
