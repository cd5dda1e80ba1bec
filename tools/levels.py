#!/usr/bin/env python3
"""Writes levels.json: technique and note per property, used by make_manifest."""
import json, os
M = 'model_checking'
L = {
'C01': ("explicit-state BFS over operation histories of the real object against a reference model",
  "Exhaustive to the stated depth over the stated operation alphabet and roots; states merged only if every attribute of the object is equal. Trusts the 60-line reference model and float tolerance 1e-12."),
'C02': ("exhaustive enumeration of attribute presence combinations, copy routes and single mutations on the real objects",
  "All combinations of present optional attributes x copy route x mutation; equality over all ordered pairs of a family of variants. Bounded to small images and one level of lists in lists."),
'C03': ("explicit-state BFS over valid and invalid update histories of the real objects against a reference model",
  "Exhaustive to the stated depth; atomicity demanded for wrong shapes and types. S/N sums recomputed independently."),
'C04': ("explicit-state BFS over operation histories of the real mixtures against a reference model built fresh from the full parameters",
  "Exhaustive to the stated depth; merge key contains the lazily set normalisation fields, so evaluated and not evaluated mixtures are distinct states."),
'C05': ("exhaustive parameter grids and all chains of algebraic operations up to a bounded depth against a moment-level reference model",
  "Long double reference; tolerances follow the documented accuracy of the tabulated profiles and the fast exponential."),
'C06': ("exhaustive grid of the disc plus explicit-state BFS over histories of the real Shape against a complex number model",
  "Grid includes the last floats below the rim; tolerance follows the conditioning there."),
'C07': ("exhaustive enumeration of constructor routes and keyword subsets plus BFS over set_cen/copy histories of the real Jacobian",
  "All keyword subsets of bounded size and all constructor routes over a matrix of transformations, compared with plain 2x2 algebra and galsim."),
'C08': ("explicit-state BFS over evaluation histories of the real fit models against an independent likelihood reference",
  "All sequences of valid and invalid parameter vectors up to the depth over all model x layout x prior combinations; likelihood recomputed with numpy from the observation."),
'C09': ("exhaustive enumeration of sign classes of sums and covariances and of fitter configurations, each executed on the real code against the defining formulae",
  "Complete product of sign classes; fitters compared with direct numpy sums (discrete Fourier sums written out for the pre-psf fitters)."),
'C10': ("exhaustive exploration of measurement, cache on/off/clear, mutation and injected failure histories on the real code, each result compared with the cache-free first measurement",
  "All ordered pairs of measurements differing in one ingredient under each cache setting, all histories to the stated depth; a failure injected into every drawing call of one metacal object."),
'C11': ("exhaustive enumeration of type subsets, psf kinds, container structures, noise options and scripted psf fit outcomes on the real code",
  "Complete product; images compared with galsim drawings of the true profile (1.5e-3 of peak), containers element by element, noise part by linearity."),
'C12': ("exhaustive exploration of the real runners and bootstrappers against a scripted fitter/guesser environment (all outcome and fault sequences within bounds)",
  "All outcome words per attempt, all outcome assignments over all small band/epoch structures, all bootstrap histories, faults at every metacal image; plus the real fitters with every subset of psfs made unusable."),
'C13': ("exhaustive exploration of the real least-squares wrapper against a scripted minimizer (every status, covariance and residual class) and an injected fault at every evaluation, with a bounds monitor",
  "Complete products of minimizer answers, all scripted internal coordinates for all bound pairs, all fault positions of a real minimization, all evaluation budgets of the real fitters."),
'C14': ("exhaustive exploration of input/mutation histories and of ordered pairs of all measurement objects of a registry, each result compared with a fresh object on fresh inputs",
  "All histories to the stated depth over small input alphabets incl. in-place changes, all ordered pairs on shared observations; inputs, priors, earlier results and the global generator are monitored at every step. Objects must be given their generators."),
'C15': ("explicit-state exploration of reference state machines of both algorithms over enumerated images, guesses and options; every prefix of every trace replayed on the real code by limiting its iterations",
  "Complete product of image class, jacobian, weights, guess, tolerances, fixed-centre, psf, sky handling and fitter; values compared to 2e-5, runs within rounding of a threshold skipped. Weight images come from GMix.make_image, itself decided by C05."),
'C16': ("exhaustive exploration of the real guessers against a scripted random state (all words over the ends and middle of the first draws), with the prior's support and the documented ranges as monitor",
  "All words to the stated length for all guessers, bands, nrand and five prior classes (accepting, partly, not at all); all good/bad band patterns and observation histories for psf flux guessers; each draw of the mixture guesses at its ends. Later draws are pseudo-random."),
'C17': ("exhaustive enumeration of class x parameters x points against reference densities, and exploration of the real samplers against a scripted random state (all words over the ends of the draws; complete grids of the first draws; all histories to a depth)",
  "Grids contain the ends of the support and the neighbouring floats; the distribution of samples is decided by the answers accepted in the first round over a complete grid of draws (mean and width to a few percent). KDE only for size and determinism."),
'C18': ("exhaustive enumeration of joint prior x bands x assignments of component kinds to slots x moved or out of range slots, and of sample/evaluation histories with a separate random state per component, against an explicit slot table applied to the components",
  "All assignments for up to two slots (four in the thorough tier), constants with one slot different beyond; all subsets of bounded and of shared components; samples equal slot by slot to the component's own draws. Components themselves are decided by C17."),
'C19': ("exhaustive enumeration of flag values (all subsets of the named bits, all values with up to three bits of the 32-bit word, all integer types) and of the product of image, weight, option and scripted minimizer classes for every measurement class",
  "The text is compared with the set of bits; every flags entry found anywhere in a result must be made of named bits."),
'C20': ("exhaustive enumeration of container shapes, psf/noise/weight/jacobian classes, option combinations and histories of simulations and k-space conversions on the real code, with the inputs monitored",
  "Images compared with the rendered convolved mixture plus the noise drawn by an equal random state, element by element; k images with galsim drawings; all unusable input kinds."),
'C21': ("exhaustive enumeration of tables, masks, epoch lists, batches and histories drawn from small palettes on the real code against closed forms and direct sums",
  "Rows of the palette cover good, clipped, out of range and non-finite objects; fluxes compared with weighted least squares; mixtures with the n-dimensional density."),
'C22': ("exhaustive enumeration of small catalogues, optional extension subsets, zero-weight and read-failure patterns, selections and read histories served by an in-memory stand-in of the MEDS file class to the real readers",
  "Every pixel names its object, cutout, extension and band, so any mix-up shows. The meds package is not installed: the stand-in is the documented interface only."),
'C23': ("stateless exploration of thread interleavings of the real code: two real threads under a controlled scheduler, every schedule with one preemption at a line and two at function entries of the python code, against the measurement alone",
  "Compiled functions do not release the interpreter lock and are atomic; preemption inside galsim, scipy and numpy is not explored. First visits of each line only (two in the thorough tier)."),
'C24': ("exhaustive enumeration of words over an alphabet of symmetry operations applied to real observations; every measurement of the real code on every image reached is compared with the transformed result of the untouched image",
  "Words of two operations (three in the thorough tier), one base scene per kind of measurement."),
'C25': ("exhaustive enumeration of histories of real objects with a pickle or deep copy inserted at every point, on the original and on the copy, against an untransported replica",
  "Restored in the same process; protocols 2 and 5 (all routes in the thorough tier); histories of two operations before and one after."),
'C26': ("exhaustive fault injection on the real code: an exception in place of every call that a measurement makes from ngmix python code, then continuation compared with fresh objects",
  "Every call location x first and last occurrences; not inside compiled functions, numpy, scipy, galsim or clean-up code. Fault before/after an earlier measurement, caches on and off."),
'C27': ("exhaustive enumeration of array lengths, image shapes, extreme values and measurements on the real code with bounds-checked compiled functions",
  "numba's bounds checking is the monitor (NUMBA_BOUNDSCHECK=1, its working is asserted first); accesses inside numpy, scipy and galsim are not monitored."),
'C28': ("exhaustive enumeration of entry point x argument x representation (one, two and all arguments) on the real code, against the result for native arrays",
  "Finite list of entry points and values; single precision numbers may lower the precision of results, data of observations may not."),
'C29': ("exhaustive enumeration of fitter x joint prior x assignment of kinds of bounds, each run with the real minimizer and a monitor on every evaluation",
  "Guesses within the bounds; whether the minimum is found is not judged for models with degenerate parameters (bd, three gaussians) when the minimizer gives up."),
'C30': ("exhaustive enumeration of masks x contents of unused pixels x weights x ways to set a mask x measurements on the real code, against the result for zeros in these pixels, for pixels not stored, and without a border",
  "Real-space measurements only (Fourier-space ones use all pixels); pixels that are stored hold finite numbers."),
}
here = os.path.dirname(os.path.abspath(__file__))
json.dump({k: dict(technique=t, level=M, note=n) for k, (t, n) in L.items()},
          open(os.path.join(here, 'levels.json'), 'w'), indent=1)
