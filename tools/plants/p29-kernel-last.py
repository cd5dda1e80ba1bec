PROPERTY = 'C23'
NEEDS = 'two threads measuring with kernels of different sizes, one interrupted between the two halves of the entry'
BREAKS = 'moments are measured with the kernel of the measurement in the other thread'
EDITS = [('ngmix/prepsfmom.py', """        return _gauss_kernels_impl(
            dim,
            kernel_size,
            dvdrow, dvdcol, dudrow, dudcol,
            fwhm_smooth,
        )


@functools""", """        # the kernel of the last call is often the one needed again
        key = (dim, kernel_size, dvdrow, dvdcol, dudrow, dudcol, fwhm_smooth)
        if _LAST_GAUSS.get('key') != key:
            _LAST_GAUSS['kernels'] = _gauss_kernels_impl(
                dim,
                kernel_size,
                dvdrow, dvdcol, dudrow, dudcol,
                fwhm_smooth,
            )
            _LAST_GAUSS['key'] = key
        return _LAST_GAUSS['kernels']


_LAST_GAUSS = {}


@functools""")]
DEMO = r"""
import sys
import threading
import numpy as np
import ngmix

# a second measurement runs, to its end, in another thread whenever this one
# reaches a line of the package
jac = ngmix.DiagonalJacobian(row=15, col=15)
gm = ngmix.GMixModel([0., 0., 0.1, 0., 8., 1.], 'gauss').make_image((31, 31), jacobian=jac)
obs = ngmix.Observation(gm, jacobian=jac)


def measure(fwhm):
    r = ngmix.prepsfmom.PGaussMom(fwhm=fwhm).go(obs, no_psf=True)
    return np.array([r['flux'], r['T'], r['e1'], r['e2']])


def other():
    out.append(measure(5.0))


alone = measure(4.0), measure(5.0)
out = []


def tracer(frame, event, arg):
    if '/ngmix/' not in frame.f_code.co_filename:
        return None
    if event == 'line':
        sys.settrace(None)
        t = threading.Thread(target=other)
        t.start()
        t.join()
        sys.settrace(tracer)
    return tracer


sys.settrace(tracer)
got = measure(4.0)
sys.settrace(None)
print(got, alone[0], len(out))
ok = np.array_equal(got, alone[0]) and len(out) > 0 and all(np.array_equal(o, alone[1]) for o in out)
sys.exit(0 if ok else 1)
"""
