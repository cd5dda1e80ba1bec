PROPERTY = 'C23'
NEEDS = 'two threads taking weighted sums, one interrupted between clearing the shared record and copying it'
BREAKS = 'the sums of another thread are added to those of this measurement'
EDITS = [('ngmix/gmix/gmix.py', """            resarray = np.zeros(1, dtype=dt)
            res = resarray[0]
""", """            resarray = self._sums_scratch.setdefault(dt, np.zeros(1, dtype=dt))
            resarray[:] = np.zeros(1, dtype=dt)
            res = resarray[0]
            scratch = True
        else:
            scratch = False
"""), ('ngmix/gmix/gmix.py', """            gmix_nb.get_weighted_sums(wt_gm, obs.pixels, res, maxrad)

        return res
""", """            gmix_nb.get_weighted_sums(wt_gm, obs.pixels, res, maxrad)

        if scratch:
            res = resarray.copy()[0]

        return res
"""), ('ngmix/gmix/gmix.py', """    def get_weighted_sums(self, obs, maxrad""", """    # records to accumulate sums, by data type
    _sums_scratch = {}

    def get_weighted_sums(self, obs, maxrad""")]
DEMO = r"""
import sys
import threading
import numpy as np
import ngmix

# a second measurement runs, to its end, in another thread whenever this one
# reaches a line of the package
rng = np.random.RandomState(3)
jac = ngmix.DiagonalJacobian(row=7, col=7)
gm = ngmix.GMixModel([0., 0., 0.1, 0., 8., 1.], 'gauss').make_image((15, 15), jacobian=jac)
obs1 = ngmix.Observation(gm, jacobian=jac)
obs2 = ngmix.Observation(10 * gm.T.copy(), jacobian=jac)


def measure(obs):
    r = ngmix.gaussmom.GaussMom(fwhm=4.0).go(obs)
    return np.array([r['flux'], r['T'], r['e1'], r['e2']])


def other():
    out.append(measure(obs2))


alone = measure(obs1), measure(obs2)
out = []
bad = 0


def tracer(frame, event, arg):
    if '/ngmix/' not in frame.f_code.co_filename:
        return None
    if event == 'line':
        sys.settrace(None)
        t = threading.Thread(target=other)
        t.start()
        t.join()
        sys.settrace(tracer)
    return tracer


sys.settrace(tracer)
got = measure(obs1)
sys.settrace(None)
print(got, alone[0], len(out))
ok = np.array_equal(got, alone[0]) and len(out) > 0 and all(np.array_equal(o, alone[1]) for o in out)
sys.exit(0 if ok else 1)
"""
