PROPERTY = 'C17'
NEEDS = 'Bounded1D wrapping a distribution most of whose samples are rejected, more than one sample requested'
BREAKS = 'samples drawn in a later round overwrite earlier ones and the rest stay zero, outside the range'
EDITS = [('ngmix/priors/priors.py', """            if w.size > 0:
                values[ngood:ngood + w.size] = tmp[w]

                ngood += w.size
                nleft -= w.size

        if size is None:
            values = values[0]
        return values


# keep this so that the API stays the same
""", """            if w.size > 0:
                values[ngood:ngood + w.size] = tmp[w]

                nleft -= w.size
                ngood = w.size

        if size is None:
            values = values[0]
        return values


# keep this so that the API stays the same
""")]
DEMO = r"""
import sys
import numpy as np
import ngmix
from ngmix import priors

rng = np.random.RandomState(8)
p = priors.Bounded1D(priors.Normal(0.0, 1.0, rng=rng), (1.0, 2.0))
v = p.sample(50)
print(v.min(), v.max())
sys.exit(0 if v.min() > 1.0 and v.max() < 2.0 else 1)
"""
