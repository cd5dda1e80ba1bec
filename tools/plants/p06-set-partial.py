PROPERTY = 'C06'
NEEDS = 'a failed update of a shape, and the shape used afterwards'
BREAKS = 'a rejected set_g1g2 leaves the first component changed'
EDITS = [('ngmix/shape.py', '''        g = numpy.sqrt(g1 * g1 + g2 * g2)
        if g >= 1.0:
            raise GMixRangeError("g out of range: %.16g" % g)

        self.g1 = g1
        self.g2 = g2
        self.g = g

    def get_sheared''', '''        self.g1 = g1
        g = numpy.sqrt(self.g1 * self.g1 + g2 * g2)
        if g >= 1.0:
            raise GMixRangeError("g out of range: %.16g" % g)

        self.g2 = g2
        self.g = g

    def get_sheared''')]
DEMO = r"""
import sys
from ngmix import Shape, GMixRangeError
s = Shape(0.1, 0.2)
try:
    s.set_g1g2(0.9, 0.8)
except GMixRangeError:
    pass
print(s)
sys.exit(0 if (s.g1, s.g2) == (0.1, 0.2) else 1)
"""
