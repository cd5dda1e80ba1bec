PROPERTY = 'C02'
NEEDS = 'two mixtures that differ only in the sign of the off-diagonal moment'
BREAKS = 'mixtures (and observations holding them) with opposite e2 compare equal'
EDITS = [('ngmix/gmix/gmix.py', "for n in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):", "for n in ('p', 'row', 'col', 'irr', 'icc', 'det'):")]
DEMO = r"""
import sys
import ngmix
a = ngmix.GMixModel([0.0, 0.0, 0.1, 0.2, 4.0, 1.0], 'gauss')
b = ngmix.GMixModel([0.0, 0.0, 0.1, -0.2, 4.0, 1.0], 'gauss')
bad = a == b
print('different mixtures compare equal' if bad else 'ok')
sys.exit(1 if bad else 0)
"""
