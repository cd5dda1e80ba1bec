PROPERTY = 'C19'
NEEDS = 'the text of the same value asked for with two different name maps of the same length'
BREAKS = 'the text of the second map is the one of the first'
EDITS = [('ngmix/flags.py', """    if name_map is None:
        name_map = NAME_MAP
""", """    if name_map is None:
        name_map = NAME_MAP

    key = (len(name_map), repr(val))
    if key in _FLAGSTR_CACHE:
        return _FLAGSTR_CACHE[key]
"""), ('ngmix/flags.py', """    return "|".join(nstrs)""", """    _FLAGSTR_CACHE[key] = "|".join(nstrs)
    return _FLAGSTR_CACHE[key]"""), ('ngmix/flags.py', """def get_flags_str(""", """_FLAGSTR_CACHE = {}


def get_flags_str(""")]
DEMO = r"""
import sys
from ngmix.flags import get_flags_str

a = get_flags_str(1, name_map={1: 'one'})
b = get_flags_str(1, name_map={1: 'other'})
print(a, b)
sys.exit(0 if (a, b) == ('one', 'other') else 1)
"""
