"""Imports the library under test from /repo's working tree."""
import gettext
import os
import sys
import warnings

REPO = os.environ.get('RKSV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
gettext.install('rktool', os.path.join(REPO, 'lang'))

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


# how many more cases than at first; what is below 20 is a size, not a number of cases
MORE = float(os.environ.get('VERIF_MORE', '4'))


def scale(quick, thorough):
    if THOROUGH:
        return thorough
    return quick if not isinstance(quick, int) or quick < 20 or not thorough else min(int(quick * MORE), thorough)
