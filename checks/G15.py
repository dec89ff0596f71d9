"""G15: what header values mean."""

from checks import header_values as _v
from checks.header_values import h_value        # noqa: F401

FUNCTIONS = _v.FUNCTIONS
BOUNDS = _v.BOUNDS
OUTSIDE = _v.OUTSIDE
ASSUMPTIONS = _v.ASSUMPTIONS


def tasks(tier):
    return _v.tasks('h_value', tier)
