"""G16: style notices in header values are exact."""

from checks import header_values as _v
from checks.header_values import h_notices        # noqa: F401

FUNCTIONS = _v.FUNCTIONS
BOUNDS = _v.BOUNDS
OUTSIDE = _v.OUTSIDE
ASSUMPTIONS = _v.ASSUMPTIONS


def tasks(tier):
    return _v.tasks('h_notices', tier)
