"""G12: headers of RFC 7232 to RFC 7235."""

from checks import grammar_common as _c
from checks.grammar_common import h_free, h_near, h_pair        # noqa: F401
from checks.header_samples import G12

FUNCTIONS = _c.FUNCTIONS + ['httpolice.syntax.rfc7232', 'httpolice.syntax.rfc7233', 'httpolice.syntax.rfc7234', 'httpolice.syntax.rfc7235']
BOUNDS = _c.BOUNDS
OUTSIDE = _c.OUTSIDE
ASSUMPTIONS = _c.ASSUMPTIONS


def tasks(tier):
    return _c.tasks(G12, tier)
