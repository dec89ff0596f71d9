"""G11: headers of RFC 7231 (and RFC 4647, RFC 5646)."""

from checks import grammar_common as _c
from checks.grammar_common import h_free, h_near, h_pair        # noqa: F401
from checks.header_samples import G11

FUNCTIONS = _c.FUNCTIONS + ['httpolice.syntax.rfc7231', 'httpolice.syntax.rfc4647', 'httpolice.syntax.rfc5646']
BOUNDS = _c.BOUNDS
OUTSIDE = _c.OUTSIDE
ASSUMPTIONS = _c.ASSUMPTIONS


def tasks(tier):
    return _c.tasks(G11, tier)
