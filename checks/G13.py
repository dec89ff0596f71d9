"""G13: extension headers."""

from checks import grammar_common as _c
from checks.grammar_common import h_free, h_near, h_pair        # noqa: F401
from checks.header_samples import G13

FUNCTIONS = _c.FUNCTIONS + ['httpolice.syntax.rfc6266', 'httpolice.syntax.rfc6797', 'httpolice.syntax.rfc7239', 'httpolice.syntax.rfc7240', 'httpolice.syntax.rfc7540', 'httpolice.syntax.rfc7838', 'httpolice.syntax.rfc8187', 'httpolice.syntax.rfc8288', 'httpolice.syntax.rfc5789', 'httpolice.syntax.w3c_ldp', 'httpolice.syntax.whatwg_fetch', 'httpolice.syntax.internal']
BOUNDS = _c.BOUNDS
OUTSIDE = _c.OUTSIDE
ASSUMPTIONS = _c.ASSUMPTIONS


def tasks(tier):
    return _c.tasks(G13, tier)
