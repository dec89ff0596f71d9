"""Header grammars: acceptance by HTTPolice against the reference recognizer.

Input spaces per header:
  free   every byte string of n bytes
  near   every sample shape with, at every position, r bytes removed and m
         symbolic bytes inserted
"""

from httpolice import Request, Response
from httpolice.structure import FieldName
from sx.ctx import Task

from checks.header_samples import SAMPLES
from ref.grammars import GRAMMAR, GRAMMAR_ORIGINAL

RESPONSE_ONLY = frozenset([
    'Accept-Ranges', 'Age', 'Allow', 'ETag', 'Location', 'Retry-After',
    'Server', 'Vary', 'WWW-Authenticate', 'Proxy-Authenticate',
    'Content-Range', 'Accept-Patch', 'Accept-Post', 'Content-Disposition',
    'Strict-Transport-Security', 'Preference-Applied', 'Alt-Svc',
    'Access-Control-Allow-Origin', 'Access-Control-Allow-Credentials',
    'Access-Control-Expose-Headers', 'Access-Control-Max-Age',
    'Access-Control-Allow-Methods', 'Access-Control-Allow-Headers',
    'X-Content-Type-Options', 'Cross-Origin-Resource-Policy',
    'Last-Modified', 'Expires'])

NESTED_LISTS = ('WWW-Authenticate', 'Proxy-Authenticate', 'Authorization',
                'Proxy-Authorization')


def message(name, value):
    if name in RESPONSE_ONLY:
        return Response('HTTP/1.1', 200, 'OK', [(name, value)], b'')
    return Request('http', 'GET', '/', 'HTTP/1.1', [(name, value)], b'')


def not_padded(ctx, value):
    """Field values reach the grammar with surrounding whitespace removed."""
    if len(value) > 0:
        ctx.assume(value[:1] not in (b' ', b'\t'))
        ctx.assume(value[-1:] not in (b' ', b'\t'))


def near(ctx, sample, inserted, removed):
    b = sample.encode('ascii')
    p = ctx.choice('pos', range(0, len(b) - removed + 1))
    x = ctx.bytes('x', inserted) if inserted else b''
    return b[:p] + x + b[p + removed:]


def accept(ctx, name, value):
    not_padded(ctx, value)
    msg = message(name, value)
    view = msg.headers[FieldName(name)]
    parsed = view.value
    malformed = [c for c in msg.notices if c.id == 1000]
    ctx.cover('accepted' if not malformed else 'rejected')
    expected = GRAMMAR.accepts(name, value)
    if name in NESTED_LISTS:
        # the original list rule and its erratum differ on "Basic \t,"
        if malformed:
            expected = GRAMMAR_ORIGINAL.accepts(name, value)
    ctx.check(expected == (not malformed), 'accepts exactly the grammar',
              name, value, bool(malformed))
    ctx.observe(len(malformed), view.is_present)
    del parsed


def h_free(ctx, name, n):
    accept(ctx, name, ctx.bytes('v', n))


def h_near(ctx, name, sample, inserted, removed):
    accept(ctx, name, near(ctx, SAMPLES[name][sample], inserted, removed))


def h_pair(ctx, name, sample):
    """Two separate positions of a sample, one symbolic byte each."""
    b = SAMPLES[name][sample].encode('ascii')
    p = ctx.choice('pos', range(0, len(b) - 1))
    q = ctx.choice('pos2', range(p + 1, len(b)))
    accept(ctx, name, b[:p] + ctx.bytes('x', 1) + b[p + 1:q] +
           ctx.bytes('y', 1) + b[q + 1:])


def tasks(names, tier, free=(3, 5), edits=(2, 3), pairs=16):
    out = []
    t = tier == 'thorough'
    for name in names:
        for n in range(0, free[t] + 1):
            out.append(Task('h_free', dict(name=name, n=n)))
        for i, s in enumerate(SAMPLES[name]):
            for inserted in range(0, edits[t] + 1):
                for removed in range(0, 3):
                    if inserted + removed == 0 or removed > len(s) or \
                            inserted + removed > edits[t] + 1:
                        continue
                    out.append(Task('h_near', dict(
                        name=name, sample=i, inserted=inserted,
                        removed=removed)))
            if t and len(s) <= pairs:
                out.append(Task('h_pair', dict(name=name, sample=i)))
    return out


FUNCTIONS = [
    'httpolice.parse.parse', 'httpolice.parse._inner_parse',
    'httpolice.parse._add_item', 'httpolice.parse._find_results',
    'httpolice.parse._build_parse_error', 'httpolice.parse._find_pivots',
    'httpolice.parse.Terminal.match', 'httpolice.parse.Nonterminal',
    'httpolice.parse.RepeatedNonterminal', 'httpolice.parse.Rule',
    'httpolice.parse._splice_annotations', 'httpolice.header.HeadersView',
    'httpolice.header.HeaderView._pre_parse',
    'httpolice.header.SingleHeaderView', 'httpolice.header.MultiHeaderView',
    'httpolice.header.ArgumentsView', 'httpolice.blackboard.Blackboard',
]

BOUNDS = {
    'quick': 'per header: every value of 0..3 bytes; every value obtained '
             'from a sample shape by removing r and inserting m arbitrary '
             'bytes at any position, m <= 2, r + m <= 3 (all 256 byte '
             'values)',
    'thorough': 'per header: every value of 0..5 bytes; sample shapes with '
                'r + m <= 4, m <= 3, at any position; sample shapes of up to '
                '16 bytes with any two bytes replaced',
}
OUTSIDE = ('values that are longer than the bounds and not near one of the '
           'sample shapes of checks/header_samples.py; values with '
           'surrounding whitespace (removed by framing)')
ASSUMPTIONS = [
    'the reference ABNF of ref/grammars.py is the specification (transcribed '
    'from the RFCs, recipient list rule as in erratum 5257; where that '
    'and the original text differ, either answer is taken)',
    'names that the prose of an RFC gives a grammar of their own (built-in '
    'transfer codings, "q", "trailers", "no-cache", "bytes", "filename", '
    '"filename*") are excluded from the generic alternative',
]
