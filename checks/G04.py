"""G04: annotations re-join to the annotated text."""

from httpolice import Request, Response
from httpolice import known
from httpolice.structure import FieldName
from sx.ctx import Task

from checks import grammar_common as _c
from checks.header_samples import SAMPLES

FUNCTIONS = [
    'httpolice.parse._splice_annotations', 'httpolice.parse._find_results',
    'httpolice.parse.parse', 'httpolice.header.HeaderView._pre_parse',
    'httpolice.message.Message.annotated_header_entries',
    'httpolice.message.Message.annotated_trailer_entries',
    'httpolice.syntax', 'httpolice.structure']
BOUNDS = {
    'quick': 'every parsed header: all values of 0..3 bytes, and every sample '
             'shape with any byte replaced or an arbitrary byte '
             'inserted at any point; two entries of one header, in the '
             'headers or in the trailer part',
    'thorough': 'values of 0..5 bytes; up to three bytes inserted and two '
                'removed',
}
OUTSIDE = 'values that are longer and not near a sample shape'
ASSUMPTIONS = ['an annotated element is shown as str() of it, as the HTML '
               'report does']


def shown(pieces):
    r = ''
    for p in pieces:
        if isinstance(p, bytes):
            r = r + p.decode('iso-8859-1')
        else:
            r = r + str(p)
    return r


def rejoin(ctx, name, value):
    _c.not_padded(ctx, value)
    msg = _c.message(name, value)
    msg.headers[FieldName(name)].value      # pylint: disable=W0106
    ok = not [c for c in msg.notices if c.id == 1000]
    ctx.cover('accepted' if ok else 'rejected')
    ((entry, pieces),) = msg.annotated_header_entries
    ctx.check(entry is msg.header_entries[0], 'entries in order')
    ctx.check(shown(pieces) == value.decode('iso-8859-1'),
              'pieces make up the value', value)
    n = 0
    for p in pieces:
        if not isinstance(p, bytes):
            n += 1
            ctx.check(isinstance(p, tuple(known.classes)),
                      'annotates what is known')
            ctx.check(len(str(p)) > 0, 'annotated text is not empty')
    ctx.observe(n, len(pieces))


def h_free(ctx, name, n):
    rejoin(ctx, name, ctx.bytes('v', n))


def h_near(ctx, name, sample, inserted, removed):
    rejoin(ctx, name, _c.near(ctx, SAMPLES[name][sample], inserted, removed))


def h_two(ctx, name, sample):
    """Each entry has its own annotations"""
    a = _c.near(ctx, SAMPLES[name][sample], 1, 1)
    b = ctx.bytes('w', 1)
    _c.not_padded(ctx, a)
    _c.not_padded(ctx, b)
    order = ctx.flag('order')
    values = [a, b] if order else [b, a]
    entries = [(name, values[0]), ('Foo', b'x'), (name, values[1])]
    cls = Response if name in _c.RESPONSE_ONLY else Request
    head = ('HTTP/1.1', 200, 'OK') if cls is Response else \
        ('http', 'GET', '/', 'HTTP/1.1')
    if ctx.flag('trailer'):
        msg = cls(*head, entries[:2], b'', entries[2:])
    else:
        msg = cls(*head, entries, b'')
    msg.headers[FieldName(name)].value      # pylint: disable=W0106
    got = msg.annotated_header_entries + msg.annotated_trailer_entries
    ctx.check(len(got) == 3, 'every entry')
    for (n, v), (e, pieces) in zip(entries, got):
        ctx.check(str(e.name) == n, 'entries in order')
        ctx.check(shown(pieces) == v.decode('iso-8859-1'),
                  'pieces make up the value of their entry', n, v)
    ctx.observe(len(got))


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for name in SAMPLES:
        for n in range((3, 5)[t] + 1):
            out.append(Task('h_free', dict(name=name, n=n)))
        for i, s in enumerate(SAMPLES[name]):
            for ins, rem in ((0, 0), (1, 0), (1, 1)) + (
                    ((2, 0), (0, 1), (2, 1), (2, 2), (3, 0)) if t else ()):
                if rem <= len(s):
                    out.append(Task('h_near', dict(
                        name=name, sample=i, inserted=ins, removed=rem)))
            if i == 0 and (t or len(s) < 12):
                out.append(Task('h_two', dict(name=name, sample=i)))
    return out
