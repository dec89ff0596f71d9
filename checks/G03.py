"""G03: the memo of parse results is transparent."""

from httpolice import Exchange, Request, check_exchange
from httpolice import known
from httpolice import parse as P
from httpolice.structure import FieldName, Unavailable
from httpolice.syntax import rfc7230, rfc7231, rfc7234, rfc7235, rfc7838
from sx.ctx import Task

from checks import grammar_common as _c
from checks.header_samples import SAMPLES
from checks.values_common import deep

FUNCTIONS = [
    'httpolice.parse.parse', 'httpolice.header.HeaderView._pre_parse',
    'httpolice.header.AltSvcView', 'httpolice.header.CacheControlView',
    'httpolice.header.ForwardedView', 'httpolice.header.PreferView',
    'httpolice.header.ArgumentsView']
BOUNDS = {
    'quick': 'sequences of 3 parses out of 3 values of up to 2 bytes under 2 '
             'symbols each, equal or not, with a memo of 1, 2 or 500 '
             'results; every parsed header: two messages checked in full '
             'after each other with the same value (sample shapes with any '
             'byte replaced), compared with a fresh start',
    'thorough': 'sequences of 4, values of up to 3 bytes; values with two bytes replaced or inserted',
}
OUTSIDE = 'longer sequences, values far from the sample shapes'
ASSUMPTIONS = ['clearing the memo is a fresh start']

SYMBOLS = {
    'lists': (rfc7230.Connection, rfc7231.Allow),
    'media': (rfc7231.media_type, rfc7230.token),
    'comment': (rfc7230.comment(), rfc7230.quoted_string),
    'challenge': (rfc7235.challenge, rfc7230.token),
    'number': (rfc7230.Content_Length, rfc7234.delta_seconds),
    'alt': (rfc7838.Alt_Svc, rfc7230.token),
}


def outcome(value, symbol, annotate):
    notices = []

    def complain(id_, **ctx):
        notices.append((id_, ctx))

    r = P.parse(value, symbol, complain, 1000, annotate_classes=annotate,
                place='here')
    return r, notices


def same_error(a, b):
    return (a.position == b.position) & (a.found == b.found) & \
        ([d for d, _ in a.expected] == [d for d, _ in b.expected])


def same(a, b):
    (r1, n1), (r2, n2) = a, b
    if len(n1) != len(n2):
        return False
    ok = True
    for (i1, c1), (i2, c2) in zip(n1, n2):
        if i1 != i2 or sorted(c1) != sorted(c2) or \
                c1['place'] != c2['place']:
            return False
        for k in c1:
            if k == 'error':
                ok = ok & same_error(c1[k], c2[k])
            elif k != 'place':
                ok = ok & deep(c1[k], c2[k])
    return ok & deep(r1, r2)


def h_sequence(ctx, group, n, steps, limit):
    """Any sequence of parses, against the same parses one by one"""
    symbols = SYMBOLS[group]
    values = [ctx.bytes('a', n), ctx.bytes('b', n)]
    if n > 0:
        values.append(ctx.bytes('c', n - 1) + b'a')
    classes = known.classes if ctx.flag('annotate') else ()
    # (without loss of generality, one starts with the first value)
    plan = [(ctx.choice('v%d' % i, values[:i + 1]),
             ctx.choice('s%d' % i, symbols)) for i in range(steps)]
    old = P.MEMO_LIMIT
    try:
        P.MEMO_LIMIT = limit
        P._memo.clear()
        got = []
        for v, s in plan:
            got.append(outcome(v, s, classes))
            ctx.check(len(P._memo) <= limit, 'the memo is bounded')
    finally:
        P.MEMO_LIMIT = old
    for i, (v, s) in enumerate(plan):
        P._memo.clear()
        fresh = outcome(v, s, classes)
        ctx.check(same(got[i], fresh), 'the same as on a fresh start', i, v)
        ctx.cover('rejected' if fresh[1] and fresh[1][0][0] == 1000
                  else 'accepted')
    ctx.observe(len(plan))


def full(name, value, extra):
    msg = _c.message(name, value)
    if extra:
        msg.header_entries.append(msg.header_entries[0])
    req = msg if isinstance(msg, Request) else None
    exch = Exchange(req, [] if req else [msg])
    check_exchange(exch)
    view = msg.headers[FieldName(name)]
    return msg, view.value, msg.notices, msg.annotated_header_entries


def h_message(ctx, name, sample, inserted, removed):
    """A whole check of a message does not change what the next one sees"""
    value = _c.near(ctx, SAMPLES[name][sample], inserted, removed)
    _c.not_padded(ctx, value)
    P._memo.clear()
    msg1, v1, n1, a1 = full(name, value, False)
    msg2, v2, n2, a2 = full(name, value, False)
    ctx.check([c.id for c in n1] == [c.id for c in n2],
              'the same notices again', value)
    ctx.check(deep(v1, v2), 'the same value again', value)
    ctx.check(len(a1) == len(a2) and
              deep([p for _, p in a1], [p for _, p in a2]),
              'the same annotations again', value)
    ok = not isinstance(v1, Unavailable)
    ctx.cover('accepted' if ok else 'rejected')
    ctx.observe([c.id for c in n1])


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for g in SYMBOLS:
        for n in range(3 + t):
            for limit in (1, 2, 500):
                if n == 2 and limit != 1 and not t:
                    continue
                steps = 3 + t
                out.append(Task('h_sequence', dict(
                    group=g, n=n, steps=steps, limit=limit)))
    for name in SAMPLES:
        for i, s in enumerate(SAMPLES[name]):
            for ins, rem in ((1, 1),) + (
                    ((1, 0), (2, 0), (0, 1), (2, 2)) if t else ()):
                if rem <= len(s):
                    p = dict(name=name, sample=i, inserted=ins, removed=rem)
                    out.append(Task('h_message', p))
    return out
