"""I03: ordering exchanges by time."""

from httpolice.inputs import formats
from checks.fs_common import Directory
from sx.ctx import Task

FUNCTIONS = ['httpolice.inputs.streams._rearrange_by_time',
             'httpolice.inputs.streams._exchange_time',
             'httpolice.inputs.streams._path_pairs_input',
             'httpolice.inputs.streams.tcpflow_input',
             'httpolice.inputs.streams.resp_stream_input',
             'httpolice.inputs.streams.req_stream_input',
             'httpolice.inputs.streams.streams_input']
BOUNDS = {
    'quick': 'up to 3 connections with up to 3 exchanges each, at most 4 '
             'exchanges altogether; every one without a Date, or with a Date '
             'and perhaps an Age of any second 0-9, on the request or the '
             'response; tcpflow time stamps of any second 0-9',
    'thorough': 'at most 5 exchanges',
}
OUTSIDE = ('order among exchanges of equal times; order relative to '
           'connections that start with exchanges of unknown time; '
           'connections whose own times decrease, or whose files are newer '
           'than their first exchange (for all these only completeness and '
           'the order within each connection)')

DATE = b'Thu, 01 Jan 2015 00:00:0%s GMT'
EPOCH = u'142007040'


def digit(ctx, name):
    return ctx.bytes(name, 1, b'0123456789')


def exchange(ctx, i, k, kind, side):
    """The request and response bytes, and the time (or None)"""
    when, lines = None, b''
    if kind != 'none':
        d = digit(ctx, 'd%d%d' % (i, k))
        lines = b'Date: ' + DATE.replace(b'%s', d) + b'\r\n'
        when = d[0] - 48
    if kind == 'age':
        a = digit(ctx, 'a%d%d' % (i, k))
        lines = lines + b'Age: ' + a + b'\r\n'
        when = when + a[0] - 48
    label = b'%d%d' % (i, k)
    on_req = side == 'req'
    req = b'GET /' + label + b' HTTP/1.1\r\nHost: a\r\n' + \
        (lines if on_req else b'') + b'\r\n'
    resp = b'HTTP/1.1 299 ' + label + b'\r\nContent-Length: 0\r\n' + \
        (b'' if on_req else lines) + b'\r\n'
    return req, resp, when


def label_of(exch):
    if exch.request:
        return exch.request.target[1:]
    return exch.responses[0].reason


def h_order(ctx, fmt, sizes, kinds):
    d = Directory(ctx)
    paths, times, hints = [], [], []
    for i, size in enumerate(sizes):
        reqs, resps, ts = b'', b'', []
        for k in range(size):
            kind = ctx.choice('kind%d%d' % (i, k), kinds)
            side = 'resp'
            if fmt == u'req-stream':
                side = 'req'
            elif fmt == u'streams' and kind == 'date':
                side = ctx.choice('side%d%d' % (i, k), ('req', 'resp'))
            req, resp, when = exchange(ctx, i, k, kind, side)
            reqs, resps = reqs + req, resps + resp
            ts.append(when)
        hint = None
        if fmt == u'tcpflow':
            h = digit(ctx, 'hint%d' % i)
            hint = h[0] - 48
            stamp = EPOCH + h.decode('ascii')
            a, b = u'a-%d' % i, u'b-80'
            if ctx.flag('one-sided%d' % i):
                d.add(stamp + u'-' + b + u'-' + a + u'-0', resps)
            else:
                other = digit(ctx, 'other%d' % i) if i == 0 else h
                d.add(stamp + u'-' + a + u'-' + b + u'-0', reqs)
                d.add(EPOCH + other.decode('ascii') + u'-' + b + u'-' + a +
                      u'-0', resps)
                if other[0] < h[0]:
                    hint = other[0] - 48
        else:
            if fmt != u'resp-stream':
                d.add(u'req%d' % i, reqs)
                paths.append(u'req%d' % i)
            if fmt != u'req-stream':
                d.add(u'resp%d' % i, resps)
                paths.append(u'resp%d' % i)
        times.append(ts)
        hints.append(hint)
    with d:
        exchanges = list(formats[fmt](
            [d.root] if fmt == u'tcpflow' else [d.path(p) for p in paths]))
    got = [label_of(e) for e in exchanges if e.request or e.responses]
    want = [u'%d%d' % (i, k) for i in range(len(sizes))
            for k in range(sizes[i])]
    ctx.check(sorted(got) == want, 'every exchange once', got)
    for i in range(len(sizes)):
        mine = [x for x in got if x.startswith(str(i))]
        ctx.check(mine == sorted(mine), 'order within the connection', got)
    # Times must not decrease within a connection, and must be known.
    fine, effective = True, {}
    for i, ts in enumerate(times):
        now = hints[i]
        for k, t in enumerate(ts):
            if t is not None:
                if now is not None:
                    fine = fine & (t >= now)
                now = t
            if now is None:
                return
            effective[u'%d%d' % (i, k)] = now
    good = True
    for x, y in zip(got, got[1:]):
        good = good & (effective[x] <= effective[y])
    ctx.check((fine == False) | good, 'order of times',     # noqa: E712
              got, times, hints)
    ctx.cover('ordered')


def tasks(tier):
    out = []
    sizes = [(1,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2)]
    if tier == 'thorough':
        sizes += [(2, 1, 1), (1, 2, 1), (3, 2), (1, 1, 1, 1)]
    for s in sizes:
        for fmt in (u'resp-stream', u'req-stream', u'streams', u'tcpflow'):
            if sum(s) > 2 and fmt == u'tcpflow' and s != (2, 1) and \
                    tier == 'quick':
                continue
            if sum(s) > 3 and fmt != u'resp-stream' and tier == 'quick':
                continue
            kinds = ('none', 'date')
            if fmt == u'resp-stream' and sum(s) < 3:
                kinds = ('none', 'date', 'age')
            elif sum(s) > 3:
                kinds = ('date',)
            out.append(Task('h_order', dict(fmt=fmt, sizes=s, kinds=kinds),
                            max_paths=100000,
                            name='h_order(%s, %s)' % (fmt, s),
                            expect=('ordered',)))
    return out
