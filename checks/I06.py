"""I06: pairs of stream files, and files of requests or responses."""

from httpolice.inputs import InputError, formats
from httpolice.cli import parse_args, run_cli
from checks.framing_common import compare, events_of
from checks.fs_common import Directory
from checks.N03 import Out
from ref import http1
from sx.ctx import Task

FUNCTIONS = ['httpolice.inputs.streams.streams_input',
             'httpolice.inputs.streams.req_stream_input',
             'httpolice.inputs.streams.resp_stream_input',
             'httpolice.inputs.streams._path_pairs_input',
             'httpolice.inputs.streams._parse_paths',
             'httpolice.inputs.streams._rearrange_by_time',
             'httpolice.framing1.parse_streams', 'httpolice.cli.run_cli']
BOUNDS = {
    'quick': 'lists of 1-4 files (also the same file twice), each empty, one '
             'or two messages of either direction, interim responses, or '
             'other data, with 1-2 symbolic bytes per file; odd lists of 1, '
             '3 and 5 files; one missing file at any place',
    'thorough': 'two more symbolic bytes per file, lists of 6 files'}
OUTSIDE = ['order when messages have dates (see I03)']
ASSUMPTIONS = ['what is in one connection is read like the reference reader '
               'of F01-F05 reads it']

KINDS = ('empty', 'req', 'reqs', 'resp', 'resps', 'junk', 'cut')


def contents(ctx, i, kinds, m):
    kind = ctx.choice('kind%d' % i, kinds)
    if kind == 'empty':
        return b''
    x = ctx.bytes('x%d' % i, 1 + m, b'abcdefghijklmnopqrstuvwxyz0123456789-._~'
                  if kind != 'junk' else None)
    req = b'POST /' + x + b' HTTP/1.1\r\nContent-Length: 1\r\n\r\n!'
    resp = b'HTTP/1.1 200 ' + x + b'\r\nContent-Length: 1\r\n\r\n?'
    return {
        'req': req, 'reqs': req + req.replace(b'POST', b'GET', 1),
        'resp': resp, 'resps': b'HTTP/1.1 100 Go\r\n\r\n' + resp + resp,
        'junk': x + b' \r\n', 'cut': req[:-3]}[kind]


def plan(fmt, files):
    """Which data goes which way"""
    if fmt == u'streams':
        return [(files[k], files[k + 1]) for k in range(0, len(files), 2)]
    if fmt == u'req-stream':
        return [(f, None) for f in files]
    return [(None, f) for f in files]


def h_files(ctx, fmt, n, kinds, m, twice):
    d = Directory(ctx)
    names, data = [], []
    for i in range(n):
        if twice and i == n - 1:
            k = ctx.choice('same as', range(n - 1))
            names.append(names[k])
            data.append(data[k])
            continue
        data.append(contents(ctx, i, kinds, m))
        names.append(u'f%d.dat' % (n - i))
        d.add(names[-1], data[-1])
    with d:
        paths = [d.path(x) for x in names]
        exchanges = list(formats[fmt](paths))
        again = [d.path(x) for x in names]
    ctx.check(paths == again, 'arguments are left alone')
    want, sources = [], []
    for (i, o), (p, q) in zip(plan(fmt, data), plan(fmt, paths)):
        events = http1.streams(i, o)
        want.extend(events)
        sources.extend((p, q) for _ in events)
    compare(ctx, events_of(exchanges), want)
    for exch, event, (p, q) in zip(exchanges, want, sources):
        if exch.request is not None:
            ctx.check(exch.request.scheme == u'http', 'scheme')
        if event[0] == 'box':
            stream = exch.complaints[0].context.get('stream')
            if stream is not None:
                ctx.check(stream.name == (p if event[1] in (1006, 1007)
                                          else q), 'file named', event[1])
                ctx.cover('named')
    ctx.cover('read')


def h_odd(ctx, n):
    d = Directory(ctx)
    names = []
    for i in range(n):
        names.append(u'f%d' % i)
        d.add(names[-1], contents(ctx, i, ('req', 'resp') if n < 5 else
                                  ('empty',), 0))
    fmt = ctx.choice('format', (u'streams', u'req-stream', u'resp-stream'))
    with d:
        paths = [d.path(x) for x in names]
        try:
            seen = list(formats[fmt](paths))
        except InputError:
            seen = None
        out, err = Out(), Out()
        status = run_cli(parse_args(['httpolice', '-i', fmt] + paths), out,
                         err)
    odd = fmt == u'streams'
    ctx.check((seen is None) == odd, 'rejected', fmt, n)
    ctx.check(status == (1 if odd else 0), 'exit status', status)
    ctx.check((u''.join(err.said).startswith(u'httpolice: ') and
               out.buffer.getvalue() == b'') if odd else err.said == [],
              'message', err.said)
    ctx.cover('rejected' if odd else 'read')


def h_missing(ctx, fmt, n):
    """A file that cannot be read is an error, not an empty connection."""
    at = ctx.choice('at', range(n))
    d = Directory(ctx)
    paths = []
    for i in range(n):
        if i != at:
            d.add(u'f%d' % i, contents(ctx, i, ('req', 'resp'), 0))
    with d:
        paths = [d.path(u'f%d' % i) for i in range(n)]
        out, err = Out(), Out()
        status = run_cli(parse_args(['httpolice', '-i', fmt] + paths), out,
                         err)
    ctx.check(status == 1, 'exit status', status)
    ctx.check(len(err.said) == 1 and
              err.said[0].startswith(u'httpolice: '), 'message', err.said)
    ctx.cover('done')


def tasks(tier):
    m = 2 if tier == 'thorough' else 0
    out = []
    few = ('empty', 'req', 'resps', 'junk')
    for fmt, sizes in ((u'streams', (2, 4)), (u'req-stream', (1, 2, 3)),
                       (u'resp-stream', (1, 2, 3))):
        for n in sizes + ((6,) if m and fmt == u'streams' else ()):
            for twice in (False, True):
                if twice and n == 1:
                    continue
                out.append(Task('h_files', dict(
                    fmt=fmt, n=n, kinds=KINDS if n < 3 else few,
                    m=(1 if n < 3 else 0) + m, twice=twice), max_paths=50000,
                    name='h_files(%s, %d, %s)' % (fmt, n, twice),
                    expect=('read',)))
        out.append(Task('h_missing', dict(fmt=fmt, n=2 if fmt != u'streams'
                                          else 4), expect=('done',)))
    for n in (1, 3, 5):
        out.append(Task('h_odd', dict(n=n), expect=('rejected', 'read')))
    return out
