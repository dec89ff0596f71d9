"""F06: line and body size limits."""
from checks.framing_common import both, compare, decode, real_streams
from httpolice import framing1
from ref import http1
from sx.ctx import Task

FUNCTIONS = ['stream.Stream.readline', 'stream.Stream.read',
             'framing1._process_content_length', 'framing1._parse_chunk',
             'syntax.rfc7230.Content_Length', 'parse.parse']
ASSUMPTIONS = ['file objects follow io.BufferedReader\'s contract',
               'for chunk accumulation the module\'s limit is lowered (when '
               'it is a module attribute named MAX_BODY_SIZE) so that it can '
               'be reached with few bytes']
BOUNDS = {
    'quick': 'Content-Length of up to 11 symbolic digits, alone or after 20 '
             'or 5000 zeros; chunk sizes of up to 9 symbolic hexadecimal '
             'digits; lines of every length within 4 of 16384 in every '
             'heading position',
    'thorough': 'Content-Length of up to 20 symbolic digits, chunk sizes of '
                'up to 12',
}
OUTSIDE = 'really reading bodies of 1 GiB'
NEXT = 'GET /n HTTP/1.1\r\n\r\n'


def h_content_length(ctx, digits, zeros):
    kind = ctx.choice('kind', ['req', 'resp'])
    v = b'0' * zeros + ctx.bytes('n', digits, b'0123456789')
    if kind == 'req':
        i = b'POST / HTTP/1.1\r\nContent-Length: ' + v + b'\r\n\r\nabc' + \
            NEXT.encode('ascii')
        o = None
    else:
        i = None
        o = b'HTTP/1.1 200 OK\r\nContent-Length: ' + v + b'\r\n\r\nabc'
    compare(ctx, real_streams(i, o), http1.streams(i, o, decode),
            ('body', 'notices'))


def h_chunk_size(ctx, digits, zeros):
    v = b'0' * zeros + ctx.bytes('n', digits, b'0123456789abcdefABCDEF')
    i = b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n' + v + \
        b'\r\nabc\r\n0\r\n\r\n'
    compare(ctx, real_streams(i, None), http1.streams(i, None, decode),
            ('body', 'notices'))


def h_chunk_total(ctx, limit):
    """Sizes add up over chunks; exactly the limit is still fine"""
    name = 'MAX_BODY_SIZE'
    ctx.assume(hasattr(framing1, name))
    saved = getattr(framing1, name), http1.BODY_LIMIT
    setattr(framing1, name, limit)
    http1.BODY_LIMIT = limit
    try:
        both(ctx, 'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n'
             '{1:h}\r\nab\r\n{1:h}\r\nc\r\n{2:h}\r\ndef\r\n0\r\n\r\n' + NEXT,
             None, ('body', 'notices'))
    finally:
        setattr(framing1, name, saved[0])
        http1.BODY_LIMIT = saved[1]


LINES = {
    'start': ('GET /', ' HTTP/1.1\r\nA: b\r\n\r\n', ' HTTP/1.1\r\n', 'req'),
    'field': ('GET / HTTP/1.1\r\n*A: ', '\r\nB: c\r\n\r\n', '\r\n', 'req'),
    'lf': ('GET / HTTP/1.1\r\n*A: ', '\nB: c\r\n\r\n', '\n', 'req'),
    'fold': ('GET / HTTP/1.1\r\nA: b\r\n* ', '\r\n\r\n', '\r\n', 'req'),
    'status': ('HTTP/1.1 204 ', '\r\nA: b\r\n\r\n', '\r\n', 'resp'),
    'respfield': ('HTTP/1.1 204 OK\r\n*A:', '\r\n\r\n', '\r\n', 'resp'),
    'chunk': ('POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n*1;',
              '\r\na\r\n0\r\n\r\n', '\r\n', 'req'),
    'trailer': ('POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n'
                '*T: ', '\r\n\r\n', '\r\n', 'req'),
    'unterminated': ('GET / HTTP/1.1\r\n*A: ', '', '', 'req'),
}


def h_line(ctx, where):
    pre, post, end, kind = LINES[where]
    pre, post = pre.encode('ascii'), post.encode('ascii')
    before = len(pre) - pre.rfind(b'*') - 1 if b'*' in pre else len(pre)
    pre = pre.replace(b'*', b'')
    total = ctx.choice('length', list(range(16380, 16389)))
    n = total - before - len(end)
    # the symbolic bytes sit just before the end of the line
    tail = ctx.bytes('tail', 2, bytes(range(0x21, 0x7f)))
    data = pre + b'x' * (n - 2) + tail + post
    if kind == 'req':
        i, o = data + NEXT.encode('ascii'), None
    else:
        i, o = None, data
    if where == 'unterminated':
        i = data
    compare(ctx, real_streams(i, o), http1.streams(i, o, decode))


def tasks(tier):
    deep = tier == 'thorough'
    ts = []
    for d in (1, 3, 9, 10, 11) + ((13, 16, 20) if deep else ()):
        ts.append(Task('h_content_length', dict(digits=d, zeros=0)))
    ts.append(Task('h_content_length', dict(digits=2, zeros=20)))
    ts.append(Task('h_content_length', dict(digits=10, zeros=20)))
    ts.append(Task('h_content_length', dict(digits=1, zeros=5000)))
    for d in (1, 7, 8, 9) + ((10, 12) if deep else ()):
        ts.append(Task('h_chunk_size', dict(digits=d, zeros=0)))
    ts.append(Task('h_chunk_size', dict(digits=8, zeros=20)))
    ts.append(Task('h_chunk_size', dict(digits=1, zeros=5000)))
    for limit in (0, 1, 2, 3, 5, 6, 7):
        ts.append(Task('h_chunk_total', dict(limit=limit)))
    for w in LINES:
        ts.append(Task('h_line', dict(where=w)))
    return ts
