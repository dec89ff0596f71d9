"""F02: message body delimitation."""
from checks.framing_common import both
from sx.ctx import Task

FUNCTIONS = ['framing1._parse_request_body', 'framing1._parse_response_body',
             'framing1._process_content_length', 'framing1._parse_chunked',
             'framing1._decode_transfer_coding', 'header.HeadersView',
             'header.SingleHeaderView/ListHeaderView', 'parse.parse',
             'syntax.rfc7230.Transfer_Encoding/Content_Length']
ASSUMPTIONS = ['gzip and deflate codecs are the real zlib, given concrete '
               'compressed data']
BOUNDS = {
    'quick': 'request/response pairs from templates: every 3-digit status, 6 '
             'methods, 20 Transfer-Encoding forms, Content-Length of up to 3 '
             'symbolic bytes, up to 2 repeated fields, bodies up to 6 bytes, '
             'a following message',
    'thorough': 'as quick, with more symbolic bytes per field',
}
OUTSIDE = 'transfer-parameters on transfer codings; longer bodies'


def h_streams(ctx, inbound=None, outbound=None):
    both(ctx, inbound, outbound, ('body', 'notices'))


NEXT = 'GET /n HTTP/1.1\r\n\r\n'
CH = '2\r\nhi\r\n0\r\n\r\n'
TE = ('chunked|Chunked|foo|foo, chunked|chunked, foo|chunked, chunked|gzip|'
      'gzip, chunked|GZIP, Chunked|x-gzip, chunked|deflate, chunked|'
      'identity|@|,|chunked,|, chunked|foo, bar, chunked|compress, chunked|'
      'chunked @|foo, chunked, chunked')
MET = '{GET|POST|HEAD|CONNECT|get|head}'
RQ = [
    'POST / HTTP/1.1\r\nContent-Length: {1}\r\n\r\nabc' + NEXT,
    'POST / HTTP/1.1\r\nContent-Length:{3}\r\n\r\nabc' + NEXT,
    'POST / HTTP/1.1\r\nContent-Length: {2:D}{1:d}\r\n\r\nabcdef' + NEXT,
    MET + ' / HTTP/1.1\r\nContent-Length: 3\r\n\r\n{3}' + NEXT,
    'POST / HTTP/1.1\r\nContent-Length: {1:d}\r\n{Content-Length|'
    'content-length|X-Length}: {1:d}\r\n\r\nabc' + NEXT,
    'POST / HTTP/1.1\r\n{c|C|x}ontent-{l|L}ength: 2\r\n\r\nabc' + NEXT,
    MET + ' / HTTP/{1:d}.{1:d}\r\nTransfer-Encoding: {' + TE +
    '}\r\n\r\n' + CH + NEXT,
    'POST / HTTP/1.1\r\nTransfer-Encoding: {3:t}\r\n\r\n' + CH + NEXT,
    'POST / HTTP/1.1\r\nTransfer-Encoding: chunke{1}{1}\r\n\r\n' + CH + NEXT,
    'POST / HTTP/1.1\r\nTransfer-Encoding: {' + TE + '}\r\n'
    'Content-Length: {1:d}\r\n\r\n' + CH + NEXT,
    'POST / HTTP/1.1\r\nContent-Length: {1:d}\r\n'
    'Transfer-Encoding: chunked\r\n\r\n' + CH + NEXT,
    'POST / HTTP/1.1\r\nTransfer-Encoding: {foo|chunked|@}\r\n'
    'X: y\r\nTransfer-Encoding: {bar|chunked|@|}\r\n\r\n' + CH + NEXT,
    MET + ' / HTTP/1.1\r\nA: b\r\n\r\n' + NEXT,
]
RS = [
    (MET + ' / HTTP/1.1\r\n\r\n',
     'HTTP/1.1 {3:d} X\r\nContent-Length: 3\r\n\r\nabcd'),
    (MET + ' / HTTP/1.1\r\n\r\n',
     'HTTP/1.1 {3:d} X\r\n{|Transfer-Encoding: chunked\r\n|'
     'Transfer-Encoding: foo\r\n}\r\n' + CH + 'ab'),
    (None, 'HTTP/1.1 {3:d} X\r\n{|Content-Length: 2\r\n|'
     'Transfer-Encoding: chunked\r\n}\r\n' + CH + 'HTTP/1.1 204 \r\n\r\n'),
    ('GET / HTTP/1.1\r\n\r\n',
     'HTTP/1.1 200 X\r\nTransfer-Encoding: {' + TE + '}\r\n{|Content-Length: '
     '2\r\n}\r\n' + CH + 'HTTP/1.1 200 X\r\n\r\n'),
    ('GET / HTTP/1.1\r\n\r\n',
     'HTTP/1.1 200 X\r\nContent-Length:{3}\r\n\r\nabcHTTP/1.1 204 X\r\n\r\n'),
    ('GET / HTTP/1.1\r\n\r\n',
     'HTTP/1.1 200 X\r\nContent-Length: {1:d}\r\nContent-Length: {1:D}\r\n'
     '\r\nabc'),
    ('GET / HTTP/1.1\r\n\r\n', 'HTTP/1.1 200 X\r\nA: b\r\n\r\n{6}'),
    (MET + ' / HTTP/1.1\r\nContent-Length: 1\r\n\r\na' + NEXT,
     'HTTP/1.1 {1|2|3|5}{0|9}{1:d} X\r\n{|Content-Length: 2\r\n}\r\nxy'
     'HTTP/1.1 204 Y\r\n\r\n'),
    ('{2:t} / HTTP/1.1\r\n\r\n{3}', 'HTTP/1.1 200 X\r\n\r\n{3}'),
]


def h_coded(ctx, coding, te, kind):
    """Compressed transfer codings over concrete compressed data"""
    import zlib
    from checks.framing_common import compare, decode, real_streams
    from ref import http1
    data = b'hello'
    if coding == 'gzip':
        c = zlib.compressobj(9, zlib.DEFLATED, 31)
        z = c.compress(data) + c.flush()
    elif coding == 'deflate':
        z = zlib.compress(data)
    else:
        c = zlib.compressobj(9, zlib.DEFLATED, 31)
        z = zlib.compress(c.compress(data) + c.flush())
    k = ctx.choice('damage', ['no', 'head', 'plain', 'empty'])
    if k == 'head':
        z = b'\x00' + z[1:]
    elif k == 'plain':
        z = data
    elif k == 'empty':
        z = b''
    z = bytes(z)
    body = b'%x\r\n%s\r\n' % (len(z), z) if z else b''
    body = body + b'0\r\n\r\n'
    te = te.encode('ascii')
    if kind == 'req':
        i = b'POST / HTTP/1.1\r\nTransfer-Encoding: ' + te + b'\r\n\r\n' + \
            body + NEXT.encode('ascii')
        o = None
    else:
        i = b'GET / HTTP/1.1\r\n\r\n'
        o = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: ' + te + b'\r\n\r\n' + \
            (body if te.endswith(b'chunked') else z)
    compare(ctx, real_streams(i, o), http1.streams(i, o, decode),
            ('body', 'notices'))


def tasks(tier):
    ts = [Task('h_streams', dict(inbound=t)) for t in RQ]
    ts += [Task('h_streams', dict(inbound=i, outbound=o)) for i, o in RS]
    for kind in ('req', 'resp'):
        for coding, te in (
                ('gzip', 'gzip, chunked'), ('gzip', 'x-gzip, chunked'),
                ('deflate', 'deflate, chunked'),
                ('both', 'gzip, deflate, chunked'),
                ('both', 'deflate, gzip, chunked'),
                ('gzip', 'gzip, chunked, chunked'),
                ('gzip', 'foo, gzip, chunked'), ('gzip', 'gzip'),
                ('both', 'gzip, deflate'), ('gzip', 'chunked, gzip')):
            ts.append(Task('h_coded', dict(coding=coding, te=te, kind=kind)))
    if tier == 'thorough':
        ts += [Task('h_streams', dict(inbound=t)) for t in (
            'POST / HTTP/1.1\r\nContent-Length:{5:k}\r\n\r\nabc' + NEXT,
            'POST / HTTP/1.1\r\n{3:k}ontent-Length: 2\r\n\r\nabc' + NEXT,
            'POST / HTTP/1.1\r\nTransfer-Encoding:{4}chunked\r\n\r\n' + CH,
            'POST / HTTP/1.1\r\nTransfer-Encoding: chunked{4}\r\n\r\n' + CH,
        )]
    return ts
