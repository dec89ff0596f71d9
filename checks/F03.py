"""F03: the chunked coding."""
from checks.framing_common import both
from sx.ctx import Task

FUNCTIONS = ['framing1._parse_chunked', 'framing1._parse_chunk',
             'framing1.parse_header_fields', 'stream.Stream.*']
ASSUMPTIONS = ['file objects follow io.BufferedReader\'s contract']
BOUNDS = {
    'quick': 'chunked bodies of requests and responses from templates with '
             'up to 6 symbolic bytes in size lines, extensions, data, chunk '
             'ends and trailers',
    'thorough': 'as quick, with up to 9 symbolic bytes',
}
OUTSIDE = 'more than three chunks; sizes near 1 GiB are in F06'

RQ = 'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n'
RS = 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
NEXT = 'GET /n HTTP/1.1\r\n\r\n'

BODIES = [
    '{4}',
    '{2}\r\nabc\r\n0\r\n\r\n',
    '{3:H}\r\nabc\r\n0\r\n\r\n',
    '{3:H}3\r\nabc\r\n0\r\n\r\n',
    '3{3}\r\nabc\r\n0\r\n\r\n',
    '3{3:H}\r\nabc\r\n0\r\n\r\n',
    '{1}3\r\nabc\r\n0\r\n\r\n',
    '3\r\nabc{3}0\r\n\r\n',
    '3\r\n{3}\r\n0\r\n\r\n',
    '3{2}abc{2}0\r\n\r\n',
    '2\r\nab\r\n{1:h}\r\ncd\r\n{1:h}\r\n\r\n',
    '1\r\na\r\n{1:h}{1:h}\r\nb\r\n0\r\n\r\n',
    '3\r\nabc\r\n{3}\r\n\r\n',
    '3\r\nabc\r\n0{4}',
    '3\r\nabc\r\n0\r\n{4}',
    '0\r\n{4:nl}\r\n\r\n',
    '0\r\nA:{2}\r\n{3}',
    '0\r\n\r\n',
    '{0|00|000|0;a|0 |;0||+0|-0|0x0|0_0}\r\n\r\n',
    '{a|A|0a|0A|0xa|1_0|+a| a|a\t|a;b=c|a ;b|-a|a a|}\r\n0123456789\r\n0\r\n'
    '\r\n',
    '5\r\n0\r\n\r\n\r\n0\r\n\r\n{2}',
    '1\r\na\r\n2\r\nbc\r\n3\r\ndef\r\n0\r\nT: {2}\r\n\r\n',
]


def h_chunked(ctx, body):
    if ctx.flag('response'):
        both(ctx, None, RS + body)
    else:
        both(ctx, RQ + body + NEXT, None)


def tasks(tier):
    bs = list(BODIES)
    bs += ['{6:H}', '{4:h}{2:H}\r\nab']
    if tier == 'thorough':
        bs += ['{9:H}', '{6}', '1\r\na\r\n{6:H}\r\n\r\n', '0\r\n{7:nl}',
               '3{4}abc{3}0\r\n\r\n']
    return [Task('h_chunked', dict(body=b)) for b in bs]
