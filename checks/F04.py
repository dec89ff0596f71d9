"""F04: pairing of pipelined requests and responses."""
from checks.framing_common import both
from sx.ctx import Task

FUNCTIONS = ['framing1.parse_streams', 'framing1._parse_responses',
             'framing1._parse_response_body', 'exchange.Exchange',
             'exchange.complaint_box']
ASSUMPTIONS = ['file objects follow io.BufferedReader\'s contract']
BOUNDS = {
    'quick': 'up to 3 requests and 4 responses in every combination of 4 '
             'methods/garbage and symbolic status codes',
    'thorough': 'up to 4 requests and 5 responses',
}
OUTSIDE = 'longer pipelines'

Q = ('{GET /q%d HTTP/1.1\r\n\r\n|HEAD /q%d HTTP/1.1\r\n\r\n|'
     'CONNECT q%d HTTP/1.1\r\n\r\n|POST /q%d HTTP/1.0\r\n'
     'Content-Length: 1\r\n\r\nx|}')
S = '{HTTP/1.1 %s r%d\r\nContent-Length: 2\r\n\r\nab|' \
    'HTTP/1.1 %s r%d\r\n\r\n|}'


def req(n):
    return Q.replace('%d', str(n))


def resp(n, codes):
    return '{' + '|'.join(
        'HTTP/1.1 %s r%d\r\nContent-Length: 0\r\n\r\n' % (c, n)
        for c in codes) + '|}'


CODES = ('100', '199', '101', '200', '204', '304', '299', '300')


def h_pipeline(ctx, inbound, outbound):
    both(ctx, inbound, outbound, ('start', 'body', 'notices'))


def tasks(tier):
    G = 'GET / HTTP/1.1\r\n\r\n'
    OK = 'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n'
    pairs = [
        (req(1) + req(2), resp(1, CODES) + resp(2, CODES)),
        (G + G + G, ''.join(resp(i, ('100', '200', '101', '304'))
                            for i in range(4))),
        (req(1) + G, 'HTTP/1.1 {3:d} a\r\nContent-Length: 0\r\n\r\n' + OK),
        (G + G, 'HTTP/1.1 {1:d}{0|1|9}{1:d} a\r\nContent-Length: 0\r\n\r\n'
         'HTTP/1.1 {1:d}00 b\r\nContent-Length: 0\r\n\r\n' + OK),
        (req(1) + '{garbage\r\n|GET\r\n|}' + G, OK + resp(2, CODES) + OK),
        (G + G, OK + '{garbage\r\n|HTTP/1.1 20 x\r\n\r\n|}' + OK),
        (None, resp(1, CODES) + resp(2, CODES) + resp(3, CODES)),
        (req(1), resp(1, CODES) + resp(2, CODES) + resp(3, ('100', '200'))),
        (G + '{5}', OK + OK),
        (G + G, OK + '{5}'),
        (G + 'POST / HTTP/1.1\r\nContent-Length: {1:d}\r\n\r\nabc' + G,
         OK + OK + OK),
        (G + G, 'HTTP/1.1 200 OK\r\nContent-Length: {1:d}\r\n\r\nabc' + OK),
        ('CONNECT a:1 HTTP/1.1\r\n\r\n' + G + '{2}',
         '{|HTTP/1.1 100 C\r\n\r\n}HTTP/1.1 {3:d} OK\r\n\r\n' + '{2}' + OK),
        (G + G, 'HTTP/1.1 101 SP\r\n\r\n{2}' + OK),
        ('{CONNECT|HEAD|GET} / HTTP/1.1\r\n\r\n' + G,
         'HTTP/1.1 {1:d}{2:d} x\r\nContent-Length: {0|2}\r\n\r\nab' + OK),
    ]
    if tier == 'thorough':
        pairs += [
            (req(1) + req(2) + req(3), ''.join(
                resp(i, ('100', '101', '200', '304')) for i in range(4))),
            (req(1) + req(2) + G + G, ''.join(
                resp(i, ('100', '200', '101')) for i in range(5))),
        ]
    return [Task('h_pipeline', dict(inbound=i, outbound=o), 'pair %d' % n)
            for n, (i, o) in enumerate(pairs)]
