"""F01: start lines and header fields."""
from checks.framing_common import both
from sx.ctx import Task

FUNCTIONS = ['framing1.parse_streams', 'framing1._parse_request_heading',
             'framing1._parse_response_heading', 'framing1.parse_header_fields',
             'stream.Stream.readline/readlineend/peek/read', 'structure.HeaderEntry']
BOUNDS = {
    'quick': 'requests and responses matching 40 templates with 2-6 fully '
             'symbolic bytes each (every byte value unless the template '
             'names an alphabet) in the start line, field name, value, fold '
             'and line-end positions',
    'thorough': 'as quick, plus templates with up to 8 symbolic bytes',
}
OUTSIDE = 'more simultaneous unusual bytes than the templates have holes'
ASSUMPTIONS = ['file objects follow io.BufferedReader\'s tell/peek/read/readline contract']


def h_streams(ctx, inbound=None, outbound=None):
    both(ctx, inbound, outbound, ('start', 'fields', 'notices'))


REQ = [
    '{3}',
    'GET / HTTP/1.1{3}',
    '{2} / HTTP/1.1\r\n\r\n',
    'A{2}B HTTP/1.1\r\n\r\n',
    'GET {2} HTTP/1.1\r\n\r\n',
    'GET /{2}HTTP/1.1\r\n\r\n',
    'GET / {1}TTP{1}1.1\r\n\r\n',
    'GET / HTTP/{3}\r\n\r\n',
    'GET / HTTP/{1}{1}{1}\r\nA: b\r\n\r\n',
    'GET / HTTP/1.1\r\n{4}\r\n\r\n',
    'GET / HTTP/1.1\r\nA{2}b\r\n\r\n',
    'GET / HTTP/1.1\r\nA:{3}\r\n\r\n',
    'GET / HTTP/1.1\r\nA: b{3}\r\n\r\n',
    'GET / HTTP/1.1\r\nA: b\r\n{2}c\r\n\r\n',
    'GET / HTTP/1.1\r\nA: b\r\n{1}\r\n{1}d\r\n\r\n',
    'GET / HTTP/1.1\nA: b{1}\n C: d\n{2}',
    'GET / HTTP/1.1\r\nA: b\r\nC{2}d\r\n{2}',
]
RESP = [
    '{3}',
    'HTTP/1.1 200{3}',
    'HTTP/1.1 {3} OK\r\n\r\n',
    'HTTP/1.1{2}200 OK\r\n\r\n',
    'HTTP/{3} 200 OK\r\n\r\n',
    '{1}TTP{1}1.1 204 \r\n\r\n',
    'HTTP/1.1 204{2}OK\r\n\r\n',
    'HTTP/1.1 204 {3}\r\n\r\n',
    'HTTP/1.1 204 a{2}b\r\n\r\n',
    'HTTP/1.1 204 OK\r\n{4}\r\n\r\n',
    'HTTP/1.1 204 OK\r\nA:{3}\r\n\r\n',
    'HTTP/1.1 204 OK\r\nA: b\r\n{2}c\r\n{2}',
]



DEEP_REQ = [
    '{5:k}',
    '{3} {3} HTTP/1.1\r\n\r\n',
    'GET / HTTP/1.1\r\n{6:nl}\r\n\r\n',
    'GET / HTTP/1.1\r\nA:{5:k}',
    'GET / HTTP/1.1\r\nA: b\r\n{3}\r\n{2}',
    'G / HTTP/1.1\r\n\r\n{3}P / HTTP/1.0\n\n',
]
DEEP_RESP = [
    '{5:k}',
    'HTTP/1.1 {5}\r\n\r\n',
    'HTTP/1.1 204 OK\r\n{6:nl}\r\n\r\n',
    'HTTP/1.1 204 OK\r\nA:{5:k}',
    'HTTP/1.1 204 \r\n\r\n{3}HTTP/1.0 304 x\n\n',
]


def tasks(tier):
    req, resp = list(REQ), list(RESP)
    req += DEEP_REQ
    resp += DEEP_RESP
    if tier == 'thorough':
        req += ['{7:k}', 'GET / HTTP/1.1\r\n{8:nl}\r\n\r\n',
                'GET / HTTP/1.1\r\n{6}', 'G {5} HTTP/1.1\r\n\r\n',
                'GET / HTTP/1.1\r\nA:{4}\r\n{4}']
        resp += ['{7:k}', 'HTTP/1.1 204 OK\r\n{8:nl}\r\n\r\n',
                 'HTTP/1.1 204 OK\r\n{6}', '{5} 204 OK\r\n\r\n']
    return [Task('h_streams', dict(inbound=t)) for t in req] + \
        [Task('h_streams', dict(outbound=t)) for t in resp]
