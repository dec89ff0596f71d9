"""F05: every input byte is accounted for."""
from checks.framing_common import (ALPHA, FRAMING, build, notice_ids,
                                   same_text)
from httpolice.framing1 import parse_streams
from httpolice.stream import Stream
from httpolice.structure import okay
from sx.ctx import Task
from sx.files import ByteFile

FUNCTIONS = ['framing1.parse_streams and everything it calls',
             'stream.Stream.*']
ASSUMPTIONS = ['file objects follow io.BufferedReader\'s contract']
BOUNDS = {
    'quick': 'arbitrary streams of up to 5 symbolic bytes; complete messages '
             'with symbolic parts, whole and cut at every byte',
    'thorough': 'arbitrary streams of up to 7 symbolic bytes',
}
OUTSIDE = 'longer unstructured input'

INCOMPLETE = frozenset([1001, 1002, 1003, 1004, 1005, 1298])


def run(i, o):
    si = Stream(ByteFile(i), name='in') if i is not None else None
    so = Stream(ByteFile(o), name='out') if o is not None else None
    return si, so, list(parse_streams(si, so, 'http'))


def all_ids(exs):
    out = []
    for ex in exs:
        out += [c.id for c in ex.complaints]
        for m in [ex.request] + list(ex.responses):
            if m is not None:
                out += notice_ids(m)
    return [x for x in out if x in FRAMING]


def offset_of(msg):
    return int(msg.remark.rsplit(' ', 1)[1])


def h_any(ctx, inbound, outbound):
    """Whatever the bytes: what is left unread is reported, and a stream
    given up midway carries a notice that says why."""
    i = build(ctx, inbound, 'i') if inbound is not None else None
    o = build(ctx, outbound, 'o') if outbound is not None else None
    si, so, exs = run(i, o)
    ids = all_ids(exs)
    ctx.observe(ids)
    for s, data, rest in ((si, i, 1007), (so, o, 1010)):
        if s is None:
            continue
        left = s.file.pos < len(data)
        boxes = [c for ex in exs for c in ex.complaints if c.id == rest]
        ctx.check(len(boxes) == (1 if left else 0),
                  'unread data reported once', rest, s.file.pos, len(data))
        if left:
            ctx.check(boxes[0].context['offset'] == s.file.pos,
                      'reported offset')
        ctx.cover('%d %s' % (rest, left))
    # messages start where the previous one ended, the first one at 0
    for s, data, side in ((si, i, 'req'), (so, o, 'resp')):
        if s is None:
            continue
        msgs = [ex.request for ex in exs if ex.request is not None] \
            if side == 'req' else [r for ex in exs for r in ex.responses]
        if msgs:
            ctx.check(offset_of(msgs[0]) == 0, 'first message at offset 0')
        elif len(data):
            bad = 1006 if side == 'req' else 1009
            ctx.check(bad in ids or (side == 'resp' and 1010 in ids),
                      'no message, so a notice', ids)
        for n, m in enumerate(msgs[1:]):
            ctx.check(offset_of(m) > offset_of(msgs[n]),
                      'messages do not overlap')


REQS = [
    # (text of a complete message, pieces: method target name value body)
    ('{1:t}{1:t} /{1:t} HTTP/1.1\r\n{1:t}x:{1:v}\r\n\r\n', b''),
    ('POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n{3}', None),
    ('POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n{2}\r\n'
     '1;x={1:t}\r\n{1}\r\n0\r\nT: {1:t}\r\n\r\n', None),
    ('A / HTTP/1.0\nB: c\n\n', b''),
    ('A / HTTP/1.0\r\nB: c\r\n d\r\n\r\n', b''),
]
RESPS = [
    ('HTTP/1.1 200 {1:t}\r\nContent-Length: 2\r\n\r\n{2}', None),
    ('HTTP/1.1 204 \r\nA: {2:t}\r\n\r\n', b''),
    ('HTTP/1.1 {2|3|4|5}{1:d}0 \r\nTransfer-Encoding: chunked\r\n\r\n'
     '3\r\n{3}\r\n0\r\n\r\n', None),
]
ALPHA['v'] = bytes(range(33, 127))
CLEAN = frozenset([1016, 1224])


def h_complete(ctx, template, kind, copies):
    """Only complete messages: no framing notice, nothing lost."""
    msg = build(ctx, template, 'm')
    data = msg * copies
    if kind == 'req':
        s, _, exs = run(data, None)
        msgs = [ex.request for ex in exs]
    else:
        inb = b'GET / HTTP/1.1\r\n\r\n' * copies
        _, s, exs = run(inb, data)
        msgs = [r for ex in exs for r in ex.responses]
    ids = all_ids(exs)
    ctx.observe(ids)
    ctx.check([x for x in ids if x not in CLEAN] == [],
              'complete messages get no framing notice', ids)
    ctx.check(len(msgs) == copies and all(m is not None for m in msgs),
              'each message is reported')
    ctx.check(s.file.pos == len(data), 'everything was read')
    for n, m in enumerate(msgs):
        ctx.check(offset_of(m) == n * len(msg), 'message offset')
        ctx.check(okay(m.body), 'body available')
    ctx.cover('complete')


def h_cut(ctx, template, kind):
    """A message cut at any byte is never reported as complete."""
    msg = build(ctx, template, 'm')
    k = ctx.int('cut', 1, len(msg) - 1)
    for j in range(1, len(msg)):
        if k == j:
            data = msg[:j]
            break
    if kind == 'req':
        s, _, exs = run(data, None)
        msgs = [ex.request for ex in exs if ex.request is not None]
    else:
        _, s, exs = run(b'GET / HTTP/1.1\r\n\r\n', data)
        msgs = [r for ex in exs for r in ex.responses]
    ids = all_ids(exs)
    ctx.observe(ids)
    if msgs:
        ctx.check(len(msgs) == 1 and not okay(msgs[0].body) and
                  any(x in INCOMPLETE for x in notice_ids(msgs[0])),
                  'cut message reported as complete', ids)
        ctx.cover('cut in body')
    else:
        ctx.check((1006 if kind == 'req' else 1009) in ids,
                  'cut heading reported', ids)
        ctx.cover('cut in heading')


def tasks(tier):
    n = 7 if tier == 'thorough' else 5
    G = 'GET / HTTP/1.1\r\n\r\n'
    any_ = [('{%d:k}' % n, None), (None, '{%d:k}' % n), ('{2}', '{2}'),
            (G + '{3}', '{3}'), (G, 'HTTP/1.1 {3}\r\n\r\n{1}'),
            ('{4}' + G, 'HTTP/1.1 200 OK\r\n\r\nab'),
            ('A / HTTP/1.1\r\n{4}\r\n\r\nx', None),
            ('A / HTTP/1.1\r\n{Content-Length: 2|Transfer-Encoding: chunked|'
             'Transfer-Encoding: x|Content-Length: x}\r\n\r\n{4}' + G, None),
            (G + G, 'HTTP/1.1 {3:d} x\r\n{Content-Length: 2|'
             'Transfer-Encoding: chunked|Content-Length: x|A: b}\r\n\r\n'
             '{3}HTTP/1.1 204 x\r\n\r\n'),
            ('CONNECT a:1 HTTP/1.1\r\n\r\n{2}',
             'HTTP/1.1 {1:d}00 x\r\n\r\n{2}')]
    ts = [Task('h_any', dict(inbound=i, outbound=o)) for i, o in any_]
    for kind, ms in (('req', REQS), ('resp', RESPS)):
        for t, _ in ms:
            for c in (1, 2):
                ts.append(Task('h_complete',
                               dict(template=t, kind=kind, copies=c),
                               expect=['complete']))
            ts.append(Task('h_cut', dict(template=t, kind=kind),
                           expect=['cut in heading']))
    return ts
