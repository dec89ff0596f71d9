"""N07: previews of message bodies."""

import gzip
import zlib

from httpolice import Exchange, Request, Response
from httpolice.exchange import check_exchange
from httpolice.structure import Unavailable
from checks.N05 import Report
from checks.report_common import shown
from sx.ctx import Task

FUNCTIONS = ['httpolice.message.Message.displayable_body',
             'httpolice.message.Message.decoded_body',
             'httpolice.message.Message.unicode_body',
             'httpolice.message.Message.guessed_charset',
             'httpolice.message.Message.json_data',
             'httpolice.util.text.printable', 'httpolice.util.text.nicely_join',
             'httpolice.reports.html._render_message', 'json.decoder',
             'json.encoder']
BOUNDS = {
    'quick': 'bodies of 0-3 arbitrary bytes (also after other text) under 9 '
             'charset parameters, 4 Content-Encodings, Transfer-Encoding, '
             'request or response; bodies of 998-1002 characters, of 1 or 2 '
             'bytes each, with 1-2 arbitrary bytes around the limit; 11 JSON '
             'documents with a symbolic character, digit or letter, under 5 '
             'charsets and 4 media types; each also checked first or not; '
             'HTML reports of the combinations of six transformations',
    'thorough': 'one more symbolic byte'}
ASSUMPTIONS = ['zlib (C) runs on concrete data',
               'json.dumps and json.loads of symbolic data go through the '
               'pure Python implementation in the standard json module']
OUTSIDE = ['charsets other than the listed ones',
           'JSON numbers that are not integers or short decimals, repeated '
           'names in JSON objects']


CHOPPED = u'taking the first 1000 characters'
REPLACED = u'replacing non-printable characters with the \ufffd sign'


def utf8(data):
    """Characters and their validity, by RFC 3629 (see D92 in Unicode)"""
    out, i, good = u'', 0, True
    while i < len(data):
        b = data[i]
        if b < 0x80:
            out, i = out + chr(b), i + 1
            continue
        if b < 0xC2 or b > 0xF4:
            out, i, good = out + u'\ufffd', i + 1, False
            continue
        size = 2 if b < 0xE0 else 3 if b < 0xF0 else 4
        low, high = 0x80, 0xBF
        if b == 0xE0:
            low = 0xA0
        elif b == 0xED:
            high = 0x9F
        elif b == 0xF0:
            low = 0x90
        elif b == 0xF4:
            high = 0x8F
        j = i + 1
        point = b % (0x20 if size == 2 else 0x10 if size == 3 else 8)
        while j < len(data) and j < i + size and \
                low <= data[j] and data[j] <= high:
            point = point * 64 + (data[j] - 0x80)
            low, high = 0x80, 0xBF
            j += 1
        if j == i + size:
            out = out + chr(point)
        else:
            out, good = out + u'\ufffd', False
        i = j
    return out, good


# charset parameter -> how to read bytes, name in the report
CHARSETS = {None: ('utf-8', None), b'UTF-8': ('utf-8', None),
            b'us-ascii': ('ascii', 'ascii'),
            b'ISO-8859-1': ('latin', 'iso8859-1'),
            b'latin1': ('latin', 'iso8859-1'),
            b'x-unknown': (None, None), b'hex': (None, None),
            b'"utf-8"': ('utf-8', None), b'': (None, None)}


def read(data, how):
    if how == 'utf-8':
        text, good = utf8(data)
        return text if good else None
    if how == 'ascii':
        for b in data:
            if b >= 0x80:
                return None
        return data.decode('iso-8859-1')
    if how == 'latin':
        return data.decode('iso-8859-1')
    return None


def message(side, headers, body, checked, status=200):
    mine, other = (headers, body), ((), b'')
    if side == u'request':
        mine, other = other, mine
    req = Request(u'http', u'POST', u'/', u'HTTP/1.1',
                  [(u'Host', b'example.com')] + list(other[0]), other[1])
    resp = Response(u'HTTP/1.1', status, u'OK', list(mine[0]), mine[1])
    exch = Exchange(req, [resp])
    if checked:
        check_exchange(exch)
    return exch, (req if side == u'request' else resp)


def content_type(base, charset):
    if charset is None:
        return base
    if charset == b'':
        return base + b'; charset=""'
    return base + b'; charset=' + charset


def plan(body, decoded, charset, te, ce):
    """What to show before cutting; which steps were made"""
    steps = [u'removing Transfer-Encoding'] if te else []
    how, label = CHARSETS[charset]
    if decoded is None:
        return utf8(body)[0], steps
    if ce:
        steps = steps + [u'removing Content-Encoding']
    text = read(decoded, how)
    if text is None:
        return utf8(decoded)[0], steps
    if label:
        steps = steps + [u'decoding from ' + label]
    return text, steps


def finish(text, steps):
    if len(text) > 1000:
        text, steps = text[:1000], steps + [CHOPPED]
    r = shown(text)
    if r != text:
        steps = steps + [REPLACED]
    return r, steps


def judge(ctx, msg, want, *detail):
    text, steps = want
    got, transforms = msg.displayable_body
    ctx.check(got == text, 'text', got, text, *detail)
    ctx.check(list(transforms) == steps, 'steps', list(transforms), steps,
              *detail)
    again = msg.displayable_body
    ctx.check((again[0] == got) & (list(again[1]) == list(transforms)),
              'stable', *detail)
    ctx.cover('cut' if CHOPPED in steps else 'whole')


def coded(ctx, te):
    headers = []
    if te:
        headers.append((u'Transfer-Encoding', b'chunked'))
    ce = ctx.choice('ce', (None, b'foo', b'"', b''))
    if ce is not None:
        headers.append((u'Content-Encoding', ce))
    return headers, ce


def h_text(ctx, n, charset):
    side, te, base, checked = u'response', False, b'text/plain', False
    headers, ce = [], None
    if n < 2:
        side = ctx.choice('side', (u'request', u'response'))
        te = ctx.flag('te')
        headers, ce = coded(ctx, te)
        base = ctx.choice('type', (b'text/plain', b'a/b'))
        checked = ctx.flag('checked')
    headers.append((u'Content-Type', content_type(base, charset)))
    body = ctx.bytes('b', n)
    if n < 3:
        body = ctx.choice('prefix', (b'', b'x', b'\xc3\xa9')) + body
    decoded = body
    if ce is not None:
        decoded = None
    ctx.assume(len(body) > 0)
    _, msg = message(side, headers, body, checked)
    judge(ctx, msg, finish(*plan(body, decoded, charset, te, False)), body,
          charset, ce)


def h_gzip(ctx):
    """Real codings"""
    kind = ctx.choice('kind', ('gzip', 'deflate', 'cut', 'both', 'foo inside'))
    charset = ctx.choice('charset', (None, b'ISO-8859-1', b'us-ascii'))
    plain = ctx.choice('plain', (b'abc', b'a\xe9c', b'\x00\x00', b'x' * 1001,
                                 u'\xe9'.encode()))
    te = ctx.flag('te')
    decoded = plain
    if kind == 'deflate':
        ce, body = b'deflate', zlib.compress(plain)
    elif kind == 'both':
        ce, body = b'deflate, gzip', gzip.compress(zlib.compress(plain),
                                                   mtime=0)
    else:
        ce, body = b'gzip', gzip.compress(plain, mtime=0)
        if kind == 'cut':
            body, decoded = body[:-9], None
        if kind == 'foo inside':
            ce, decoded = b'foo, gzip', None
    headers = [(u'Content-Encoding', ce),
               (u'Content-Type', content_type(b'text/plain', charset))]
    if te:
        headers.append((u'Transfer-Encoding', b'chunked'))
    _, msg = message(u'response', headers, body, ctx.flag('checked'))
    judge(ctx, msg, finish(*plan(body, decoded, charset, te, True)), plain,
          kind, charset)


def h_cut(ctx, total, n, wide, charset):
    """Around the limit of 1000 characters"""
    unit = b'\xc3\xa9' if wide else b'x'
    k = total - n
    where = ctx.choice('where', ('end', 'before'))
    s = ctx.bytes('b', n)
    body = unit * k + s if where == 'end' else \
        unit * (k - 1) + s + unit
    headers = [(u'Content-Type', content_type(b'text/plain', charset))]
    _, msg = message(u'response', headers, body, False)
    judge(ctx, msg, finish(*plan(body, body, charset, False, False)), total,
          where, charset)


def h_none(ctx):
    """No body, or none that is known"""
    side = ctx.choice('side', (u'request', u'response'))
    kind = ctx.choice('kind', ('unknown', 'unavailable', 'lost'))
    te = ctx.flag('te')
    headers = [(u'Content-Type', ctx.choice(
        'type', (b'text/plain', b'application/json', b'a/b;charset=latin1')))]
    if te:
        headers.append((u'Transfer-Encoding', b'chunked'))
    if ctx.flag('ce'):
        headers.append((u'Content-Encoding', b'gzip'))
    body = {'unknown': None, 'unavailable': Unavailable(None),
            'lost': Unavailable(b'{}')}[kind]
    exch, msg = message(side, headers, body, True)
    got, transforms = msg.displayable_body
    if body is None:
        ctx.check(got is None, 'unknown', got)
    else:
        ctx.check(isinstance(got, Unavailable), 'unavailable', got)
    ctx.check(list(transforms) == [], 'steps', list(transforms))
    r = Report(ctx, exch)
    boxes = (r.body if side == u'response' else
             [b for b in r.root.all(u'div', u'body-display')])
    ctx.check([[h.text() for h in b.direct(u'h3')] for b in boxes] ==
              [[u'Body is unknown' if body is None else
                u'Body is present, but not available for inspection']] and
              not boxes[0].direct(u'pre'), 'said so')
    ctx.cover('done')


class Raw:
    """JSON source with its rendering"""

    def __init__(self, source, shown_as=None):
        self.source = source
        self.shown_as = source if shown_as is None else shown_as


def source(tree):
    if isinstance(tree, Raw):
        return tree.source
    if isinstance(tree, list):
        out = u'['
        for i, x in enumerate(tree):
            out = out + (u',' if i else u'') + source(x)
        return out + u']'
    out = u'{'
    for i, (k, v) in enumerate(tree):
        out = out + (u' , ' if i else u'') + source(k) + u':' + source(v)
    return out + u'}'


def pretty(tree, level=0):
    if isinstance(tree, Raw):
        return tree.shown_as
    left, right = (u'[', u']') if isinstance(tree, list) else (u'{', u'}')
    if not len(tree):
        return left + right
    out = left
    for i, x in enumerate(tree):
        out = out + (u',\n' if i else u'\n') + u'  ' * (level + 1)
        if isinstance(tree, list):
            out = out + pretty(x, level + 1)
        else:
            out = out + pretty(x[0]) + u': ' + pretty(x[1], level + 1)
    return out + u'\n' + u'  ' * level + right


PLAIN = frozenset(range(0x20, 0x100)) - frozenset(b'"\\')
ESCAPED = ((u'\\n', u'\\n'), (u'\\u000a', u'\\n'), (u'\\/', u'/'),
           (u'\\"', u'\\"'), (u'\\\\', u'\\\\'), (u'\\u00e9', u'\xe9'),
           (u'\\u0001', u'\\u0001'), (u'\\u007f', u'\x7f'),
           (u'\\ud83d\\ude00', u'\U0001f600'), (u'\\ud800', u'\ud800'))


def string(ctx, name, avoid=b''):
    kind = ctx.choice(name + ' kind', ('plain', 'escape'))
    if kind == 'plain':
        c = ctx.text(name, 1, PLAIN - frozenset(avoid))
        return Raw(u'"' + c + u'"')
    a, b = ctx.choice(name + ' escape', ESCAPED)
    return Raw(u'"x' + a + u'"', u'"x' + b + u'"')


def digit(ctx, name):
    return Raw(ctx.text(name, 1, b'123456789') + u'0')


ONE = Raw(u'1')
DOCS = {
    'string': lambda ctx: string(ctx, 's'),
    'array': lambda ctx: [string(ctx, 's'), ONE],
    'object': lambda ctx: ((Raw(u'"a"'), string(ctx, 's')),
                           (Raw(u'"b"'), ONE)),
    'name': lambda ctx: ((string(ctx, 's'), ONE),),
    'nested': lambda ctx: [((Raw(u'"z"'), [ONE, []]), (string(ctx, 's', b'z'), ())),
                           [[Raw(u'"t"')]]],
    'empty': lambda ctx: ctx.choice('e', ([], (), Raw(u'""'), [[]])),
    'number': lambda ctx: ctx.choice('e', (
        Raw(u'0'), Raw(u'-1'), Raw(u'1.5'), Raw(u'12345678901234567890123'))),
    'digits': lambda ctx: [digit(ctx, 's')],
    'word': lambda ctx: ctx.choice('e', (
        Raw(u'true'), Raw(u'false'), [Raw(u'null'), Raw(u'true')])),
    'order': lambda ctx: ((Raw(u'"b"'), ONE), (Raw(u'"a"'), ONE),
                          (string(ctx, 's', b'ab'), [Raw(u'null')])),
    'long': lambda ctx: [Raw(u'"' + u'x' * ctx.choice('len', range(982, 994)) +
                             u'"'), digit(ctx, 's')],
}
JSON_CHARSETS = (None, b'us-ascii', b'ISO-8859-1', b'x-unknown', b'UTF-8')


def h_json(ctx, doc):
    tree = DOCS[doc](ctx)
    src = source(tree)
    charset = ctx.choice('charset', JSON_CHARSETS)
    base = ctx.choice('type', (b'application/json', b'application/x+json',
                               b'text/plain', b'application/json5'))
    full = ctx.flag('full')
    te = ctx.flag('te')
    how = CHARSETS[charset][0]
    if how in ('utf-8', None):
        body = src.encode('utf-8')
    else:
        body = src.encode('iso-8859-1')
    headers = [(u'Content-Type', content_type(base, charset))]
    if te:
        headers.append((u'Transfer-Encoding', b'chunked'))
    _, msg = message(u'response', headers, body, False, 200 if full else 206)
    text, steps = plan(body, body, charset, te, False)
    if full and base in (b'application/json', b'application/x+json') and \
            how is not None and read(body, how) is not None:
        text, steps = pretty(tree), steps + [u'pretty-printing']
        ctx.cover('pretty')
    judge(ctx, msg, finish(text, steps), src, charset, base)


def h_bad_json(ctx, n):
    """What is not JSON is shown as text."""
    body = ctx.choice('b', (b'{"a":1', b'{}}', b'{"a": 01}', b'{,}')) + \
        ctx.bytes('s', n, b' \t;:!~')
    headers = [(u'Content-Type', b'application/json')]
    _, msg = message(u'response', headers, body, ctx.flag('checked'))
    judge(ctx, msg, finish(body.decode('iso-8859-1'), []), body)


def h_null(ctx):
    """JSON null"""
    before = ctx.choice('before', (u'', u' '))
    src = before + u'null'
    headers = [(u'Content-Type', b'application/json')]
    _, msg = message(u'response', headers, src.encode(), ctx.flag('checked'))
    got, steps = msg.displayable_body
    ctx.check(got.strip(u' ') == u'null', 'null', got)
    ctx.cover('done')


def phrase(steps):
    if len(steps) == 1:
        return steps[0]
    if len(steps) == 2:
        return steps[0] + u' and ' + steps[1]
    return u', '.join(steps[:-1]) + u', and ' + steps[-1]


def h_html(ctx):
    """The heading over the preview, and its contents"""
    te, ce, charset, is_json, long_, bad, empty = [
        ctx.flag(x) for x in ('te', 'ce', 'charset', 'json', 'long', 'bad',
                              'empty')]
    c = ctx.text('c', 1, b'<&>"\'a' if not ce else b'<')
    inner = (u'' if ce else c) + (u'\xe9' if charset else u'') + \
        (u'x' * 1000 if long_ else u'') + (u'\x7f' if bad else u'')
    ctx.assume(not is_json or (c != u'"'))
    ctx.assume(not (is_json and ce))
    ctx.assume(not empty or not (is_json or bad or long_ or charset or ce))
    if bad and long_:
        inner = u'\x7f' + inner
    text = [Raw(u'"' + inner + u'"')] if is_json else Raw(inner)
    src = u'' if empty else source(text)
    body = src.encode('iso-8859-1' if charset else 'utf-8')
    headers = [(u'Content-Type', content_type(
        b'application/json' if is_json else b'text/plain',
        b'ISO-8859-1' if charset else None))]
    steps = []
    if te:
        headers.append((u'Transfer-Encoding', b'chunked'))
        steps.append(u'removing Transfer-Encoding')
    if ce:
        headers.append((u'Content-Encoding', b'gzip'))
        body = gzip.compress(body, mtime=0)
        steps.append(u'removing Content-Encoding')
    if charset:
        steps.append(u'decoding from iso8859-1')
    if is_json:
        steps.append(u'pretty-printing')
    want, steps = finish(u'' if empty else pretty(text), steps)
    exch, _ = message(u'response', headers, body, True)
    r = Report(ctx, exch)
    if want == u'':
        ctx.check(r.body == [], 'nothing to show')
        ctx.cover('nothing')
    else:
        ctx.check(len(r.body) == 1, 'shown')
        head = [h.text() for h in r.body[0].direct(u'h3')]
        ctx.check(head == ([u'Body after ' + phrase(steps)] if steps else []),
                  'heading', head, steps)
        pre = r.body[0].direct(u'pre')
        ctx.check(len(pre) == 1 and pre[0].text() == want, 'preview',
                  pre[0].text(), want)
        ctx.cover('preview')


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for charset in CHARSETS:
        for n in range(4 + m):
            if n > 2 and charset not in (None, b'us-ascii'):
                continue
            out.append(Task('h_text', dict(n=n, charset=charset),
                            max_paths=60000, expect=('whole',)))
    out.append(Task('h_gzip', dict(), expect=('whole', 'cut')))
    for total in range(998, 1004):
        for wide in (False, True):
            for charset in (None, b'ISO-8859-1') if not wide else (None,):
                for n in range(1, 3 + m):
                    out.append(Task('h_cut', dict(
                        total=total, n=n, wide=wide, charset=charset),
                        max_paths=20000))
    out.append(Task('h_none', dict(), expect=('done',)))
    for doc in DOCS:
        out.append(Task('h_json', dict(doc=doc), max_paths=60000,
                        expect=('pretty', 'whole')))
    for n in range(3 + m):
        out.append(Task('h_bad_json', dict(n=n), expect=('whole',)))
    out.append(Task('h_null', dict(), expect=('done',)))
    out.append(Task('h_html', dict(), max_paths=20000,
                    expect=('preview', 'nothing')))
    return out
