"""N06: the text utilities behind the reports."""

from httpolice.util.text import (contains_percent_encodes, detypographize,
                                 ellipsize, force_bytes, force_unicode,
                                 format_chars, is_ascii, nicely_join,
                                 normalize_whitespace, printable)
from checks.values_common import codes
from sx.ctx import Task

FUNCTIONS = ['httpolice.util.text.' + n for n in (
    'printable', 'ellipsize', 'format_chars', '_char_ranges', 'nicely_join',
    'detypographize', 'normalize_whitespace', 'contains_percent_encodes',
    'is_ascii', 'force_unicode', 'force_bytes')]
BOUNDS = {
    'quick': 'printable: strings of up to 3 characters, each any code point '
             '0-0x10FFFF; ellipsize: all lengths 0-12 by all limits 3-12, '
             'symbolic characters; format_chars: sorted sequences of up to 3 '
             'distinct bytes, all values; nicely_join: up to 5 strings of 0-2 '
             'symbolic characters; the rest: up to 4 characters',
    'thorough': 'the same with one more character',
}
OUTSIDE = 'longer strings'
ASSUMPTIONS = ['ref: XML 1.0 section 2.2 (control characters, surrogates, '
               'non-characters of the BMP) plus U+007F-U+009F, as documented '
               'in printable()']

# what cannot be shown: inclusive ranges
BAD = ((0x00, 0x08), (0x0b, 0x0c), (0x0e, 0x1f), (0x7f, 0x9f),
       (0xd800, 0xdfff), (0xfdd0, 0xfdef), (0xfffe, 0xffff))


def text(ctx, n, top=0x10ffff):
    s = u''
    for i in range(n):
        s = s + chr(ctx.int('c%d' % i, 0, top))
    return s


def h_printable(ctx, n):
    s = text(ctx, n)
    r = printable(s)
    ctx.check(len(r) == len(s), 'as many characters', s, r)
    for c, d in zip(s, r):
        bad = False
        for lo, hi in BAD:
            bad = bad | ((ord(c) >= lo) & (ord(c) <= hi))
        want_it = ord(d) == 0xfffd
        kept = ord(d) == ord(c)
        if bad:
            ctx.check(want_it, 'replaced', s, r)
            ctx.cover('bad')
        else:
            ctx.check(kept, 'kept', s, r)
            ctx.cover('good')


def h_ellipsize(ctx, n):
    s = text(ctx, n)
    limit = ctx.choice('limit', range(3, 13))
    r = ellipsize(s, limit)
    if n <= limit:
        ctx.check(codes(r) == codes(s), 'short enough: as it is', s, r)
    else:
        ctx.check((len(r) == limit) &
                  (codes(r[:limit - 3]) == codes(s[:limit - 3])) &
                  (codes(r[limit - 3:]) == codes(u'...')),
                  'a prefix and an ellipsis', s, limit, r)


def h_ellipsize_default(ctx):
    n = ctx.choice('n', (59, 60, 61, 62))
    s = u'x' * (n - 2) + text(ctx, 2)
    r = ellipsize(s)
    ctx.check(codes(r) == codes(s if n <= 60 else s[:57] + u'...'),
              'at most 60 characters', s, r)


NAMES = {9: u'tab', 10: u'LF', 13: u'CR', 32: u'space',
         34: u'double quote (")', 39: u"single quote (')",
         44: u'comma (,)', 46: u'period (.)', 58: u'colon (:)',
         59: u'semicolon (;)', 45: u'dash (-)'}
LETTERS = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
DIGITS = frozenset(b'0123456789')


def denoted(description):
    """The ranges of bytes that a description of characters lists."""
    out = []
    for piece in description.split(u' or '):
        name = [k for k, v in NAMES.items() if v == piece]
        if name:
            out.append((name[0], name[0]))
        elif piece.startswith(u'0x') and len(piece) >= 4:
            ends = [int(x, 16) for x in piece.split(u'–')]
            out.append((ends[0], ends[-1]))
        elif len(piece) == 3 and piece[1] == u'–':
            out.append((ord(piece[0]), ord(piece[2])))
        else:
            out.extend((ord(c), ord(c)) for c in piece)
    return out


def h_format_chars(ctx, n):
    b = ctx.bytes('b', n)
    for i in range(n - 1):
        ctx.assume(b[i] < b[i + 1])
    r = format_chars([b[i:i + 1] for i in range(n)])
    got = denoted(r)
    size = 0
    for lo, hi in got:
        size = size + (hi - lo + 1)
    ctx.check(size == n, 'as many characters', b, r)
    ok = True
    for i in range(n):
        listed = False
        for lo, hi in got:
            listed = listed | ((lo <= b[i]) & (b[i] <= hi))
        ok = ok & listed
    ctx.check(ok, 'exactly these characters', b, r)


def h_nicely_join(ctx, n):
    xs = []
    for i in range(n):
        k = ctx.choice('n%d' % i, (1, 0, 2)) if i < 2 else 1
        xs.append(ctx.bytes('x%d' % i, k).decode('iso-8859-1'))
    r = nicely_join(xs)
    if n == 0:
        want = u''
    elif n == 1:
        want = xs[0]
    elif n == 2:
        want = xs[0] + u' and ' + xs[1]
    else:
        want = u', '.join(xs[:-1]) + u', and ' + xs[-1]
    ctx.check(codes(r) == codes(want), 'joined', xs, r)


PLAIN = ((0x201c, u'"'), (0x201d, u'"'), (0x2018, u"'"), (0x2019, u"'"),
         (0x2014, u'--'), (0x2013, u'-'), (0x2212, u'-'), (0xa0, u' '))


def h_detypographize(ctx, n):
    s = text(ctx, n, top=0x2300)
    r = detypographize(s)
    want = u''
    for c in s:
        for v, p in PLAIN:
            if ord(c) == v:
                want = want + p
                break
        else:
            want = want + c
    ctx.check(codes(r) == codes(want), 'plain punctuation', s, r)


SPACE = frozenset(i for i in range(256) if chr(i).isspace())


def h_whitespace(ctx, n):
    s = ctx.text('s', n)
    r = normalize_whitespace(s)
    want = u''
    run = False
    for c in s:
        if ord(c) in SPACE:
            if not run:
                want = want + u' '
            run = True
        else:
            want = want + c
            run = False
    ctx.check(codes(r) == codes(want), 'runs of whitespace', s, r)


HEX = frozenset(b'0123456789abcdefABCDEF')


def h_percent(ctx, n):
    s = ctx.text('s', n)
    want = False
    for i in range(n - 2):
        want = want | ((ord(s[i]) == 37) & (ord(s[i + 1]) in HEX) &
                       (ord(s[i + 2]) in HEX))
    ctx.check(contains_percent_encodes(s) == want, 'percent-encoded', s)


def h_ascii(ctx, n):
    s = text(ctx, n)
    want = True
    for c in s:
        want = want & (ord(c) < 128)
    ctx.check(is_ascii(s) == want, 'ASCII', s)


def h_force(ctx, n):
    b = ctx.bytes('b', n)
    u = force_unicode(b)
    ok = isinstance(u, str) & (len(u) == n)
    for i in range(n):
        ok = ok & (ord(u[i]) == b[i])
    ctx.check(ok, 'bytes to text', b, u)
    ctx.check(force_bytes(u) == b, 'and back', b)
    ctx.check(force_bytes(b) == b, 'bytes stay', b)
    ctx.check(codes(force_unicode(u)) == codes(u), 'text stays', b)


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for n in range(4 + m):
        out.append(Task('h_printable', dict(n=n),
                        expect=('good', 'bad') if n else ()))
    for n in range(13):
        out.append(Task('h_ellipsize', dict(n=n)))
    out.append(Task('h_ellipsize_default'))
    for n in range(4 + m):
        out.append(Task('h_format_chars', dict(n=n)))
    for n in range(6):
        out.append(Task('h_nicely_join', dict(n=n)))
    for n in range(1, 3 + m):
        out.append(Task('h_detypographize', dict(n=n)))
    for n in range(5 + m):
        out.append(Task('h_whitespace', dict(n=n)))
        out.append(Task('h_percent', dict(n=n)))
        out.append(Task('h_force', dict(n=n)))
    for n in range(4 + m):
        out.append(Task('h_ascii', dict(n=n)))
    return out
