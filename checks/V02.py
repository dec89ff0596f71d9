"""V02: how repeated header fields combine."""

from httpolice import Request, Response
from httpolice.structure import EntityTag, FieldName, Unavailable
from checks.V01 import FOLD, same_text
from checks.values_common import deep
from ref.registry import HEADERS
from sx.ctx import Task

FUNCTIONS = ['httpolice.header.' + x for x in (
    'HeadersView', 'HeaderView', 'UnknownHeaderView', 'SingleHeaderView',
    'MultiHeaderView')] + ['httpolice.message.Message.__init__',
                           'httpolice.known.HeaderKnowledge.rule_for']
BOUNDS = {
    'quick': 'up to 3 entries (2 for fields with long names) split in every way between header and trailer '
             'part; every name a symbolic letter-case variant of the field '
             'or differing from it in its first or last letter; values list/'
             'single/star/empty/malformed with symbolic bytes',
    'thorough': 'up to 4 entries',
}
OUTSIDE = 'more entries than that; fields other than the ones listed here ' \
          '(see G10-G13, V03 for their grammars)'
ASSUMPTIONS = ['a field that is repeated although it has a single value is '
               'represented by its last entry (documented choice)']

LETTERS = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGITS = b'0123456789'
BAD = object()


def slot(uid, alphabet=LETTERS):
    """Different bytes for each entry (repeated complaints are N02)."""
    return alphabet[int(uid[1:])::4]


# each value: (raw, parsed); parsed a list for list-valued fields

def v_tokens(ctx, uid, empty_ok):
    k = ctx.choice(uid, ['a', 'a,b', 'empty', 'bad'])
    if k == 'bad':
        return b'a b' + uid.encode('ascii'), BAD
    if k == 'empty':
        return (b'', []) if empty_ok else (b'a=' + uid.encode('ascii'), BAD)
    x = ctx.text(uid + 'x', 1, slot(uid))
    if k == 'a':
        return x.encode('ascii'), [x]
    y = ctx.text(uid + 'y', 1, LETTERS)
    return (x + u' , ' + y).encode('ascii'), [x, y]


def v_star_tokens(ctx, uid):
    if ctx.flag(uid + 's'):
        return b'*', u'*'
    return v_tokens(ctx, uid, False)


def v_star_tags(ctx, uid):
    k = ctx.choice(uid, ['*', 'a', 'a,b', 'bad'])
    if k == '*':
        return b'*', u'*'
    if k == 'bad':
        return b'"' + uid.encode('ascii'), BAD
    x = ctx.bytes(uid + 'x', 1, slot(uid))
    one = EntityTag(False, u'"' + x.decode('ascii') + u'"')
    if k == 'a':
        return b'"' + x + b'"', [one]
    return b'"' + x + b'",W/"z"', [one, EntityTag(True, u'"z"')]


def v_number(ctx, uid):
    if ctx.flag(uid + 'b'):
        return b'1 ' + ctx.bytes(uid, 1, slot(uid, DIGITS)), BAD
    b = ctx.bytes(uid, 1, slot(uid, DIGITS))
    return b, b[0] - 48


def v_tag(ctx, uid):
    if ctx.flag(uid + 'b'):
        return b'W/' + ctx.bytes(uid, 1, slot(uid)), BAD
    b = b'"' + ctx.bytes(uid, 1, slot(uid)) + b'"'
    return b, EntityTag(False, b.decode('ascii'))


def v_raw(ctx, uid):
    b = ctx.bytes(uid, 1, slot(uid, bytes(range(256))))
    return b, b


FIELDS = {
    # name: (request?, kind, value builder)
    'Allow': (False, 'multi', lambda c, u: v_tokens(c, u, True)),
    'Connection': (True, 'multi', lambda c, u: v_tokens(c, u, False)),
    'Vary': (False, 'multi', v_star_tokens),
    'If-Match': (True, 'multi', v_star_tags),
    'Age': (False, 'single', v_number),
    'Content-Length': (True, 'single', v_number),
    'ETag': (False, 'single', v_tag),
    'X-Y': (False, 'unknown', v_raw),
    'Accept-Features': (True, 'unknown', v_raw),      # known, no syntax
}


def a_name(ctx, uid, field):
    """The field name in any letter case, or something like it"""
    parts = []
    other = ctx.choice(uid, ['same', ('first', 'last')[int(uid[1:]) % 2]])
    last = len(field) - 1
    for i, c in enumerate(field):
        if (other == 'first' and i == 0) or (other == 'last' and i == last):
            parts.append(ctx.text(uid + 'o', 1, LETTERS))
        elif c == '-' or (i % 3 and len(field) > 4):
            parts.append(c)
        else:
            parts.append(ctx.text('%s.%d' % (uid, i), 1,
                                  (c.lower() + c.upper()).encode('ascii')))
    name = u''.join(parts)
    return name, same_text(name, field, FOLD)


def message(request, headers, trailers):
    if request:
        return Request(u'http', u'GET', u'/', u'HTTP/1.1', headers, b'',
                       trailers)
    return Response(u'HTTP/1.1', 200, u'OK', headers, b'', trailers)



def h_entries(ctx, field, n, trailing):
    request, kind, make = FIELDS[field]
    names, hits, vals = [], [], []
    for i in range(n):
        name, hit = a_name(ctx, 'n%d' % i, field)
        names.append(name)
        hits.append(bool(hit))
        # the values of other fields do not matter here
        vals.append(make(ctx, 'v%d' % i) if hits[-1] else (b'x', None))
    raw = [(nm, v[0]) for nm, v in zip(names, vals)]
    cut = n - trailing
    msg = message(request, raw[:cut], raw[cut:])
    forbidden = 't' in HEADERS.get(field.lower(), '')
    mine = [i for i in range(n) if hits[i]]
    ok = [i for i in mine if i < cut or not forbidden]
    all_entries = list(msg.header_entries) + list(msg.trailer_entries)

    view = msg.headers[FieldName(field)]
    parsed = [vals[i][1] for i in ok]
    want_notices = {}
    n1000 = sum(1 for p in parsed if p is BAD)
    if n1000:
        want_notices[1000] = n1000
    if len(ok) < len(mine):
        # (the same line twice is one complaint)
        lines = set(vals[i][0] for i in mine if i not in ok
                    if vals[i][0] == b'*')
        want_notices[1026] = len(lines) + sum(
            1 for i in mine if i not in ok and vals[i][0] != b'*')
    used = list(ok)
    if kind == 'unknown':
        value = None
        for v in parsed:
            value = v if value is None else value + b',' + v
    elif kind == 'single':
        value = parsed[-1] if parsed else None
        if len(parsed) > 1:
            want_notices[1013] = 1
            used = used[-1:]
    else:
        value = []
        stars = [v for v in parsed if isinstance(v, str)]
        if stars and len(parsed) == 1:
            value = stars[0]
        elif stars:
            value = [BAD]
            want_notices[1013] = 1
        else:
            for v in parsed:
                value.extend([BAD] if v is BAD else v)

    # presence and validity first: they must not depend on having read value
    ctx.check(view.is_present == bool(ok), 'is_present')
    ctx.check(view.is_absent == (not ok), 'is_absent')
    got = view.value
    ctx.check(is_same(got, value), 'value', got, value)
    ctx.check(view.is_okay == (value is not BAD and value is not None),
              'is_okay')
    ctx.check(len(view.entries) == len(used) and
              all(x is all_entries[i] for x, i in zip(view.entries, used)),
              'entries it comes from')
    ctx.check(view.total_entries == len(mine), 'all entries')
    if value is not BAD:
        ctx.check(bool(view) == bool(value), 'truth')
    if kind == 'multi':
        good = [v for v in value if v is not BAD]
        listed = list(view)
        ctx.check(is_same(listed, good), 'elements', listed, good)
        for x in good[:2]:
            ctx.check(x in view, 'membership')
    comparisons(ctx, view, value)
    counts = {}
    for c in msg.notices:
        counts[c.id] = counts.get(c.id, 0) + 1
    ctx.check(counts == want_notices, 'notices', counts, want_notices)
    for c in want_notices:
        ctx.cover(str(c))
    # nothing new when asked again
    ctx.check(msg.headers[FieldName(field.upper())].value is got, 'again')
    ctx.check(len(msg.notices) == sum(counts.values()), 'notices, again')
    listed_names(ctx, msg, names)
    ctx.observe(sorted(counts.items()), len(used))


def is_same(got, want):
    if want is BAD:
        return isinstance(got, Unavailable)
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return False
        r = True
        for a, b in zip(got, want):
            r = r & is_same(a, b)
        return r
    if isinstance(got, Unavailable):
        return False
    return deep(got, want)


def comparisons(ctx, view, value):
    """All false for a value that is absent or malformed."""
    if isinstance(value, list):
        return
    if value is None or value is BAD:
        for other in (None, 0, 5, u'', b'', u'*', Unavailable(), ()):
            ctx.check(not view == other and not view != other,
                      'compared although not okay')
        ctx.check(not view < 5 and not view <= 5 and not view > 5 and
                  not view >= 5, 'ordered although not okay')
        return
    if isinstance(value, int) or type(value).__name__ == 'SymInt':
        k = ctx.int('k', 0, 12)
        ctx.check((view == k) == (value == k), '==')
        ctx.check((view != k) == (value != k), '!=')
        ctx.check((view < k) == (value < k), '<')
        ctx.check((view <= k) == (value <= k), '<=')
        ctx.check((view > k) == (value > k), '>')
        ctx.check((view >= k) == (value >= k), '>=')
    else:
        ctx.check(view == value, '== its value')
        ctx.check(not view != value, '!= its value')
    ctx.check(not view == Unavailable() and not view != Unavailable(),
              'compared with an unavailable value')


def listed_names(ctx, msg, names):
    want = []
    for x in names:
        seen = False
        for y in want:
            if same_text(x, y, FOLD):
                seen = True
        if not seen:
            want.append(x)
    got = list(msg.headers.names)
    ctx.check(len(got) == len(want), 'each name once', got, want)
    r = True
    for a, b in zip(got, want):
        r = r & same_text(a, b)
    ctx.check(r, 'names in order', got, want)
    ctx.check(len(msg.headers.enumerate()) == len(names), 'all entries')


def tasks(tier):
    out = []
    top = 4 if tier == 'thorough' else 3
    for field in FIELDS:
        for n in range(top + 1):
            if n == 3 and tier == 'quick' and len(field) > 4 and \
                    field not in ('Allow',):
                continue
            for trailing in range(n + 1):
                out.append(Task('h_entries', dict(
                    field=field, n=n, trailing=trailing)))
    return out
