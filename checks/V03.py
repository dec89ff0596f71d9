"""V03: arguments of directives."""

from httpolice import Request, Response
from httpolice.structure import FieldName, Unavailable
from checks.V01 import FOLD, same_text
from checks.values_common import codes
from ref.grammars import GRAMMAR, GRAMMAR_ORIGINAL, GRAMMAR_SPACED
from ref.registry import CACHE_DIRECTIVES
from sx.ctx import Task

FUNCTIONS = ['httpolice.header.' + x for x in (
    'ArgumentsView', 'DirectivesView', 'CacheControlView',
    'StrictTransportSecurityView', 'AltSvcView', 'PreferView',
    'PreferenceAppliedView', 'ForwardedView')] + [
    'httpolice.known.ArgumentKnowledge', 'httpolice.known.SyntaxKnowledge',
    'httpolice.known.CacheDirectiveKnowledge', 'httpolice.parse.parse',
    'httpolice.syntax.rfc6797', 'httpolice.syntax.rfc7234',
    'httpolice.syntax.rfc7239', 'httpolice.syntax.rfc7240',
    'httpolice.syntax.rfc7838']
BOUNDS = {
    'quick': 'every known directive and unknown ones, first letter in either '
             'case; no argument, a token of 1-3 or a quoted string of 0-3 '
             'arbitrary characters, and valid arguments with any one '
             'character replaced or inserted; all ordered pairs of directives '
             'with and without short arguments',
    'thorough': 'all letters in either case, arguments of up to 5 characters, '
                'triples',
}
OUTSIDE = 'quoted-pair escapes in arguments (G15); longer arguments'
ASSUMPTIONS = ['ref/grammars.py and the tables below transcribe the RFCs that '
               'define the directives']

# name -> (argument: 0 none 1 optional 2 required 3 unspecified, kind)
CACHE = {k: (v[0], v[4]) for k, v in CACHE_DIRECTIVES.items()}
HSTS = {'includeSubDomains': (0, None), 'max-age': (2, 'delta')}
PREFER = {'depth-noroot': (3, None), 'handling': (2, 'handling'),
          'respond-async': (0, None), 'return': (2, 'return'),
          'wait': (2, 'delta')}
FORWARDED = {'by': (2, 'node'), 'for': (2, 'node'), 'host': (2, 'host'),
             'proto': (2, 'scheme')}
ALTSVC = {'ma': (2, 'delta'), 'persist': (2, 'one')}
FIELDS = {
    'Cache-Control': (CACHE, ', ', True),
    'Strict-Transport-Security': (HSTS, ' ; ', False),
    'Prefer': (PREFER, ',', True),
    'Preference-Applied': (PREFER, ', ', False),
    'Forwarded': (FORWARDED, ';', True),
    'Alt-Svc': (ALTSVC, '; ', False),
}
UNKNOWN = 'foo'

KINDS = r'''
k-delta = 1*DIGIT
k-fields = #field-name
k-handling = "strict" / "lenient"
k-return = "representation" / "minimal"
k-node = forwarded-node
k-host = uri-host [ ":" port ]
k-scheme = scheme
k-one = "1"
'''
RULES = GRAMMAR.extended(KINDS)
ORIGINAL = GRAMMAR_ORIGINAL.extended(KINDS)
SPACED = GRAMMAR_SPACED.extended(KINDS)
SAMPLES = {
    'delta': ['10', '007'], 'fields': ['Foo, Bar', ',a'],
    'handling': ['strict', 'lenient'], 'return': ['minimal',
                                                  'representation'],
    'node': ['1.2.3.4:80', '[::1]:_a', 'unknown', '_a:12345'],
    'host': ['a.b:80', '[::1]'], 'scheme': ['http', 'a+b'], 'one': ['1'],
}

TCHAR = bytes(c for c in range(33, 127) if c not in b'"(),/:;<=>?@[\\]{}')
QDTEXT = bytes([9, 32, 33] + list(range(0x23, 0x5c)) +
               list(range(0x5d, 0x7f)) + list(range(0x80, 0x100)))


class Arg:
    """An argument as written and as meant"""

    def __init__(self, raw, text, quoted):
        self.raw, self.text, self.quoted = raw, text, quoted


NO_ARG = Arg(b'', None, False)


def free_arg(ctx, uid, form, n):
    if form == 'none':
        return NO_ARG
    b = ctx.bytes(uid, n, TCHAR if form == 'token' else QDTEXT)
    return made(b, form)


def made(b, form):
    return Arg(b'=' + b if form == 'token' else b'="' + b + b'"',
               b.decode('iso-8859-1'), form == 'quoted')


def dir_name(ctx, uid, name, every):
    parts = []
    for i, c in enumerate(name):
        if c.isalpha() and (every or i == 0):
            c = ctx.text('%s.%d' % (uid, i), 1,
                         (c.lower() + c.upper()).encode('ascii'))
        parts.append(c)
    return u''.join(parts)


def expected(table, name, arg, empty_is_none):
    """-> (notice or None, value) ; value Unavailable when not usable"""
    need, kind = table.get(name, (3, None))
    text = arg.text
    if empty_is_none and text is not None and len(text) == 0:
        text = None
    if text is None:
        return (1156, Unavailable) if need == 2 else (None, None)
    if need == 0:
        return 1157, Unavailable
    if kind is None:
        return None, text
    b = text.encode('iso-8859-1')
    ok = RULES.accepts('k-' + kind, b)
    if kind == 'fields':
        # whether whitespace at the ends of a list is part of the list
        for g in (ORIGINAL, SPACED):
            if g.accepts('k-' + kind, b) != ok:
                return 'either', None
    if not ok:
        return 1158, Unavailable
    if kind == 'delta':
        v = 0
        for i in range(len(b)):
            v = v * 10 + (b[i] - 48)
        return None, v
    if kind == 'fields':
        return None, split_list(b)
    if kind == 'one':
        return None, True
    if kind in ('node', 'host'):
        return None, any
    return None, text


def split_list(b):
    out = []
    cur = b''
    for i in range(len(b)):
        c = b[i:i + 1]
        if c in (b',', b' ', b'\t'):
            if len(cur):
                out.append(cur.decode('ascii'))
            cur = b''
        else:
            cur = cur + c
    if len(cur):
        out.append(cur.decode('ascii'))
    return out


def same_value(got, want):
    if want is Unavailable:
        return isinstance(got, Unavailable)
    if want is any:
        return got is not None and not isinstance(got, Unavailable)
    if want is None or want is True:
        return got is want
    if isinstance(got, Unavailable) or got is None or got is True:
        return False
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return False
        r = True
        for x, y in zip(got, want):
            r = r & (codes(x) == codes(y))
        return r
    if isinstance(want, str):
        return isinstance(got, str) and codes(got) == codes(want)
    return got == want


def build(field, items):
    """The header field value; items: (name, arg)"""
    sep = FIELDS[field][1].encode('ascii')
    raw = sep.join(n.encode('ascii') + a.raw for n, a in items)
    if field == 'Alt-Svc':
        raw = b'h2=":1"; ' + raw
    return raw


def run(ctx, field, items):
    """items: (canonical name, name as written, Arg)"""
    table, _, is_request = FIELDS[field]
    raw = build(field, [(w, a) for _, w, a in items])
    if is_request:
        msg = Request(u'http', u'GET', u'/', u'HTTP/1.1', [(field, raw)], b'')
    else:
        msg = Response(u'HTTP/1.1', 200, u'OK', [(field, raw)], b'')
    view = msg.headers[FieldName(field)]
    value = view.value
    prefer = field.startswith('Prefer')
    want_notices = []
    values = []
    either = 0
    for name, written, arg in items:
        known_name = name
        if field == 'Alt-Svc' and written != name:
            known_name = UNKNOWN        # these are case-sensitive
        notice, v = expected(table, known_name, arg, prefer)
        if notice == 'either':
            either = 1
        elif notice == 1156 or notice == 1157:
            key = (notice, name)
            if key not in want_notices:
                want_notices.append(key)
        elif notice == 1158:
            if any(k[0] == 1158 and k[1] == name and
                   same_text(k[2], arg.text) for k in want_notices):
                either = 1      # whether this counts as a repetition
            want_notices.append((1158, name, arg.text))
        values.append(v if notice != 'either' else 'either')
        if field == 'Cache-Control' and arg.text is not None:
            form = CACHE_DIRECTIVES.get(name, (0, ''))[1]
            if form == 'q' and not arg.quoted:
                key = (1154, name)
            elif form == 't' and arg.quoted:
                key = (1155, name)
            else:
                key = None
            if key and key not in want_notices:
                want_notices.append(key)
    if either:
        return
    if field == 'Forwarded':
        names = [n for n, _, _ in items]
        for n in sorted(set(names)):
            if names.count(n) > 1:
                want_notices.append((1296, n))
    ids = [c.id for c in msg.notices
           if c.id in (1000, 1154, 1155, 1156, 1157, 1158, 1296, 1297)]
    want = [k[0] for k in want_notices]
    ctx.check(sorted(ids) == sorted(want), 'notices', field, raw, ids, want)
    for i in want:
        ctx.cover(str(i))

    # the whole value
    if field == 'Alt-Svc':
        pairs = value[0].param.sequence
    elif field == 'Forwarded':
        ctx.check(len(value) == 1, 'one element')
        pairs = value[0]
    elif field == 'Prefer':
        pairs = [p for p, _ in value]
        ctx.check(len(view.without_params) == len(pairs), 'without_params')
    else:
        pairs = value
    ctx.check(len(pairs) == len(items), 'each directive', raw)
    for (got_name, got), (name, written, arg), v in zip(pairs, items, values):
        ctx.check(codes(got_name) == codes(written), 'name', raw)
        ctx.check(same_value(got, v), 'argument', raw, name, got, v)
    # lookups
    if field in ('Alt-Svc', 'Forwarded'):
        return
    seen = {}
    for (name, written, arg), v in zip(items, values):
        seen.setdefault(name.lower(), v)
    key_cls = type(pairs[0][0])
    for name in list(table) + [UNKNOWN]:
        got = view[key_cls(name)]
        if name.lower() not in seen:
            ctx.check(got is None, 'absent', raw, name)
        else:
            v = seen[name.lower()]
            ctx.check(same_value(got, True if v is None else v), 'lookup',
                      raw, name, got, v)
        if name in ('max-age', 'no-cache', 'wait'):
            ctx.check(getattr(view, name.replace('-', '_')) is got
                      or not isinstance(got, (list, Unavailable)),
                      'same by attribute')
    ctx.observe(ids)


def h_single(ctx, field, name, form, n, every):
    if not form == 'none' or FIELDS[field][0] not in (FORWARDED, ALTSVC):
        written = dir_name(ctx, 'd', name, every)
        run(ctx, field, [(name, written, free_arg(ctx, 'a', form, n))])


def h_near(ctx, field, name, kind, sample, inserted):
    """A good argument with one character changed"""
    b = SAMPLES[kind][sample].encode('ascii')
    p = ctx.choice('pos', range(0, len(b) + inserted))
    x = ctx.bytes('x', 1, QDTEXT)
    b = b[:p] + x + b[p + 1 - inserted:]
    run(ctx, field, [(name, name, made(b, 'quoted'))])


def h_several(ctx, field, k):
    table = FIELDS[field][0]
    names = sorted(table) + [UNKNOWN]
    no_arg_ok = field not in ('Forwarded', 'Alt-Svc')
    items = []
    for i in range(k):
        name = ctx.choice('n%d' % i, names)
        form = ctx.choice('f%d' % i, ['token', 'quoted'] +
                          ['none'] * no_arg_ok)
        arg = free_arg(ctx, 'a%d' % i, form, 1)
        items.append((name, dir_name(ctx, 'd%d' % i, name, False), arg))
    run(ctx, field, items)


def h_elements(ctx, sizes):
    """Forwarded: several elements"""
    items = []
    raw = []
    n = 0
    for size in sizes:
        elem = []
        for _ in range(size):
            name = ctx.choice('n%d' % n, ['for', 'by', 'x'])
            v = ctx.bytes('v%d' % n, 1, b'abc')
            elem.append((name, b'_' + v))
            n += 1
        items.append(elem)
        raw.append(b';'.join(k.encode('ascii') + b'=' + v for k, v in elem))
    raw = b', '.join(raw)
    msg = Request(u'http', u'GET', u'/', u'HTTP/1.1',
                  [(u'Forwarded', raw)], b'')
    value = msg.headers.forwarded.value
    ids = [c.id for c in msg.notices if c.id in (1000, 1158, 1296, 1297)]
    want = []
    duped = set()
    for elem in items:
        names = [k for k, _ in elem]
        duped |= set(k for k in names if names.count(k) > 1)
    want += [1296] * len(duped)
    heads = [elem[0][0] for elem in items if len(elem) == 1]
    if len(items) > 1 and len(heads) == len(items) and \
            len(set(heads)) == len(heads):
        want.append(1297)
    ctx.check(sorted(ids) == sorted(want), 'notices', raw, ids, want)
    ctx.check([len(e) for e in value] == list(sizes), 'elements')
    for got, elem in zip(value, items):
        for (gn, gv), (k, v) in zip(got, elem):
            ctx.check(gn == k, 'name')
            if k == 'x':
                ctx.check(codes(gv) == v.decode('ascii'), 'value')
            else:
                ctx.check(codes(gv[0]) == v.decode('ascii') and gv[1] is None, 'node', gv)
    for i in want:
        ctx.cover(str(i))
    ctx.observe(ids)


def h_clear(ctx):
    v = ctx.bytes('v', 5, b'clearCLEAR')
    msg = Response(u'HTTP/1.1', 200, u'OK', [(u'Alt-Svc', v)], b'')
    got = msg.headers.alt_svc.value
    clear = v == b'clear'
    ctx.check((got == u'clear') == clear, 'clear')
    ctx.check((len(msg.notices) == 0) == clear, 'nothing else')
    ctx.observe(bool(clear))


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for field, (table, _, _) in FIELDS.items():
        for name in sorted(table) + [UNKNOWN]:
            forms = [('token', n) for n in range(1, 6 if t else 4)] + \
                    [('quoted', n) for n in range(0, 6 if t else 4)]
            if table not in (FORWARDED, ALTSVC):
                forms.append(('none', 0))
            for form, n in forms:
                out.append(Task('h_single', dict(
                    field=field, name=name, form=form, n=n,
                    every=t and n < 2)))
            kind = table.get(name, (3, None))[1]
            for i in range(len(SAMPLES.get(kind, ()))):
                for ins in (0, 1):
                    out.append(Task('h_near', dict(
                        field=field, name=name, kind=kind, sample=i,
                        inserted=ins)))
        ks = (2, 3) if t or table is HSTS else (2,)
        for k in ks:
            out.append(Task('h_several', dict(field=field, k=k),
                            max_paths=400000))
    for sizes in ((1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (3,), (2, 2)):
        out.append(Task('h_elements', dict(sizes=sizes)))
    out.append(Task('h_clear', {}))
    return out
