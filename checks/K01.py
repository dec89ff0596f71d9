"""K01: what is known about names."""

import csv
import os

import httpolice.known as known
from httpolice import structure as S
from httpolice.citation import RFC
from checks.V01 import FOLD
from ref import registry
from sx.ctx import Task

FUNCTIONS = ['httpolice.known.' + x for x in (
    'Knowledge', 'SyntaxKnowledge', 'ArgumentKnowledge', 'HeaderKnowledge',
    'MethodKnowledge', 'StatusCodeKnowledge', 'CacheDirectiveKnowledge',
    'MediaTypeKnowledge', 'ProductKnowledge', 'UpgradeTokenKnowledge',
    'KnowledgeAccessor', 'get', 'citation', 'title')] + [
    'httpolice.structure.CaseInsensitive', 'httpolice.structure.StatusCode']
BOUNDS = {
    'quick': 'every row of every table, the name in every letter case (first '
             'and last 3 letters for long names); every row with its first, '
             'second or last character replaced by any character; all names '
             'of 1-3 arbitrary ASCII characters; media types a/x+json, x+xml, '
             'multipart/x with up to 3 arbitrary characters each; all status '
             'codes 0-999',
    'thorough': 'all letters in either case, any position replaced',
}
OUTSIDE = 'names further than one character from every registered name and ' \
          'longer than 3 characters; citation texts (compared only by RFC ' \
          'number)'
ASSUMPTIONS = ['the CSV files next to httpolice/known/__init__.py are the '
               'registry tables; for the facts that decide checks '
               'ref/registry.py has an independent copy']

SENSITIVE = ('method', 'upgrade_token', 'product', 'alt_svc_param')
TABLES = ('header', 'method', 'cache_directive', 'forwarded_param',
          'media_type', 'product', 'alt_svc_param', 'auth_scheme',
          'content_coding', 'hsts_directive', 'preference', 'range_unit',
          'transfer_coding', 'upgrade_token')
NUMERIC = ('status_code', 'warn_code')
CLASSES = {
    'header': S.FieldName, 'method': S.Method,
    'cache_directive': S.CacheDirective, 'forwarded_param': S.ForwardedParam,
    'media_type': S.MediaType, 'product': S.ProductName,
    'alt_svc_param': S.AltSvcParam, 'auth_scheme': S.AuthScheme,
    'content_coding': S.ContentCoding, 'hsts_directive': S.HSTSDirective,
    'preference': S.Preference, 'range_unit': S.RangeUnit,
    'transfer_coding': S.TransferCoding, 'upgrade_token': S.UpgradeToken,
    'status_code': S.StatusCode, 'warn_code': S.WarnCode,
}
ANY = bytes(range(33, 127))

# question -> (column, how to read the answer)
FLAGS = {
    'header': {
        'is_bad_for_connection': 'bad_for_connection',
        'is_bad_for_trailer': 'bad_for_trailer',
        'is_for_request': 'for_request', 'is_for_response': 'for_response',
        'is_precondition': 'precondition',
        'is_proactive_conneg': 'proactive_conneg',
        'is_representation_metadata': 'representation_metadata',
    },
    'method': {'defines_body': 'defines_body', 'is_cacheable': 'cacheable',
               'is_safe': 'safe'},
    'cache_directive': {'is_for_request': 'for_request',
                        'is_for_response': 'for_response'},
    'media_type': {'is_deprecated': 'deprecated', 'is_patch': 'patch'},
    'product': {'is_library': 'library'},
}
ARGUMENTS = ('cache_directive', 'forwarded_param', 'alt_svc_param',
             'hsts_directive', 'preference')


def load():
    out = {}
    where = os.path.dirname(known.__file__)
    for t in TABLES + NUMERIC:
        with open(os.path.join(where, t + '.csv'), newline='') as f:
            out[t] = list(csv.DictReader(f))
    return out


ROWS = load()
BLANK = {}


def truth(s):
    return {'': None, 'true': True, 'false': False}[(s or '').lower()]


def fold(s):
    """ASCII-lowercased; s may be symbolic"""
    return u''.join([chr(FOLD[c]) for c in s.encode('iso-8859-1')])


def find(table, name):
    """The row for a name, or None: by comparing with every row"""
    sens = table in SENSITIVE
    n = name if sens else fold(name)
    for row in ROWS[table]:
        k = row['key'] if sens else row['key'].lower()
        if len(k) == len(n) and k == n:
            return row
    return None


def answers(ctx, table, name, row):
    """Everything the tables say about the name."""
    kb = getattr(known, table)
    key = CLASSES[table](name)
    ctx.check((key in kb) == (row is not None), 'known or not', table, name)
    row = row or BLANK
    for q, col in FLAGS.get(table, {}).items():
        ctx.check(getattr(kb, q)(key) is truth(row.get(col)), q, table, name,
                  row.get(col))
    if table == 'header':
        rule = kb.rule_for(key)
        ctx.check((rule.name if rule else '') == (row.get('rule') or ''),
                  'rule_for', name)
        ctx.check(kb.is_deprecated(key) == (row.get('iana_status') in (
            'deprecated', 'obsoleted')), 'is_deprecated', name)
        c, s = kb.bad_quoted_delims(key)
        ctx.check(c is truth(row.get('quoted_comma_bad')) and
                  s is truth(row.get('quoted_semicolon_bad')),
                  'bad_quoted_delims', name)
    if table in ARGUMENTS:
        arg = row.get('argument') or ''
        ctx.check(kb.argument_required(key) == (arg == 'required'),
                  'argument_required', table, name)
        ctx.check(kb.no_argument(key) == (arg == 'no'), 'no_argument', table,
                  name)
    if table in ARGUMENTS + ('header',):
        sym = kb.syntax_for(key)
        ctx.check((sym is None) == (not row.get('syntax_symbol')),
                  'syntax_for', table, name)
        if sym is not None:
            mod = __import__('httpolice.syntax.' + row['syntax_module'],
                             fromlist=['x'])
            ctx.check(sym is getattr(mod, row['syntax_symbol']),
                      'the symbol named in the table', table, name)
    if table == 'cache_directive':
        form = row.get('argument_form') or ''
        ctx.check(kb.token_preferred(key) == (form == 'token') and
                  kb.quoted_string_preferred(key) == (form == 'quoted_string'),
                  'argument form', name)
    if table == 'media_type':
        low = fold(name)
        ctx.check(bool(kb.is_json(key)) == (
            truth(row.get('is_json')) is True or low[-5:] == '+json'),
            'is_json', name)
        ctx.check(bool(kb.is_xml(key)) == (
            truth(row.get('is_xml')) is True or low[-4:] == '+xml'),
            'is_xml', name)
        ctx.check(kb.is_multipart(key) == (low[:10] == 'multipart/'),
                  'is_multipart', name)
    described(ctx, key, row, kb)


def described(ctx, key, row, kb):
    """known.get and friends find the right table by the class."""
    info = known.get(key) if type(key) is not S.ProductName else kb.get(key)
    ctx.check((info.get('title') or '') == (row.get('title') or ''), 'title')
    cite = info.get('citation')
    if row.get('rfc'):
        ctx.check(isinstance(cite, RFC) and str(cite.num) == row['rfc'],
                  'RFC', key)
    elif row.get('cite_url'):
        ctx.check(cite is not None and cite.url == row['cite_url'], 'citation')
    else:
        ctx.check(cite is None, 'no citation', key)
    if type(key) is not S.ProductName:
        ctx.check(known.title(key) == info.get('title'), 'known.title')
        ctx.check(known.citation(key) is cite, 'known.citation')
        t = known.title(key, with_citation=True)
        if cite is not None and cite.title:
            ctx.check(t is not None and cite.title in t and
                      (row.get('title') or '') in t, 'title with citation')
        else:
            ctx.check((t or '') == (row.get('title') or ''), 'plain title')


def cased(ctx, uid, word, every):
    parts = []
    n = len(word)
    for i, c in enumerate(word):
        if c.isalpha() and (every or n <= 6 or i < 3 or i >= n - 3):
            c = ctx.text('%s.%d' % (uid, i), 1,
                         (c.lower() + c.upper()).encode('ascii'))
        parts.append(c)
    return u''.join(parts)


def h_rows(ctx, table, start, stop, every):
    row = ROWS[table][ctx.choice('row', range(start, stop))]
    key = row['key']
    kb = getattr(known, table)
    if table in SENSITIVE:
        answers(ctx, table, key, row)
    name = cased(ctx, 'n', key, every)
    found = find(table, name)
    if table not in SENSITIVE:
        ctx.check(found is row, 'one row for each name', table, key)
    answers(ctx, table, name, found)
    # by attribute
    if table != 'product':
        attr = key
        if table != 'upgrade_token':
            for c in '- /+.':
                attr = attr.replace(c, '_')
            attr = attr.upper() if table == 'method' else attr.lower()
            if attr in ('continue', 'for', 'from', 'return'):
                attr += '_'
        got = getattr(kb.accessor, attr)
        ctx.check(type(got) is CLASSES[table] and str(got) == key, 'accessor',
                  attr)
    ctx.observe(table, found is None)


def h_near(ctx, table, start, stop, every):
    """One character of a known name changed"""
    row = ROWS[table][ctx.choice('row', range(start, stop))]
    key = row['key']
    n = len(key)
    at = ctx.choice('at', [i for i in range(n)
                           if every or i in (0, 1, n - 1)])
    name = key[:at] + ctx.text('x', 1, ANY) + key[at + 1:]
    answers(ctx, table, name, find(table, name))


def h_short(ctx, table, n):
    name = ctx.text('name', n, ANY)
    row = find(table, name)
    ctx.cover('unknown' if row is None else 'known')
    answers(ctx, table, name, row)


def h_affix(ctx, prefix, n, suffix):
    name = cased(ctx, 'p', prefix, True) + ctx.text('x', n, ANY) + \
        cased(ctx, 's', suffix, True)
    answers(ctx, 'media_type', name, find('media_type', name))


def h_number(ctx, table):
    v = ctx.int('v', 0, 999)
    key = CLASSES[table](v)
    kb = getattr(known, table)
    row = None
    for r in ROWS[table]:
        if v == int(r['key']):
            row = r
    ctx.check((key in kb) == (row is not None), 'known or not')
    row = row or BLANK
    if table == 'status_code':
        c = kb.is_cacheable(key)
        ctx.check((c.name if c else '') == (row.get('cacheable') or ''),
                  'cacheable', v)
    described(ctx, key, row, kb)
    if row:
        attr = row['title']
        for c in '- /+.':
            attr = attr.replace(c, '_')
        attr = attr.lower()
        if attr in ('continue', 'for', 'from', 'return'):
            attr += '_'
        got = getattr(kb.accessor, attr, None)
        ctx.check(got == v, 'accessor', attr)
    ctx.observe(row.get('title'))


def h_registry(ctx, table):
    """Against the independent copy of the facts"""
    yn = {'y': True, 'n': False, '-': None}
    if table == 'header':
        kb = known.header
        names = sorted(registry.HEADERS)
        n = ctx.choice('name', names)
        f = registry.HEADERS[n]
        k = S.FieldName(n)

        def rs(a, b):
            return False if a in f else True if b in f else None
        ctx.check(k in kb, 'known', n)
        ctx.check(kb.is_for_request(k) is rs('r', 'R'), 'for request', n)
        ctx.check(kb.is_for_response(k) is rs('s', 'S'), 'for response', n)
        for c, q in (('c', kb.is_bad_for_connection),
                     ('t', kb.is_bad_for_trailer), ('p', kb.is_precondition),
                     ('n', kb.is_proactive_conneg), ('d', kb.is_deprecated),
                     ('m', kb.is_representation_metadata)):
            ctx.check(bool(q(k)) == (c in f), 'flag ' + c, n)
    elif table == 'method':
        n = ctx.choice('name', sorted(registry.METHODS))
        safe, cacheable, body = (yn[c] for c in registry.METHODS[n])
        k = S.Method(n)
        ctx.check(known.method.is_safe(k) is safe, 'safe', n)
        ctx.check(known.method.is_cacheable(k) is cacheable, 'cacheable', n)
        ctx.check(known.method.defines_body(k) is body, 'body', n)
    elif table == 'status_code':
        v = ctx.int('v', 0, 999)
        want = None
        there = False
        for code, c in registry.STATUSES.items():
            if v == code:
                want, there = c, True
        k = S.StatusCode(v)
        got = known.status_code.is_cacheable(k)
        ctx.check((None if got is None else got.value) == want, 'cacheable', v)
        if there:
            ctx.check(k in known.status_code, 'known', v)
    elif table == 'cache_directive':
        n = ctx.choice('name', sorted(registry.CACHE_DIRECTIVES))
        arg, form, q, s, _ = registry.CACHE_DIRECTIVES[n]
        k = S.CacheDirective(n)
        kb = known.cache_directive
        ctx.check(kb.no_argument(k) == (arg == 0) and
                  kb.argument_required(k) == (arg == 2), 'argument', n)
        ctx.check(kb.token_preferred(k) == (form == 't') and
                  kb.quoted_string_preferred(k) == (form == 'q'), 'form', n)
        ctx.check(kb.is_for_request(k) is q and kb.is_for_response(k) is s,
                  'direction', n)
    elif table == 'media_type':
        n = ctx.choice('name', sorted(
            registry.DEPRECATED_MEDIA | registry.PATCH_MEDIA |
            registry.NOT_PATCH_MEDIA | registry.JSON_MEDIA |
            registry.XML_MEDIA))
        kb = known.media_type
        k = S.MediaType(n)
        ctx.check(bool(kb.is_deprecated(k)) == (
            n in registry.DEPRECATED_MEDIA), 'deprecated', n)
        ctx.check(kb.is_patch(k) is (
            True if n in registry.PATCH_MEDIA else
            False if n in registry.NOT_PATCH_MEDIA else None), 'patch', n)
    else:
        n = ctx.choice('name', sorted(registry.LIBRARIES))
        ctx.check(known.product.is_library(S.ProductName(n)) is True,
                  'library', n)
    ctx.observe(table)


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for table in TABLES:
        n = len(ROWS[table])
        k = 15 if table == 'media_type' else 10
        for i in range(0, n, k):
            p = dict(table=table, start=i, stop=min(n, i + k), every=t)
            out.append(Task('h_rows', p))
            out.append(Task('h_near', p))
        for j in (1, 2, 3):
            out.append(Task('h_short', dict(table=table, n=j)))
    for prefix, suffix in (('a/', '+json'), ('a/', '+xml'), ('multipart/', ''),
                           ('', '+json'), ('multipart/', '+xml'), ('a/', 'json'),
                           ('multipart', ''), ('x/', '+jso'), ('x/', 'xml')):
        for n in (0, 1, 2, 3):
            out.append(Task('h_affix', dict(prefix=prefix, n=n,
                                            suffix=suffix)))
    for table in NUMERIC:
        out.append(Task('h_number', dict(table=table)))
    for table in ('header', 'method', 'status_code', 'cache_directive',
                  'media_type', 'product'):
        out.append(Task('h_registry', dict(table=table)))
    return out
