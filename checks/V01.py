"""V01: equality, hashing and lookups of protocol values."""

from httpolice import structure as S
from httpolice.util.data import duplicates
from sx.ctx import Task

FUNCTIONS = [
    'httpolice.structure.' + x for x in (
        'CaseInsensitive', 'ProtocolString', 'Parametrized', 'MultiDict',
        'Versioned', 'EntityTag.weak_equiv', 'EntityTag.strong_equiv',
        'WarningValue', 'HeaderEntry', 'Unavailable', 'okay', 'StatusCode',
        'WarnCode')] + ['httpolice.util.data.duplicates']
BOUNDS = {
    'quick': 'every string class; all pairs of strings of 0..5 characters '
             'U+0000-U+00FF (triples of up to 2 for transitivity); multidicts '
             'of up to 3 entries with names of 1-2 characters; all status '
             'and warn codes',
    'thorough': 'strings of up to 8, multidicts of up to 5 entries',
}
OUTSIDE = 'longer strings; characters above U+00FF'
ASSUMPTIONS = ['letter case means ASCII letter case; other characters of '
               'Latin-1 may also compare equal to their case variants']

CI = ['FieldName', 'TransferCoding', 'ContentCoding', 'ConnectionOption',
      'MediaType', 'LanguageTag', 'Charset', 'RangeUnit', 'CacheDirective',
      'AuthScheme', 'HSTSDirective', 'Preference', 'ForwardedParam']
CS = ['HTTPVersion', 'Method', 'UpgradeToken', 'ProductName', 'AltSvcParam']

FOLD = tuple(i + 32 if 65 <= i <= 90 else i for i in range(256))
WIDE = tuple(i + 32 if 65 <= i <= 90 or (192 <= i <= 222 and i != 215) else i
             for i in range(256))


def same_text(a, b, table=None):
    """Over Latin-1 strings of any class"""
    if len(a) != len(b):
        return False
    x, y = a.encode('iso-8859-1'), b.encode('iso-8859-1')
    if table is None:
        return x == y
    r = True
    for i in range(len(x)):
        r = r & (table[x[i]] == table[y[i]])
    return r


def implies(a, b):
    return (a == False) | b         # noqa: E712


def laws(ctx, a, b, label):
    """What every equality must obey; returns it"""
    e = a == b
    ctx.check((a != b) == (e == False), label + ': != is not ==')  # noqa: E712
    ctx.check((b == a) == e, label + ': symmetric')
    ctx.check(a == a, label + ': reflexive')    # pylint: disable=R0124
    return e


def h_name(ctx, cls, n, m):
    c = getattr(S, cls)
    ta, tb = ctx.text('a', n), ctx.text('b', m)
    a, b = c(ta), c(tb)
    e = laws(ctx, a, b, cls)
    if cls in CS:
        ctx.check(e == same_text(ta, tb), 'identical text only', ta, tb)
    else:
        ctx.check(implies(same_text(ta, tb, FOLD), e), 'whatever the letter case',
                  ta, tb)
        ctx.check(implies(e, same_text(ta, tb, WIDE)), 'nothing but letter case',
                  ta, tb)
    # plain strings on either side
    ctx.check((a == tb) == e, 'like the plain string')
    ctx.check((tb == a) == e, 'like the plain string, reversed')
    # as keys
    d = {a: 1}
    ctx.check((b in d) == e, 'dictionary lookup', ta, tb)
    ctx.check((b in {a}) == e, 'set lookup')
    ctx.check((b in [a]) == e, 'list lookup')
    ctx.check(len({a, b}) == (1 if e else 2), 'equal values are one')
    ctx.check((len(duplicates([a, b])) == 1) == e, 'duplicates')
    ctx.check(same_text(str(a), ta), 'keeps its text')
    ctx.check(len(a) == n, 'keeps its length')
    ctx.cover('equal' if e else 'different')
    ctx.observe(bool(e))


def h_affix(ctx, cls, n, m):
    c = getattr(S, cls)
    ta, tb = ctx.text('a', n, ASCII), ctx.text('b', m, ASCII)
    a = c(ta)
    start = same_text(ta[:m], tb, FOLD) if m <= n else False
    end = same_text(ta[n - m:], tb, FOLD) if m <= n else False
    ctx.check(a.startswith(tb) == start, 'startswith', ta, tb)
    ctx.check(a.endswith(tb) == end, 'endswith', ta, tb)
    ctx.observe(bool(start), bool(end))


ASCII = (1 << 128) - 1


def h_transitive(ctx, cls, n):
    c = getattr(S, cls)
    a, b, d = (c(ctx.text(x, n)) for x in 'abd')
    ctx.check(implies((a == b) & (b == d), a == d), 'transitive')


def h_etag(ctx, n, m):
    a = S.EntityTag(ctx.flag('wa'), ctx.text('a', n))
    b = S.EntityTag(ctx.flag('wb'), ctx.text('b', m))
    same = same_text(a.opaque_tag, b.opaque_tag)
    ctx.check(a.weak_equiv(b) == same, 'weak comparison')
    ctx.check(b.weak_equiv(a) == same, 'weak comparison is symmetric')
    if a.weak or b.weak:
        ctx.check(not a.strong_equiv(b) and not b.strong_equiv(a),
                  'weak tags are never strongly equal')
    else:
        ctx.check(a.strong_equiv(b) == same, 'strong comparison')
        ctx.check(b.strong_equiv(a) == same, 'strong, symmetric')
    e = laws(ctx, a, b, 'tags')
    ctx.check(e == (same & (a.weak == b.weak)), 'equal tags')
    ctx.observe(bool(same))


def h_parametrized(ctx, n, m):
    """(also through containers, as the views use them)"""
    ta, tb = ctx.text('a', n, ASCII), ctx.text('b', m, ASCII)
    a, b = S.MediaType(ta), S.MediaType(tb)
    pa = S.MultiDict([(S.CaseInsensitive('q'), ctx.text('x', 1))])
    pb = S.MultiDict([(S.CaseInsensitive('Q'), ctx.text('y', 1))])
    x, y = S.Parametrized(a, pa), S.Parametrized(b, pb)
    e = same_text(ta, tb, FOLD)
    ctx.check((x == b) == e, 'equals its bare item')
    ctx.check((x != b) == (e == False), 'differs from others')  # noqa: E712
    ctx.check((b in [x]) == e, 'membership by bare item')
    full = e & same_text(pa.sequence[0][1], pb.sequence[0][1])
    ctx.check(laws(ctx, x, y, 'parametrized') == full, 'with parameters')
    ctx.observe(bool(e))


def h_multidict(ctx, sizes, key):
    keys = [S.CaseInsensitive(ctx.text('k%d' % i, n, ASCII))
            for i, n in enumerate(sizes)]
    values = ['v%d' % i for i in range(len(sizes))]
    md = S.MultiDict(list(zip(keys, values)))
    k = S.CaseInsensitive(ctx.text('key', key, ASCII))
    hits = [same_text(x, k, FOLD) for x in keys]
    any_ = False
    for h in hits:
        any_ = any_ | h
    ctx.check((k in md) == any_, 'membership')
    ctx.check(len(md) == len(sizes), 'length')
    got = md.getall(k)
    want = [v for h, v in zip(hits, values) if h]
    ctx.check(got == want, 'all values in order')
    ctx.check(md.get(k, 'none') == (want[0] if want else 'none'),
              'first value')
    ctx.check(md.get(k) == (want[0] if want else None), 'or nothing')
    if want:
        ctx.check(md[k] == want[0], 'indexing')
        ctx.check(md.index(k) == hits.index(True), 'position')
    else:
        try:
            md[k]       # pylint: disable=pointless-statement
            ctx.check(False, 'no such name')
        except KeyError:
            pass
    names = list(md)
    count = 0
    for i, x in enumerate(keys):
        first = True
        for y in keys[:i]:
            if same_text(x, y, FOLD):
                first = False
        count += first
        ctx.check(x in names, 'iterates over every name')
    ctx.check(len(names) == count, 'once each')
    dup = md.duplicates()
    for i, x in enumerate(keys):
        again = False
        for j, y in enumerate(keys):
            if i != j:
                again = again | same_text(x, y, FOLD)
        ctx.check((x in dup) == again, 'duplicates')
    ctx.observe(want, len(names), len(dup))


def h_code(ctx):
    v = ctx.int('code', 0, 1200)
    s = S.StatusCode(v)
    ctx.check(s.informational == ((v >= 100) & (v <= 199)), '1xx')
    ctx.check(s.successful == ((v >= 200) & (v <= 299)), '2xx')
    ctx.check(s.redirection == ((v >= 300) & (v <= 399)), '3xx')
    ctx.check(s.client_error == ((v >= 400) & (v <= 499)), '4xx')
    ctx.check(s.server_error == ((v >= 500) & (v <= 599)), '5xx')
    ctx.check(s == v, 'equal to its number')
    w = S.WarnCode(v)
    other = ctx.int('other', 0, 1200)
    x = S.WarningValue(w, 'a', 'b', None)
    ctx.check((x == other) == (v == other), 'a warning equals its code')
    ctx.check((other in [x]) == (v == other), 'is found by its code')
    ctx.observe(bool(v == other))


def h_entry(ctx, n, m):
    a, b = ctx.text('a', n), ctx.text('b', m)
    va, vb = ctx.bytes('va', 1), ctx.bytes('vb', 1)
    x = S.HeaderEntry(a, va)
    y = S.HeaderEntry(b.encode('iso-8859-1'), vb.decode('iso-8859-1'))
    same = same_text(a, b, FOLD) & (va == vb)
    e = laws(ctx, x, y, 'entries')
    ctx.check(implies(same, e), 'equal entries')
    ctx.check(implies(e, same_text(a, b, WIDE) & (va == vb)), 'different entries')
    ctx.check(y.value == vb, 'text and bytes are the same')
    ctx.check(same_text(y.name, b), 'names too')
    ctx.observe(bool(e))


def h_unavailable(ctx, n, m):
    a, b = ctx.text('a', n), ctx.text('b', m)
    x, y = S.Unavailable(a), S.Unavailable(b)
    e = laws(ctx, x, y, 'unavailable')
    ctx.check(e == same_text(a, b), 'equal when the text is')
    ctx.check(not S.okay(x) and not S.okay(None) and not S.okay(
        S.Unavailable()), 'not okay')
    ctx.check(S.okay(a) and S.okay(0) and S.okay(False) and S.okay([]),
              'okay')
    ctx.check(not S.Unavailable() == x, 'nothing known')
    ctx.check(not x == a, 'never equal to its text')


def tasks(tier):
    t = tier == 'thorough'
    out = []
    top = (5, 8)[t]
    for cls in CI + CS:
        for n in range(top + 1):
            for m in range(top + 1):
                if n == m or (abs(n - m) == 1 and n < 3):
                    out.append(Task('h_name', dict(cls=cls, n=n, m=m)))
        out.append(Task('h_transitive', dict(cls=cls, n=(1, 2)[t])))
    for cls in CI:
        for n, m in ((0, 0), (0, 1), (1, 1), (2, 1), (3, 2), (3, 3), (2, 3)):
            out.append(Task('h_affix', dict(cls=cls, n=n, m=m)))
    for n in range(top):
        for m in range(top):
            if abs(n - m) < 2:
                out.append(Task('h_etag', dict(n=n, m=m)))
                out.append(Task('h_parametrized', dict(n=n, m=m)))
                out.append(Task('h_entry', dict(n=n, m=m)))
                out.append(Task('h_unavailable', dict(n=n, m=m)))
    for sizes in ((), (1,), (1, 1), (1, 2), (1, 1, 1), (2, 2, 1)) + (
            ((1, 1, 1, 1), (1, 2, 1, 2, 1)) if t else ()):
        for k in (1, 2):
            out.append(Task('h_multidict', dict(sizes=sizes, key=k)))
    out.append(Task('h_code', {}))
    return out
