"""Header field values built together with what they mean (G15, G16).

Each builder writes one field value piece by piece, with symbolic bytes in the
pieces, and at the same time the value a reader of the RFC would take from it
and the style notices it deserves."""

from datetime import datetime

from httpolice.structure import (CaseInsensitive as CI, FieldName, MultiDict,
                                 Unavailable)
from checks.grammar_common import message
from checks.values_common import codes
from ref.grammars import GRAMMAR
from sx.ctx import Task

STYLE = [1000, 1014, 1015, 1017, 1119, 1133, 1148, 1151, 1158, 1196, 1225,
         1226, 1253, 1254, 1256, 1257, 1282, 1299, 1300, 1307, 1308, 1309]

TCHAR = bytes(c for c in range(33, 127)
              if c not in b'"(),/:;<=>?@[\\]{}')
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
DIGIT = b'0123456789'
OBS = bytes(range(0x80, 0x100))
# what may follow a backslash
ESCAPABLE = b'\t ' + bytes(range(33, 127)) + OBS
QDTEXT = bytes([9, 32, 33] + list(range(0x23, 0x5c)) +
               list(range(0x5d, 0x7f))) + OBS
CTEXT = bytes([9, 32] + list(range(0x21, 0x28)) + list(range(0x2a, 0x5c)) +
              list(range(0x5d, 0x7f))) + OBS
ETAGC = b'!' + bytes(range(0x23, 0x7f)) + OBS


def without(alphabet, chars):
    return bytes(c for c in alphabet if c not in chars)


class B:

    def __init__(self, ctx, naive='', spare=3):
        self.ctx = ctx
        # How many more times may the shape of the value depart from the
        # plainest one?  (All combinations of that many departures are tried;
        # what bytes fill the shape does not count.)
        self.spare = spare
        self.notes = set()
        self.n = 0
        self.naive = naive          # delimiters naive parsers trip over

    def uid(self):
        self.n += 1
        return 'u%d' % self.n

    def kind(self, *options):
        return self.ctx.choice(self.uid(), options)

    def pick(self, *options):
        if not self.spare:
            return options[0]
        i = self.ctx.choice(self.uid(), range(len(options)))
        if i:
            self.spare -= 1
        return options[i]

    def flag(self):
        return self.pick(False, True)

    def upto(self, n):
        return range(self.pick(*range(n + 1)))

    def note(self, *ids):
        self.notes.update(ids)

    # each returns (raw, text)

    def tok(self, n=1, bar=b'*', prefix=b''):
        b = prefix + self.ctx.bytes(self.uid(), n, without(TCHAR, bar))
        return b, b.decode('ascii')

    def cased(self, word):
        out = b''
        for c in word:
            if c.isalpha():
                out = out + self.ctx.bytes(
                    self.uid(), 1, (c.lower() + c.upper()).encode('ascii'))
            else:
                out = out + c.encode('ascii')
        return out, out.decode('ascii')

    def digits(self, n):
        b = self.ctx.bytes(self.uid(), n, DIGIT)
        v = 0
        for i in range(n):
            v = v * 10 + (b[i] - 48)
        return b, v

    def quoted(self, kinds=('', 'p', 'pp', 'e', 'pe', 'c', 's')):
        kind = self.pick(*kinds)
        raw, text = b'', b''
        for k in kind:
            if k == 'p':
                b = self.ctx.bytes(self.uid(), 1, without(QDTEXT, b',;'))
                raw, text = raw + b, text + b
            elif k == 'e':
                b = self.ctx.bytes(self.uid(), 1, without(ESCAPABLE, b',;'))
                raw, text = raw + b'\\' + b, text + b
                if b not in (b'"', b'\\'):
                    self.note(1017)
            else:
                b = {'c': b',', 's': b';'}[k]
                raw, text = raw + b, text + b
                if b.decode('ascii') in self.naive:
                    self.note({'c': 1299, 's': 1300}[k])
        return b'"' + raw + b'"', text.decode('iso-8859-1')

    def value(self, kinds=('', 'p', 'e', 'pe', 'c', 's')):
        """-> raw, text, is it a quoted string"""
        if self.flag():
            return self.tok(bar=b'') + (False,)
        return self.quoted(kinds) + (True,)

    def brief(self):
        return self.value(kinds=('', 'p', 'e'))

    def ows(self):
        return self.pick(b'', b' ', b'\t ')

    def bws(self):
        w = self.pick(b'', b' ')
        if w:
            self.note(1015)
        return w

    def rws(self):
        w = self.pick(b' ', b'  ', b'\t')
        if w != b' ':
            self.note(1014)
        return w

    def q(self):
        return self.pick(*QVALUES)

    def params(self, most=2, bws=False, name_bar=b'', ci=True, between=b';'):
        raw, val = b'', []
        for i in self.upto(most):
            n, nt = self.tok(bar=name_bar)
            v, vt, _ = self.value() if i == 0 else self.brief()
            w1, w2 = self.pick((b'', b''), (b' ', b'\t')) if i == 0 else \
                (b'', b' ')
            raw = raw + w1 + b';' + w2 + n
            if bws:
                raw = raw + self.bws()
            raw = raw + b'=' + v
            val.append((CI(nt) if ci else nt, vt))
        return raw, val

    def seq(self, elems):
        """A comma-separated list of (raw, value)"""
        style = self.pick('plain', 'spaced', 'lead', 'trail', 'double')
        raws = [r for r, _ in elems]
        if style == 'lead':
            raws.insert(0, b'')
        elif style == 'trail':
            raws.append(b'')
        elif style == 'double':
            raws.insert(1, b'')
        if len(raws) != len(elems):
            self.note(1151)
        sep = b' ,\t' if style in ('spaced', 'double') else b','
        out = raws[0]
        for r in raws[1:]:
            out = out + sep + r
        if style == 'double' and len(elems) == 1:
            # no whitespace at the end
            out = out[:len(out) - 2] + b','
        return out, [v for _, v in elems]


QVALUES = [(b'0', 0.0), (b'0.', 0.0), (b'0.5', 0.5), (b'0.25', 0.25),
           (b'0.001', 0.001), (b'0.999', 0.999), (b'1', 1.0), (b'1.000', 1.0)]

BAD_MEDIA = ['application/text', 'plain/text', 'text/json']


def media(b, wild=False):
    kind = b.pick(*(['t', 'bad'] + ['s', 'w'] * wild))
    if kind == 'bad':
        b.note(1282)
        r, t = b.cased(b.pick(*BAD_MEDIA))
        return r, CI(t)
    if kind == 'w':
        return b'*/*', u'*/*'
    x, xt = b.tok()
    if kind == 's':
        return x + b'/*', xt + u'/*'
    y, yt = b.tok()
    return x + b'/' + y, CI(xt + u'/' + yt)


def content_type(b):
    r, t = media(b)
    p, pv = b.params()
    return r + p, (t, MultiDict(pv))


def accept(b):
    elems = []
    n = b.pick(1, 2)
    for i in range(n):
        r, t = media(b, wild=True) if i == 0 else (b'a/b', CI('a/b'))
        p, pv = b.params(1, name_bar=b'qQ') if i == 0 else (b'', [])
        ext = []
        if b.flag():
            w = b.ows()
            qr, qv = (b'0.5', 0.5) if i else b.q()
            p = p + w + b';' + b'q='[:1] + b'=' + qr
            ext = [(CI('q'), qv)]
            if i == 0:
                for _ in b.upto(1):
                    n_, nt = b.tok()
                    p = p + b'; ' + n_
                    v = None
                    if b.flag():
                        vr, v, _ = b.brief()
                        p = p + b'=' + vr
                    ext.append((nt, v))
        elems.append((r + p, ((t, MultiDict(pv)), MultiDict(ext))))
    return b.seq(elems)


def weighted(item):
    def build(b):
        elems = []
        for i in range(b.pick(1, 2)):
            r, v = item(b)
            q = None
            if b.flag():
                w = b.ows()
                qr, q = (b'0.5', 0.5) if i else b.q()
                qn = b.pick(b'q', b'Q')
                r = r + w + b'; '[:b.pick(1, 2)] + qn + b'=' + qr
            elems.append((r, (v, q)))
        return b.seq(elems)
    return build


def token_or_star(b):
    if b.flag():
        return b'*', u'*'
    r, t = b.tok(2, bar=b'')
    return r, CI(t)


def range_item(b):
    k = b.pick('*', 'a', 'ab-1')
    if k == '*':
        return b'*', CI('*')
    r = b.ctx.bytes(b.uid(), 2, ALPHA)
    if k == 'ab-1':
        r = r + b'-' + b.ctx.bytes(b.uid(), 1, ALPHA + DIGIT)
    return r, CI(r.decode('ascii'))


def te(b):
    elems = []
    for i in range(b.pick(1, 2)):
        if i == 0 and b.flag():
            r, t = b.cased('trailers')
            elems.append((r, CI(t)))
            continue
        r, v = coding(b, name_bar=b'qQ', most=1)
        q = None
        if b.flag():
            qr, q = (b'0.5', 0.5) if i else b.q()
            r = r + b.ows() + b';q=' + qr
        elems.append((r, (v, q)))
    return b.seq(elems)


def coding(b, name_bar=b'', most=2):
    if b.flag():
        r, t = b.cased(b.pick('gzip', 'chunked'))
        return r, (CI(t), MultiDict([]))
    r, t = b.tok(2)
    p, pv = b.params(most, bws=True, name_bar=name_bar, ci=False)
    return r + p, (CI(t), MultiDict(pv))


def transfer_encoding(b):
    return b.seq([coding(b, most=1 if i else 2)
                  for i in range(b.pick(1, 2))])


def simple(ci, n=2, empty=False, bar=b''):
    def build(b):
        elems = []
        for _ in range(b.pick(1, 2, 3)):
            r, t = b.tok(n, bar=bar)
            elems.append((r, CI(t) if ci else t))
        return b.seq(elems)
    return build


def star_or(build):
    def f(b):
        if b.flag():
            return b'*', u'*'
        return build(b)
    return f


def language(b):
    elems = []
    for _ in range(b.pick(1, 2)):
        r = b.ctx.bytes(b.uid(), 2, ALPHA)
        if b.flag():
            r = r + b'-' + b.ctx.bytes(b.uid(), 2, ALPHA)
        elems.append((r, CI(r.decode('ascii'))))
    return b.seq(elems)


def entity_tag(b):
    weak = b.flag()
    o = b'"' + b.ctx.bytes(b.uid(), b.pick(0, 1, 2), ETAGC) + b'"'
    if b'\\' in o:
        b.note(1119)
    return (b'W/' if weak else b'') + o, (weak, o.decode('iso-8859-1'))


def tags(b):
    return b.seq([entity_tag(b) for _ in range(b.pick(1, 2))])


def version(b):
    r, t = b.tok(2)
    v = None
    if b.flag():
        vr, v = b.tok()
        r = r + b'/' + vr
    return r, (t, v)


def comment(b, depth=2, bar=b''):
    raw, text = b'', b''
    for k in b.pick('', 'p', 'pp', 'e', 'ep', 'n', 'pn'):
        if k == 'p':
            c = b.ctx.bytes(b.uid(), 1, without(CTEXT, bar))
            raw, text = raw + c, text + c
        elif k == 'e':
            c = b.ctx.bytes(b.uid(), 1, without(ESCAPABLE, bar))
            raw, text = raw + b'\\' + c, text + c
            if c not in (b'(', b')', b'\\'):
                b.note(1017)
        elif depth:
            r, t = comment(b, depth - 2, bar)
            raw = raw + r
            text = text + b'(' + t.encode('iso-8859-1') + b')'
    return b'(' + raw + b')', text.decode('iso-8859-1')


def products(b):
    r, v = version(b)
    out = [v]
    for i in b.upto(2):
        w = b.rws()
        if b.flag():
            x, y = comment(b, 2 if i == 0 else 0)
        else:
            x, y = version(b)
        r = r + w + x
        out.append(y)
    return r, out


def upgrade(b):
    return b.seq([version(b) for _ in range(b.pick(1, 2))])


def host_port(b):
    k = b.pick('a', 'v4', 'v6')
    if k == 'a':
        r = b.ctx.bytes(b.uid(), 1, without(TCHAR, b'%#^`|'))
    else:
        r = b'1.2.3.4' if k == 'v4' else b'[::1]'
    if b.flag():
        r = r + b':' + b.ctx.bytes(b.uid(), b.pick(0, 2), DIGIT)
    return r, r.decode('ascii')


def via(b):
    elems = []
    for i in range(b.pick(1, 2)):
        v, vt = b.tok()
        name = u'HTTP'
        if b.flag():
            p, name = b.tok()
            v = p + b'/' + v
        h, ht = host_port(b) if i == 0 else b.tok()
        r = v + (b.rws() if i == 0 else b' ') + h
        c = None
        if b.flag():
            cr, c = comment(b, 0, bar=b',;')
            r = r + (b.rws() if i == 0 else b' ') + cr
        elems.append((r, ((name, vt), ht, c)))
    return b.seq(elems)


def number(most):
    def build(b):
        return b.digits(b.pick(*range(1, most + 1)))
    return build


def ranges(b):
    if b.flag():
        u, ut = b.tok(2)
        x = b.ctx.bytes(b.uid(), b.pick(1, 2), bytes(range(33, 127)))
        return u + b'=' + x, (CI(ut), x.decode('ascii'))
    r, t = b.cased('bytes')
    elems = []
    for i in range(b.pick(1, 2, 3)):
        k = b.pick('both', 'from', 'last')
        if i == 2:
            k = 'from'
        first, fv = b.digits(b.pick(1, 2) if i == 0 else 1)
        last, lv = b.digits(b.pick(1, 2) if i == 0 else 1)
        if k == 'both':
            elems.append((first + b'-' + last, (fv, lv)))
            if lv < fv:
                b.note(1133)
        elif k == 'from':
            elems.append((first + b'-', (fv, None)))
        else:
            elems.append((b'-' + last, (None, lv)))
    raw, vals = b.seq(elems)
    return r + b'=' + raw, (CI(t), vals)


def content_range(b):
    k = b.kind('both', 'star', 'unsat', 'other')
    if k == 'other':
        u, ut = b.tok(2)
        x = b.ctx.bytes(b.uid(), b.pick(0, 1, 2), bytes(range(1, 128)))
        return u + b' ' + x, (CI(ut), x.decode('ascii'))
    r, t = b.cased('bytes')
    first, fv = b.digits(b.pick(1, 2))
    last, lv = b.digits(b.pick(1, 2))
    total, tv = b.digits(b.pick(1, 2))
    if k == 'unsat':
        return r + b' */' + total, (CI(t), (None, tv))
    bad = lv < fv
    if k == 'both':
        bad = bad | (tv <= lv)
        val = ((fv, lv), tv)
    else:
        total, val = b'*', ((fv, lv), None)
    if bad:
        b.note(1148)
    return r + b' ' + first + b'-' + last + b'/' + total, (CI(t), val)


def cache_control(b):
    elems = []
    for i in range(b.pick(1, 2)):
        r, t = b.tok(1, prefix=b'x')
        v = None
        if b.flag():
            vr, v, _ = b.value() if i == 0 else b.brief()
            r = r + b'=' + vr
        elems.append((r, (CI(t), v)))
    return b.seq(elems)


def pragma(b):
    elems = []
    for i in range(b.pick(1, 2)):
        if i == 0 and b.flag():
            r, t = b.cased('no-cache')
            elems.append((r, CI(t)))
            continue
        r, t = b.tok(2)
        v = None
        if b.flag():
            vr, v, _ = b.value() if i == 0 else b.brief()
            r = r + b'=' + vr
        elems.append((r, (t, v)))
    return b.seq(elems)


def warning(b):
    elems = []
    for i in range(b.pick(1, 2)):
        c, cv = b.digits(3) if i == 0 else (b'199', 199)
        if i == 0:
            a, at = host_port(b) if b.flag() else b.tok(2, bar=b'')
            x, xt = b.quoted(('', 'p', 'e', 'pe', 'c', 's'))
        else:
            (a, at), (x, xt) = (b'-', u'-'), b.quoted(('', 'p'))
        r = c + b' ' + a + b' ' + x
        d = None
        if b.flag():
            r = r + b' "Sun, 06 Nov 1994 08:49:37 GMT"'
            d = datetime(1994, 11, 6, 8, 49, 37)
        elems.append((r, (cv, at, xt, d)))
    return b.seq(elems)


def auth_params(b, n, short=False):
    elems = []
    for i in range(n):
        if i == 0 and b.flag():
            name, nt = b.cased('realm')
            realm = True
        else:
            name, nt = b.tok(1)
            realm = False
        v, vt, isq = b.brief() if i or short else b.value()
        if realm and not isq:
            b.note(1196)
        w1, w2 = (b.bws(), b.bws()) if i == 0 and not short else (b'', b'')
        elems.append((name + w1 + b'=' + w2 + v, (CI(nt), vt)))
    return elems


TOKEN68 = ALPHA + DIGIT + b'-._~+/'


def one_auth(b):
    s, st = b.tok(2)
    k = b.kind('none', 'spaces', '68', 'params')
    if k == 'none':
        return s, (CI(st), MultiDict([]))
    sp = b.pick(b' ', b'   ')
    if k == 'spaces':
        return s + sp, (CI(st), MultiDict([]))
    if k == '68':
        x = b.ctx.bytes(b.uid(), b.pick(1, 2), TOKEN68) + \
            b.pick(b'', b'=', b'==')
        return s + sp + x, (CI(st), x.decode('ascii'))
    raw, vals = b.seq(auth_params(b, b.pick(1, 2)))
    return s + sp + raw, (CI(st), MultiDict(vals))


def challenges(b):
    raw = b''
    vals = []
    for i in range(b.pick(1, 2)):
        s, st = b.tok(1)
        if i:
            raw = raw + b.pick(b', ', b',')
        k = b.kind('none', '68', 'params')
        if k == 'none':
            raw, v = raw + s, MultiDict([])
        elif k == '68':
            x = b.ctx.bytes(b.uid(), 1, TOKEN68) + b.pick(b'', b'=')
            raw, v = raw + s + b' ' + x, x.decode('ascii')
        else:
            elems = auth_params(b, b.pick(1, 2), short=True)
            raw = raw + s + b.pick(b' ', b'  ') + b', '.join(
                r for r, _ in elems)
            v = MultiDict([x for _, x in elems])
        vals.append((CI(st), v))
    return raw, vals


HEXD = b'0123456789abcdefABCDEF'


def unhex(b):
    v = 0
    for i in range(2):
        c = b[i]
        d = c - 48 if c < 58 else (c - 55 if c < 71 else c - 87)
        v = v * 16 + d
    return v


ATTR_CHAR = ALPHA + DIGIT + b'!#$&+-.^_`|~'


def ext_value(b, bar=b''):
    k = b.kind('utf', 'other')
    if k == 'utf':
        c, ct = b.cased('utf-8')
    else:
        c = b.ctx.bytes(b.uid(), 1, without(
            ALPHA + DIGIT + b'!#$%&+-^_`{}~', bar))
        ct = c.decode('ascii')
        b.note(1253)
    lang = None
    lr = b''
    if b.flag():
        lr = b.ctx.bytes(b.uid(), 2, ALPHA)
        lang = CI(lr.decode('ascii'))
    raw, val = b'', b''
    for x in b.pick('', 'p', 'x', 'xp', 'e', 'ex'):
        if x == 'p':
            y = b.ctx.bytes(b.uid(), 1, ATTR_CHAR)
            raw, val = raw + y, val + y
        elif x == 'x':
            y = b.ctx.bytes(b.uid(), 2, HEXD)
            v = unhex(y)
            raw = raw + b'%' + y
            val = val + bytes([v])
            if k == 'utf' and v > 127:
                b.note(1254)
        else:               # a two-byte character
            raw, val = raw + b'%c3%A9', val + b'\xc3\xa9'
    return c + b"'" + lr + b"'" + raw, (CI(ct), lang, val)


def disposition(b):
    r, t = b.tok(2)
    vals = []
    for i in b.upto(2):
        sep = b.ows() + b';' + b.pick(b'', b' ') if i == 0 else b';'
        w1, w2 = b.pick((b'', b''), (b' ', b'\t')) if i == 0 else (b'', b'')
        if i == 0:
            k = b.kind('filename', 'filename*', 'other')
        else:
            k = b.pick('filename', 'other')
        if k == 'filename*':
            n, nt = b.cased('f')
            n, nt = n + b'ilename*', nt + u'ilename*'
            v, vt = ext_value(b)
        else:
            n, nt = b.cased('filename') if k == 'filename' and i == 0 else \
                (b'filename', u'filename') if k == 'filename' else b.tok(2)
            v, vt, _ = b.value() if i == 0 else b.brief()
        r = r + sep + n + w1 + b'=' + w2 + v
        vals.append((CI(nt), vt))
    return r, (CI(t), MultiDict(vals))


def hsts(b):
    raw, vals = b'', []
    for i in range(b.pick(1, 2, 3)):
        if i:
            raw = raw + b.ows() + b';' + (b.ows() if i == 1 else b'')
        if i == 2 or (i == 0 and b.flag()):
            if i == 0:
                continue            # empty
            n, nt = b.tok(1, prefix=b'y')
            raw = raw + n
            vals.append((CI(nt), None))
            continue
        n, nt = b.tok(1, prefix=b'x')
        v = None
        raw = raw + n
        if b.flag():
            w = b.ows() if i == 0 else b''
            vr, v, _ = b.value() if i == 0 else b.brief()
            raw = raw + w + b'=' + vr
        vals.append((CI(nt), v))
    return raw, vals


def node(b):
    k = b.kind('v4', 'v6', 'unknown', 'obf')
    if k == 'v4':
        d, _ = b.digits(1)
        r = b'1.2.3.' + d
        t = r.decode('ascii')
    elif k == 'v6':
        h = b.ctx.bytes(b.uid(), 1, HEXD)
        r, t = b'[::' + h + b']', u'::' + h.decode('ascii')
    elif k == 'unknown':
        r, t = b.cased('unknown')
    else:
        r = b'_' + b.ctx.bytes(b.uid(), 2, ALPHA + DIGIT + b'._-')
        t = r.decode('ascii')
    p = None
    kp = b.pick('', 'n', 'o')
    if kp == 'n':
        d, p = b.digits(b.pick(1, 2, 5))
        r = r + b':' + d
    elif kp == 'o':
        d = b'_' + b.ctx.bytes(b.uid(), 1, ALPHA + DIGIT + b'._-')
        r, p = r + b':' + d, d.decode('ascii')
    return r, (t, p)


def forwarded(b):
    elems = []
    for i in range(b.pick(1, 2)):
        raw, vals = b'', []
        for j in range(b.pick(1, 2)):
            if j:
                raw = raw + b.pick(b';', b';;')
            if i == 0 and j == 0 and b.flag():
                n, nt = b.cased(b.pick('for', 'by'))
                v, vt = node(b)
                raw = raw + n + b'="' + v + b'"'
            else:
                n, nt = b.tok(1, prefix=b'x%d' % j)
                v, vt, _ = b.value(('', 'p', 'e', 'c', 's')) if i == 0 else \
                    b.brief()
                raw = raw + n + b'=' + v
            vals.append((CI(nt), vt))
        elems.append((raw, vals))
    return b.seq(elems)


def prefer(b, with_params=True):
    elems = []
    for i in range(b.pick(1, 2)):
        r, t = b.tok(1, prefix=b'x')
        v = None
        if b.flag():
            vr, v, _ = b.value() if i == 0 else b.brief()
            r = r + b'=' + vr
            if len(v) == 0:
                v = None
        ps = []
        if with_params and i == 0:
            for _ in b.upto(2):
                n, nt = b.tok(1)
                pv = None
                r = r + b.pick(b';', b' ; ') + n
                if b.flag():
                    vr, pv, _ = b.brief()
                    r = r + b'=' + vr
                    if len(pv) == 0:
                        pv = None
                ps.append((CI(nt), pv))
        elems.append((r, ((CI(t), v), ps) if with_params else (CI(t), v)))
    return b.seq(elems)


def preference_applied(b):
    return prefer(b, False)


def alt_svc(b):
    elems = []
    for i in range(b.pick(1, 2)):
        raw, val = b'', b''
        for k in b.pick('p', 'pp', 'x', 'px', 'P') if i == 0 else 'p':
            if k == 'p':
                x = b.ctx.bytes(b.uid(), 1, without(TCHAR, b'%'))
                raw, val = raw + x, val + x
            elif k == 'x':
                x = b.ctx.bytes(b.uid(), 2, HEXD)
                v = unhex(x)
                raw, val = raw + b'%' + x, val + bytes([v])
                good = without(TCHAR, b'%')
                if bytes([v]) in GOOD_ALPN or x[:1] in LOWER or \
                        x[1:] in LOWER:
                    b.note(1256)
                del good
            else:
                raw, val = raw + b'%', val + b'%'
                b.note(1256)
        # the authority
        if i == 0:
            h = b.pick(b'', b'a', b'[::1]', None)
            if h is None:
                h = b.ctx.bytes(b.uid(), 1, without(QDTEXT, b',;'))
            a = h + b.pick(b':', b'') + b.ctx.bytes(b.uid(), b.pick(0, 2),
                                                   DIGIT)
        else:
            a = b':1'
        av = a.decode('iso-8859-1')
        if not GRAMMAR.accepts('alt-authority', a):
            b.note(1257)
            av = Unavailable(a)
        raw = raw + b'="' + a + b'"'
        ps = []
        if i == 0:
            for _ in b.upto(1):
                n, nt = b.tok(1, prefix=b'x')
                v, vt, _ = b.value()
                raw = raw + b.pick(b';', b'\t; ') + n + b'=' + v
                ps.append((nt, vt))
        elems.append((raw, ((val, av), MultiDict(ps))))
    return b.seq(elems)


LOWER = [bytes([c]) for c in b'abcdef']
GOOD_ALPN = [bytes([c]) for c in without(TCHAR, b'%')]

URICHAR = ALPHA + DIGIT + b'-._~!$&\'()*+='


def link(b):
    elems = []
    for i in range(b.pick(1, 2)):
        u = b.ctx.bytes(b.uid(), b.pick(0, 1), URICHAR)
        if i == 0 and b.flag():
            u = b'/' + u + b'?x'
        raw = b'<' + u + b'>'
        vals = []
        seen = []
        for j in range(b.pick(0, 1, 2) if i == 0 else b.pick(0, 1)):
            first = i == 0 and j == 0
            k = (b.kind if first else b.pick)(
                'rel', 'rels', 'rev', 'title', 'title*', 'hreflang',
                'type', 'media', 'anchor', 'other', 'bare') \
                if i == 0 else 'rel'
            raw = raw + (b.ows() if first else b'') + b';'
            n, nt = b.cased(k[:1]) if k not in ('rels', 'bare', 'other') \
                else (k[:1].encode('ascii'), k[:1])
            if k == 'rels':
                n, nt = b'rel', u'rel'
            elif k in ('bare', 'other'):
                n, nt = b.tok(1, prefix=b'x')
            else:
                n, nt = n + k[1:].encode('ascii'), nt + k[1:]
            isq = True
            if k in ('rel', 'rev'):
                x = b.ctx.bytes(b.uid(), 1, ALPHA + DIGIT + b'.-')
                isq = b.flag()
                v = b'"' + x + b'"' if isq else x
                if x in LOALPHA:
                    vt = [CI(x.decode('ascii'))]
                else:
                    vt = Unavailable(x)
            elif k == 'rels':
                x = b.ctx.bytes(b.uid(), 1, LOWERS)
                y = b'u:' + b.ctx.bytes(b.uid(), 1, URICHAR)
                v = b'"' + x + b.pick(b' ', b'  ') + y + b'"'
                vt = [CI(x.decode('ascii')), y.decode('ascii')]
            elif k == 'hreflang':
                x = b.ctx.bytes(b.uid(), 2, ALPHA + b'-')
                isq = b.flag()
                v = b'"' + x + b'"' if isq else x
                vt = Unavailable(x) if b'-' in x else CI(x.decode('ascii'))
            elif k == 'type':
                x = b.pick(b'a/b', b'Text/JSON', b'a')
                v = b'"' + x + b'"'
                vt = CI(x.decode('ascii')) if x != b'a' else Unavailable(x)
            elif k == 'anchor':
                x = b.pick(b'#a', b'', b' ')
                v = b'"' + x + b'"'
                vt = Unavailable(x) if x == b' ' else x.decode('ascii')
            elif k == 'title*':
                v, vt = ext_value(b, bar=b'{}') if first else \
                    (b"utf-8''a", (CI('utf-8'), None, b'a'))
                isq = False
            elif k == 'bare':
                v = vt = None
            else:
                v, vt, isq = b.value() if first else b.brief()
            w1, w2 = (b.bws(), b.bws()) if first and v is not None \
                else (b'', b'')
            raw = raw + n + w1
            if v is not None:
                raw = raw + b'=' + w2 + v
            kind = 'rel' if k == 'rels' else k
            if kind in ('rel', 'media', 'title', 'title*', 'type'):
                if kind in seen:
                    b.note(1225)
                    continue
                seen.append(kind)
            if isinstance(vt, Unavailable):
                b.note(1158)
            if k == 'title' and not isq:
                b.note(1307)
            if k == 'hreflang' and isq:
                b.note(1308)
            if k == 'rev':
                b.note(1226)
            if k == 'type' and vt == u'text/json':
                b.note(1282)
            vals.append((CI(nt), vt))
        if 'rel' not in seen:
            b.note(1309)
        elems.append((raw, (u.decode('ascii'), MultiDict(vals))))
    return b.seq(elems)


LOALPHA = [bytes([c]) for c in b'abcdefghijklmnopqrstuvwxyz']
LOWERS = b'abcdefghijklmnopqrstuvwxyz'


def silence(b):
    elems = []
    for i in range(b.pick(1, 2)):
        r, v = b.digits(b.pick(1, 4) if i == 0 else 2)
        s = None
        if b.flag():
            w, _ = b.cased('resp') if i == 0 else (b'resp', u'')
            r, s = r + b.rws() + w, True
        elems.append((r, (v, s)))
    return b.seq(elems)


def accept_ranges(b):
    if b.flag():
        r, t = b.cased('none')
        return r, CI(t)
    return simple(True, 2)(b)


BUILDERS = {
    'Content-Type': (content_type, ';'),
    'Accept': (accept, ',;'),
    'Accept-Charset': (weighted(token_or_star), ''),
    'Accept-Encoding': (weighted(token_or_star), ''),
    'Accept-Language': (weighted(range_item), ''),
    'TE': (te, ',;'),
    'Transfer-Encoding': (transfer_encoding, ',;'),
    'Trailer': (simple(True), ''),
    'Connection': (simple(True), ''),
    'Vary': (star_or(simple(True, bar=b'*')), ''),
    'Allow': (simple(False), ''),
    'Content-Encoding': (simple(True), ''),
    'Content-Language': (language, ''),
    'Accept-Ranges': (accept_ranges, ''),
    'Access-Control-Request-Headers': (simple(True), ''),
    'Access-Control-Allow-Methods': (simple(False), ''),
    'Access-Control-Allow-Headers': (simple(True), ''),
    'Access-Control-Expose-Headers': (simple(True), ''),
    'ETag': (entity_tag, ''),
    'If-Range': (entity_tag, ''),
    'If-Match': (star_or(tags), ''),
    'If-None-Match': (star_or(tags), ''),
    'User-Agent': (products, ''),
    'Server': (products, ''),
    'Upgrade': (upgrade, ''),
    'Via': (via, ','),
    'Content-Length': (number(9), ''),
    'Age': (number(9), ''),
    'Max-Forwards': (number(9), ''),
    'Retry-After': (number(9), ''),
    'Access-Control-Max-Age': (number(9), ''),
    'Range': (ranges, ''),
    'Content-Range': (content_range, ''),
    'Cache-Control': (cache_control, ''),
    'Pragma': (pragma, ''),
    'Warning': (warning, ','),
    'Authorization': (one_auth, ''),
    'Proxy-Authorization': (one_auth, ''),
    'WWW-Authenticate': (challenges, ''),
    'Proxy-Authenticate': (challenges, ''),
    'Content-Disposition': (disposition, ''),
    'Strict-Transport-Security': (hsts, ';'),
    'Forwarded': (forwarded, ',;'),
    'Prefer': (prefer, ',;'),
    'Preference-Applied': (preference_applied, ','),
    'Alt-Svc': (alt_svc, ''),
    'Link': (link, ',;'),
    'Host': (host_port, ''),
    'Alt-Used': (host_port, ''),
    'HTTPolice-Silence': (silence, ''),
}


def same(got, want):
    """The same value; parameter names and the like compare without case."""
    if want is None or isinstance(want, bool):
        return got is want
    if isinstance(want, Unavailable):
        return isinstance(got, Unavailable)
    if isinstance(got, Unavailable) or got is None:
        return False
    if isinstance(want, MultiDict):
        return isinstance(got, MultiDict) and same(got.sequence,
                                                   want.sequence)
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return False
        r = True
        for x, y in zip(got, want):
            r = r & same(x, y)
        return r
    if isinstance(want, str):
        if isinstance(want, CI) and not isinstance(got, CI):
            return False
        return isinstance(got, str) and codes(got) == codes(want)
    return got == want


def build(ctx, field, spare):
    f, naive = BUILDERS[field]
    b = B(ctx, naive, spare)
    raw, want = f(b)
    msg = message(field, raw)
    view = msg.headers[FieldName(field)]
    got = view.value
    ids = sorted(set(c.id for c in msg.notices if c.id in STYLE))
    return b, raw, want, got, ids


def h_value(ctx, field, spare):
    b, raw, want, got, ids = build(ctx, field, spare)
    ctx.check(1000 not in ids, 'accepted', field, raw)
    ctx.check(same(got, want), 'value', field, raw, got, want)
    ctx.observe(ids)


def h_notices(ctx, field, spare):
    b, raw, want, got, ids = build(ctx, field, spare)
    expected = sorted(b.notes)
    ctx.check(ids == expected, 'style notices', field, raw, ids, expected)
    for i in expected:
        ctx.cover(str(i))
    ctx.observe(ids)


FUNCTIONS = ['httpolice.syntax.' + m for m in (
    'rfc7230', 'rfc7231', 'rfc7232', 'rfc7233', 'rfc7234', 'rfc7235',
    'rfc6266', 'rfc6797', 'rfc7239', 'rfc7240', 'rfc7838', 'rfc8187',
    'rfc8288', 'rfc5646', 'rfc4647', 'common', 'internal', 'whatwg_fetch')] + [
    'httpolice.parse.parse', 'httpolice.header.HeaderView',
    'httpolice.structure']


BOUNDS = {
    'quick': '50 structured fields; values assembled from their parts (list '
             'elements, items, parameters, quoted pairs, comments, numbers, '
             'whitespace), every byte that fills a part symbolic over all '
             'bytes allowed there; every combination of at most 3 (2 for '
             'Alt-Svc, Transfer-Encoding, Warning, Via, Content-Disposition, '
             'Content-Language, TE, Link) departures from the plainest shape',
    'thorough': 'the same with one more departure',
}
OUTSIDE = ('parts longer than 3 symbolic bytes, more than 3 list elements or '
           '2 parameters; fields whose values the program treats as plain '
           'text; malformed values (decided by G11-G13); commas in Link URIs '
           'and Via comments, for which 1299 is imprecise; the trailing '
           'semicolon of Prefer')
ASSUMPTIONS = ['checks/header_values.py states what each assembled value '
               'means and which style notices it deserves, from the RFCs and '
               'the documentation of the notices']

HEAVY = ['Alt-Svc', 'Transfer-Encoding', 'Warning', 'Via',
         'Content-Disposition', 'Content-Language', 'TE', 'Link']


def tasks(harness, tier):
    out = []
    for f in BUILDERS:
        spare = 2 if f in HEAVY else 3
        if tier == 'thorough':
            spare += 1
        out.append(Task(harness, dict(field=f, spare=spare),
                        max_paths=400000))
    return out
