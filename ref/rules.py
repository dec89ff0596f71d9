"""Which notices an exchange deserves, from its abstract contents.

Header values come in structured form (see `Hdrs`), so nothing here parses.
Written from the titles and explanations of notices.xml and the RFC sections
they cite. Every rule yields (notice id, key); one notice is expected per
distinct (id, key).
"""

from ref import registry as K


class _Bad:
    """A header value that does not conform to the header's grammar."""

    def __repr__(self):
        return 'BAD'


class _Star:
    """The single value `*` where a list could also be."""

    def __repr__(self):
        return 'STAR'


BAD = _Bad()
STAR = _Star()


class Entry:

    def __init__(self, name, raw, value, trailer=False):
        self.name = name
        self.raw = raw
        self.value = value
        self.trailer = trailer


class Hdrs:
    """`entries`: header entries in order, then trailer entries."""

    def __init__(self, entries):
        self.entries = [e for e in entries if not e.trailer] + \
            [e for e in entries if e.trailer]

    def names(self):
        out = []
        for e in self.entries:
            if not any(n.lower() == e.name.lower() for n in out):
                out.append(e.name)
        return out

    def usable(self, name):
        forbidden = 't' in K.header(name)
        return [e for e in self.entries if e.name.lower() == name.lower() and
                not (e.trailer and forbidden)]

    def has(self, name):
        return len(self.usable(name)) > 0

    def one(self, name):
        """The value of a single-valued header, None if absent or BAD."""
        es = self.usable(name)
        if es and es[-1].value is not BAD:
            return es[-1].value
        return None

    def list(self, name):
        """The well-formed elements of a list header; STAR when it is that."""
        es = self.usable(name)
        vals = [e.value for e in es if e.value is not BAD]
        if any(v is STAR for v in vals):
            return STAR if len(es) == 1 else []
        out = []
        for v in vals:
            out.extend(v)
        return out

    def items(self, name):
        v = self.list(name)
        return [] if v is STAR else v

    def malformed(self, name):
        """Some entry of a list header is not well-formed."""
        return any(e.value is BAD for e in self.usable(name))

    def token(self, name, word):
        return any(x.lower() == word for x in self.items(name))

    def cc(self, directive):
        """None, True (no argument), BAD, or the argument, of the first
        occurrence of a cache directive."""
        for d, a in self.items('Cache-Control'):
            if d.lower() == directive:
                return True if a is None else a
        return None


def number(x):
    """The argument of a numeric directive, None if absent or BAD."""
    return None if x is None or x is BAD or x is True else x


def truth(x):
    """A directive is in effect (an argument of 0 is not, BAD counts)."""
    if x is None or x is True or x is BAD:
        return x is not None
    if isinstance(x, list):
        return len(x) > 0
    return x != 0


class Msg:

    def __init__(self, version, entries, body):
        self.version = version
        self.h = Hdrs(entries)
        self.body = body                # None unknown, b'' none
        self.form = None                # decoded form fields, or None


class Req(Msg):

    def __init__(self, scheme, method, target, form_of_target, version,
                 entries, body, query=()):
        Msg.__init__(self, version, entries, body)
        self.scheme = scheme
        self.method = method
        self.target = target
        self.target_form = form_of_target   # 'origin', 'absolute', ...
        self.query = query                  # names of query parameters
        self.status = None

    def tls(self):
        if self.scheme == 'http':
            return False
        if self.scheme == 'https':
            return True
        return None

    def via_proxy(self):
        if self.version in ('HTTP/1.0', 'HTTP/1.1'):
            return self.target_form == 'absolute'
        return None

    def uri(self):
        """The effective request URI (RFC 7230 section 5.5) or None."""
        if self.target_form == 'absolute':
            return self.target
        if not self.scheme:
            return None
        if self.target_form == 'authority':
            return self.scheme + '://' + self.target
        host = self.h.one('Host')
        if host is None:
            return None
        if self.target_form == 'asterisk':
            return self.scheme + '://' + host
        if self.target_form == 'origin':
            return self.scheme + '://' + host + self.target
        return None

    def may_have_body(self):
        if self.body:
            return True
        if self.version in ('HTTP/1.0', 'HTTP/1.1'):
            return self.h.has('Content-Length') or \
                self.h.has('Transfer-Encoding')
        return None


class Resp(Msg):

    def __init__(self, version, status, entries, body):
        Msg.__init__(self, version, entries, body)
        self.status = status

    def cls(self):
        s = self.status
        if s < 100 or s > 599:
            return 0
        return 1 if s < 200 else 2 if s < 300 else 3 if s < 400 else \
            4 if s < 500 else 5


class Out:

    def __init__(self):
        self.got = []

    def __call__(self, id_, *key):
        for i, k in self.got:
            if i == id_ and len(k) == len(key):
                same = True
                for a, b in zip(k, key):
                    if a is b:
                        continue
                    if not a == b:
                        same = False
                        break
                if same:
                    return
        self.got.append((id_, key))

    def ids(self):
        return [i for i, k in self.got]


# ------------------------------------------------------------------- both

def message(m, now, out):
    h = m.h
    names = h.names()
    v = m.version
    for n in names:
        if 'd' in K.header(n):
            out(1197, n.lower())
    if any(n.lower().startswith('x-') and not K.known_header(n)
           for n in names):
        out(1277)
    if v == 'HTTP/1.1' and h.has('Trailer') and \
            not h.token('Transfer-Encoding', 'chunked'):
        out(1054)
    for e in h.entries:
        if e.trailer and not h.token('Trailer', e.name.lower()):
            out(1030, e.name.lower(), e.raw)
    if h.has('Transfer-Encoding') and h.has('Content-Length'):
        out(1020)
    for opt in h.items('Connection'):
        if 'c' in K.header(opt):
            out(1034, opt.lower())
    ct = h.one('Content-Type')
    if ct is not None:
        media, params = ct
        media = media.lower()
        if media in K.DEPRECATED_MEDIA:
            out(1035)
        seen = []
        for p, _ in params:
            if p.lower() in seen:
                out(1042, p.lower())
            seen.append(p.lower())
        if media == 'application/json' and 'charset' in seen:
            out(1280)
    date = h.one('Date')
    if date is not None and date > now + 10:
        out(1109)
    for code, wdate in h.items('Warning'):
        if code < 100 or code > 299:
            out(1163, code)
        if wdate is not None and wdate is not BAD and \
                date is not None and date != wdate:
            out(1164, code)
    for p in h.items('Pragma'):
        if p.lower() != 'no-cache':
            out(1160, p)
    for proto, ver in h.items('Upgrade'):
        if proto == 'h2':
            out(1228)
        if proto == 'h2c' and is_tls(m):
            out(1233)
    if m.status == 103:
        return
    if h.has('Upgrade') and not h.token('Connection', 'upgrade'):
        out(1050)
    if transformed(m, out):
        if not warns(h, 214):
            out(1191)
        if truth(h.cc('no-transform')):
            out(1192)
    if v == 'HTTP/2':
        for n in names:
            if n.lower() in ('connection', 'transfer-encoding', 'keep-alive'):
                out(1244, n.lower())
            if n.lower() == 'upgrade':
                out(1245)


def is_tls(m):
    if isinstance(m, Req):
        return m.tls()
    return m.req.tls() if m.req is not None else None


def warns(h, *codes):
    return any(code == c for code, _ in h.items('Warning') for c in codes)


def transformed(m, out):
    if m.status == 103:
        return None
    if m.status == 203:
        out(1190)
        return True
    if warns(m.h, 214):
        out(1189)
        return True
    return None


# ---------------------------------------------------------------- request

def request(r, now, out, answered=True):
    message(r, now, out)
    h = r.h
    me = r.method
    v = r.version
    v1 = v in ('HTTP/1.0', 'HTTP/1.1')
    safe, cacheable, body_defined = K.method(me)
    if me not in K.METHODS and me.upper() in K.METHODS:
        out(1295)
    if r.body and not h.has('Content-Type'):
        out(1041)
    if v1 and body_defined == 'y' and not h.has('Content-Length') and \
            not h.has('Transfer-Encoding'):
        out(1021)
    if body_defined == 'n' and r.body == b'' and h.has('Content-Length'):
        out(1022)
    te = h.items('TE')
    if any(x[0].lower() == 'chunked' for x in te):
        out(1028)
    some = len(te) > 0 or h.malformed('TE')
    if v == 'HTTP/2' and some and not (
            len(te) == 1 and te[0][0].lower() == 'trailers' and
            not h.malformed('TE')):
        out(1244, 'te')
    if v == 'HTTP/1.1' and some and not h.token('Connection', 'te'):
        out(1029)
    if v == 'HTTP/1.1' and not h.has('Host'):
        out(1031)
    if h.has('Host') and h.entries[0].name.lower() != 'host':
        out(1032)
    for n in h.names():
        f = K.header(n)
        if 'r' in f:
            out(1063, n.lower())
        elif 'm' in f and r.may_have_body() is False:
            out(1053, n.lower())
    if r.body:
        if me == 'GET':
            out(1056)
        if me == 'HEAD':
            out(1057)
        if me == 'DELETE':
            out(1059)
        if me == 'CONNECT':
            out(1061)
        if me == 'OPTIONS' and not h.has('Content-Type'):
            out(1062)
    ex = h.one('Expect')
    if ex is not None and ex.lower() == '100-continue' and \
            r.may_have_body() is False:
        out(1066)
    if h.has('Max-Forwards') and me != 'OPTIONS' and me != 'TRACE':
        out(1067)
    ref = h.one('Referer')
    if ref is not None and r.tls() is False and \
            ref[:6].lower() == 'https:':
        out(1068)
    if not h.has('User-Agent'):
        out(1070)
    else:
        ua = h.one('User-Agent')
        if ua and all(p in K.LIBRARIES for p in ua):
            out(1093)
    for coding, q in h.items('Accept-Encoding'):
        if coding.lower() in ('x-gzip', 'x-compress') and q is not None:
            out(1116, coding.lower())
    im = h.list('If-Match')
    if im is not STAR and any(weak for weak, _ in im):
        out(1120)
    for n in h.names():
        if me == 'HEAD' and 'p' in K.header(n):
            out(1131, n.lower())
        if me in ('CONNECT', 'OPTIONS', 'TRACE') and n.lower() in (
                'if-modified-since', 'if-unmodified-since', 'if-match',
                'if-none-match', 'if-range'):
            out(1130, n.lower())
    if me not in ('CONNECT', 'OPTIONS', 'TRACE', 'GET', 'HEAD') and \
            h.has('If-Modified-Since'):
        out(1122)
    if h.has('Range') and me != 'GET':
        out(1132)
    if h.has('If-Range') and not h.has('Range'):
        out(1134)
    ir = h.one('If-Range')
    if isinstance(ir, tuple) and ir[0]:
        out(1135)
    caching_request(r, out)
    auth_request(r, out)
    if me == 'PATCH' and h.one('Content-Type') is not None and \
            h.one('Content-Type')[0].lower() in K.NOT_PATCH_MEDIA:
        out(1213)
    for proto, ver in h.items('Upgrade'):
        if proto == 'h2c':
            if r.tls():
                out(1233)
            if not h.has('HTTP2-Settings'):
                out(1231)
    h2 = h.one('HTTP2-Settings')
    if h.has('HTTP2-Settings') and \
            not h.token('Connection', 'http2-settings'):
        out(1230)
    if h2 is not None and any(c in '~.+/=' for c in h2):
        out(1234)
    negotiation_request(r, out)
    if answered and r.via_proxy():
        out(1236)


def caching_request(r, out):
    h = r.h
    for d, a in h.items('Cache-Control'):
        fact = K.CACHE_DIRECTIVES.get(d.lower())
        if fact is not None and not fact[2]:
            out(1152, d.lower())
        if d.lower() == 'no-cache' and a is not None:
            out(1159)
        if K.method(r.method)[1] == 'n' and d.lower() in (
                'max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store',
                'only-if-cached'):
            out(1171, d.lower(), a)
    if truth(h.cc('no-cache')) and not h.token('Pragma', 'no-cache'):
        out(1161)
    for code, _ in h.items('Warning'):
        if 100 <= code <= 199:
            out(1165, code)
    for a, b in (('max-stale', 'min-fresh'), ('stale-if-error', 'min-fresh'),
                 ('max-stale', 'no-cache'), ('max-age', 'no-cache')):
        if truth(h.cc(a)) and truth(h.cc(b)):
            out(1193, a, b)


def auth_request(r, out):
    h = r.h
    for name in ('Authorization', 'Proxy-Authorization'):
        cred = h.one(name)
        if cred is None:
            continue
        scheme, kind, arg = cred
        # kind: 'none', 'token68', 'params', and for Basic the decoded octets
        scheme = scheme.lower()
        if scheme == 'basic':
            if kind == 'token68':
                decoded = b64(arg)
                if decoded is None:
                    out(1210, name)
                else:
                    if not any(c == 0x3a for c in decoded):
                        out(1211, name)
                    for c in decoded:
                        if c < 0x20 or c == 0x7f:
                            out(1212, name, c)
            else:
                out(1209, name)
        elif scheme == 'bearer':
            if r.tls() is False:
                out(1261, name)
            if kind != 'token68':
                out(1262, name)
        elif kind == 'none':
            out(1274, name)
    if 'access_token' in r.query:
        out(1270)
        if r.tls() is False:
            out(1271, 'uri')
        if not truth(h.cc('no-store')):
            out(1272)
    if r.form is not None and 'access_token' in r.form and r.tls() is False:
        out(1271, 'body')


_B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64(s):
    """Octets of a base64 text, or None if it is not one.

    Characters outside the alphabet are skipped (RFC 2045), padding must
    complete the last quantum."""
    vals = []
    pad = 0
    for c in s:
        i = sextet(c)
        if i is not None:
            pad = 0
            vals.append(i)
        elif c == '=':
            pad += 1
            if len(vals) % 4 >= 2 and len(vals) % 4 + pad >= 4:
                break
    rest = len(vals) % 4
    if rest == 1:
        return None
    if rest and rest + pad < 4:
        return None
    out = []
    for i in range(0, len(vals), 4):
        q = vals[i:i + 4]
        k = len(q)
        q = q + [0] * (4 - k)
        out += [q[0] * 4 + q[1] // 16, q[1] % 16 * 16 + q[2] // 4,
                q[2] % 4 * 64 + q[3]][:k - 1]
    return out


def sextet(c):
    return _SEXTETS[ord(c)] if c in _B64 else None


_SEXTETS = [max(_B64.find(chr(i)), 0) for i in range(128)]


def negotiation_request(r, out):
    h = r.h
    for name in ('Accept', 'Accept-Charset', 'Accept-Encoding',
                 'Accept-Language'):
        # items: (value, weight or None[, parameters])
        items = [(x[0].lower(), 1000 if x[1] is None else x[1], list(x[2:]))
                 for x in h.items(name)]
        hit = False
        for i in range(len(items)):
            for j in range(len(items)):
                if i != j and items[i][1] == items[j][1] and \
                        covers(items[i], items[j]):
                    hit = True
        if hit:
            out(1276, name)
    prefs = [(n.lower(), v) for (n, v) in h.items('Prefer')]
    seen = []
    for n, v in prefs:
        if n in seen:
            out(1285, n)
        seen.append(n)
    first = {}
    for n, v in prefs:
        if n not in first:
            first[n] = v
    if 'respond-async' in first and \
            K.method(r.method)[0] == 'y':
        out(1287)
    if first.get('return') == 'minimal' and r.method == 'GET':
        out(1288)
    if ('return', 'minimal') in prefs and ('return', 'representation') in prefs:
        out(1289)
    if ('handling', 'strict') in prefs and ('handling', 'lenient') in prefs:
        out(1290)


def covers(a, b):
    """Wildcard a stands for b, which is narrower."""
    (a, _, pa), (b, _, pb) = a, b
    pa, pb = pa and pa[0], pb and pb[0]
    if not all(p in pb for p in pa):
        return False
    if a == '*':
        return b != '*'
    if a == '*/*':
        return b != '*/*'
    return a[-2:] == '/*' and b[:len(a) - 1] == a[:-1] and a != b


# --------------------------------------------------------------- response

def from_cache(p, now, out):
    if p.status == 103:
        return False
    h = p.h
    date, age = h.one('Date'), h.one('Age')
    if date is not None and age is not None and age > now - date + 30:
        out(1241)
        return None
    if h.has('Age'):
        out(1168)
        return True
    for code, _ in h.items('Warning'):
        if 100 <= code < 200:
            out(1169, code)
            return True
    return None


def heuristic(p, now, out):
    h = p.h
    if not from_cache(p, now, out):
        return False
    if warns(h, 113):
        out(1179)
        return True
    if h.has('Expires') or truth(h.cc('max-age')):
        return False
    if not h.has('Cache-Control'):
        out(1178)
        return True
    return False


def stale(p, out):
    if p.status == 103:
        return False
    h = p.h
    for code in (110, 111):
        if warns(h, code):
            out(1183, code)
            return True
    if h.cc('s-maxage') is None:
        age = h.one('Age')
        ma = number(h.cc('max-age'))
        if age is not None and ma is not None and age > ma:
            out(1184)
            return True
        ex, date = h.one('Expires'), h.one('Date')
        if h.cc('max-age') is None and ex is not None and \
                date is not None and age is not None and age > ex - date:
            out(1185)
            return True
    return False


def by_close(p, out):
    h = p.h
    if h.has('Content-Length') or h.token('Transfer-Encoding', 'chunked') or \
            p.cls() == 1 or p.status == 204 or p.status == 304 or \
            p.version == 'HTTP/2':
        return False
    if p.req is not None:
        if p.req.method == 'HEAD':
            return False
        if p.req.method == 'CONNECT' and p.cls() == 2:
            return False
        if p.version in ('HTTP/1.0', 'HTTP/1.1'):
            out(1025)
            return True
    return False


def response(p, now, out, final_before=False):
    if final_before:
        out(1304)
    message(p, now, out)
    h = p.h
    s = p.status
    c = p.cls()
    if s < 100 or s > 599:
        out(1167)
    if by_close(p, out) and p.version == 'HTTP/1.1' and \
            not h.token('Connection', 'close'):
        out(1047)
    for n in h.names():
        if 's' in K.header(n):
            out(1064, n.lower())
    if s == 101:
        if not h.has('Upgrade'):
            out(1048)
        if p.version == 'HTTP/2':
            out(1246)
    if s == 204 and p.body:
        out(1240)
    if s == 205 and p.body:
        out(1076)
    if not h.has('Location'):
        for code, i in ((301, 1078), (302, 1079), (303, 1080), (307, 1084),
                        (308, 1205)):
            if s == code:
                out(i)
    for code, i in ((305, 1082), (306, 1083), (402, 1088)):
        if s == code:
            out(i)
    if s == 405 and not h.has('Allow'):
        out(1089)
    if s == 408 and not h.token('Connection', 'close'):
        out(1094)
    if not h.has('Date') and c in (2, 3, 4):
        out(1110)
    loc = h.one('Location')
    if s == 201 and loc is not None and fragment(loc):
        out(1111)
    date, lm = h.one('Date'), h.one('Last-Modified')
    if date is not None and lm is not None and lm > date:
        out(1118)
    ct = h.one('Content-Type')
    ranges = ct is not None and ct[0].lower() == 'multipart/byteranges'
    if s == 304:
        for n in h.names():
            if 'm' in K.header(n) and n.lower() not in ('etag',
                                                        'last-modified'):
                out(1127, n.lower())
    if s == 206:
        if ranges and h.has('Content-Range'):
            out(1143)
        if not ranges and not h.has('Content-Range'):
            out(1138)
    caching_response_1(p, out)
    if s == 451 and not any('blocked-by' in [r.lower() for r in rels]
                            for rels in h.items('Link')
                            if rels is not BAD):
        out(1243)
    disposition(p, out)
    if h.has('Alt-Svc'):
        if p.version == 'HTTP/2':
            out(1258)
        if s == 421:
            out(1260)
    hsts(p, out)
    for t in h.items('Accept-Patch'):
        if t.lower() in K.NOT_PATCH_MEDIA:
            out(1227, t.lower())
    if h.list('Vary') is not STAR and h.token('Vary', 'host'):
        out(1235)
    if s == 401 and not h.has('WWW-Authenticate'):
        out(1194)
    if s == 407 and not h.has('Proxy-Authenticate'):
        out(1195)
    challenges(p, out)
    if s == 103:
        return
    if c == 1 or s == 204:
        if h.has('Transfer-Encoding'):
            out(1018)
        if h.has('Content-Length'):
            out(1023)
    if c == 1:
        if h.token('Connection', 'close'):
            out(1198)
        for n in h.names():
            if 'm' in K.header(n):
                out(1052, n.lower())
    if h.has('Location') and c != 3 and s != 201:
        out(1112)
    if h.has('Retry-After') and c != 3 and s not in (413, 429, 503):
        out(1113)
    if h.has('Content-Range') and s not in (206, 416):
        out(1147)
    caching_response_2(p, now, out)
    if h.has('Allow'):
        if h.has('Accept-Patch') and 'PATCH' not in h.items('Allow'):
            out(1217)
        if h.has('Accept-Post') and 'POST' not in h.items('Allow'):
            out(1310)
    if transformed(p, out) and not h.has('Via'):
        out(1046)


def fragment(uri):
    i = uri.find('#')
    return i >= 0 and i + 1 < len(uri)


def caching_response_1(p, out):
    h = p.h
    for d, a in h.items('Cache-Control'):
        fact = K.CACHE_DIRECTIVES.get(d.lower())
        if fact is not None and not fact[3]:
            out(1153, d.lower())
    if h.token('Pragma', 'no-cache'):
        out(1162)
    for a, b in (('public', 'no-store'), ('private', 'public'),
                 ('private', 'no-store'),
                 ('must-revalidate', 'stale-while-revalidate'),
                 ('must-revalidate', 'stale-if-error')):
        if truth(h.cc(a)) and truth(h.cc(b)):
            out(1193, a, b)
    for a, b in (('max-age', 'no-cache'), ('max-age', 'no-store'),
                 ('s-maxage', 'private'), ('s-maxage', 'no-cache'),
                 ('s-maxage', 'no-store')):
        if truth(h.cc(a)) and whole(h.cc(b)):
            out(1238, a, b)


def whole(x):
    """A directive that applies to the whole response."""
    return x is True or x == []


def caching_response_2(p, now, out):
    h = p.h
    if from_cache(p, now, out):
        if not h.has('Age'):
            out(1166)
        if whole(h.cc('no-cache')):
            out(1175)
        if truth(h.cc('no-store')):
            out(1176)
        cacheable = K.STATUSES.get(p.status)
        if cacheable == 0:
            out(1202)
        if cacheable == 1 and not h.has('Expires') and \
                not h.has('Cache-Control'):
            out(1177)
    if heuristic(p, now, out):
        age = h.one('Age')
        if age is not None and age > 86400 and not warns(h, 113):
            out(1180)
        if h.has('Expires'):
            out(1181)
        elif h.cc('max-age') is not None:
            out(1182)
    if stale(p, out):
        if not warns(h, 110):
            out(1186)
        if truth(h.cc('must-revalidate')):
            out(1187)
    if truth(h.cc('immutable')):
        ex, date = h.one('Expires'), h.one('Date')
        fresh_by_expires = h.has('Expires') and not (
            ex is not None and date is not None and ex <= date)
        if not fresh_by_expires and not truth(h.cc('max-age')):
            out(1301)
        if is_tls(p) is False:
            out(1302)
        if by_close(p, out):
            out(1303)


def disposition(p, out):
    cd = p.h.one('Content-Disposition')
    if cd is None:
        return
    kind, params = cd                   # params: (name lower, value)
    seen = []
    for n, v in params:
        if n in seen:
            out(1247, n)
        seen.append(n)
    fn = [v for n, v in params if n == 'filename']
    if fn:
        f = fn[0]
        hexd = '0123456789abcdefABCDEF'
        for i in range(len(f) - 2):
            if f[i] == '%' and f[i + 1] in hexd and f[i + 2] in hexd:
                out(1248)
        if any(c in '"\\' for c in f):
            out(1249)
        if any(ord(c) > 0x7f for c in f):
            out(1250)
    if 'filename*' in seen:
        if not fn:
            out(1251)
        elif seen.index('filename*') < seen.index('filename'):
            out(1252)


def hsts(p, out):
    sts = p.h.one('Strict-Transport-Security')
    if sts is None:
        return
    names = [n.lower() for n, a in sts]
    if 'max-age' not in names:
        out(1218)
    first = {}
    for n, a in sts:
        first.setdefault(n.lower(), a)
    if 'max-age' in first and number(first['max-age']) is not None and \
            first['max-age'] == 0 and 'includesubdomains' in first:
        out(1219)
    for i, n in enumerate(names):
        if n in names[:i]:
            out(1220, n)


# challenge: (scheme, kind, arg): kind 'none', 'token68' (arg str),
# 'params' (arg list of (lower name, value))

def challenges(p, out):
    for name in ('WWW-Authenticate', 'Proxy-Authenticate'):
        for scheme, kind, arg in p.h.items(name):
            scheme = scheme.lower()
            params = arg if kind == 'params' else []
            names = [n for n, _ in params]
            if scheme == 'basic':
                if kind == 'token68':
                    out(1273, name)
                    continue
                if 'realm' not in names:
                    out(1206, name)
                for n, v in params:
                    if n == 'charset' and v.lower() != 'utf-8':
                        out(1208, name, v)
                    if n not in ('charset', 'realm'):
                        out(1207, name, n)
            if scheme == 'bearer' and name == 'WWW-Authenticate':
                bearer(p, kind, params, names, out)


def bearer(p, kind, params, names, out):
    q = p.req
    sent_header = sent = False
    absent = False
    if q is not None:
        if q.tls() is False:
            out(1263)
        cred = q.h.one('Authorization')
        sent_header = cred is not None and cred[0].lower() == 'bearer'
        sent = sent_header or 'access_token' in q.query or \
            (q.form is not None and 'access_token' in q.form)
        absent = not q.h.has('Authorization')
    if kind != 'params' or not params:
        out(1264)
        return
    for i, n in enumerate(names):
        if n in names[:i] and n in ('realm', 'scope', 'error',
                                    'error_description', 'error_uri'):
            out(1265, n)
    first = {}
    for n, v in params:
        first.setdefault(n, v)
    for n in ('scope', 'error', 'error_description', 'error_uri'):
        if n in first and not oauth_ok(n, first[n]):
            out(1266, n)
    if p.status == 401 and 'error' not in names and sent_header:
        out(1267)
    if 'error' in names:
        want = {'invalid_request': 400, 'invalid_token': 401,
                'insufficient_scope': 403}
        for e, st in want.items():
            if first['error'] == e and p.status != st:
                out(1268, e)
    if q is not None and absent and not sent:
        for n in ('error', 'error_description', 'error_uri'):
            if n in names:
                out(1269, n)


def _vchar(c, space):
    o = ord(c)
    return (0x21 <= o <= 0x7e or (space and o == 0x20)) and \
        c != '"' and c != '\\'


def oauth_ok(n, v):
    """RFC 6749 appendix A"""
    if n in ('error', 'error_description'):
        return len(v) > 0 and all(_vchar(c, True) for c in v)
    if n == 'scope':
        parts = v.split(' ')
        return all(len(x) > 0 and all(_vchar(c, False) for c in x)
                   for x in parts)
    from ref.grammars import GRAMMAR
    return GRAMMAR.accepts('URI-reference', v.encode('iso-8859-1'))


# ---------------------------------------------------------------- context

def context(p, now, out):
    q = p.req
    h, rh = p.h, q.h
    me, s, c = q.method, p.status, p.cls()
    safe, cacheable, _ = K.method(me)
    if p.body and not h.has('Content-Type') and not (
            s == 206 and rh.has('If-Range')):
        out(1041)
    if me == 'CONNECT' and c == 2:
        if h.has('Transfer-Encoding'):
            out(1019)
        if h.has('Content-Length'):
            out(1024)
        if h.token('Connection', 'close'):
            out(1199)
    if me == 'HEAD' and p.body:
        out(1239)
    if q.version == 'HTTP/1.0' and h.has('Transfer-Encoding'):
        out(1306)
    if q.version == 'HTTP/1.1' and c in (2, 3):
        n = sum(1 for e in rh.entries if e.name.lower() == 'host')
        if rh.one('Host') is None or n > 1:
            out(1033)
    if transformed(p, out) and q.via_proxy() is False:
        out(1237)
    if q.via_proxy() and c == 2 and not h.has('Via'):
        out(1046)
    requested = rh.items('Upgrade')
    if s == 101:
        for proto in h.items('Upgrade'):
            if proto not in requested:
                out(1049)
            elif proto[0] == 'h2c' and rh.one('HTTP2-Settings') is None:
                out(1232)
        if q.version == 'HTTP/1.0':
            out(1051)
    elif c == 1 and q.version == 'HTTP/1.0':
        out(1071)
    same_uri(p, out)
    if me == 'PUT' and rh.has('Content-Range') and c == 2:
        out(1058)
    if safe == 'y':
        for code, i in ((201, 1072), (202, 1074), (409, 1095)):
            if s == code:
                out(i)
    if s == 201 and me == 'POST' and not h.has('Location'):
        out(1073)
    if me != 'HEAD' and p.body == b'':
        special = {202: 1284, 300: 1077, 303: 1081, 406: 1092, 409: 1096,
                   428: 1201, 429: 1203, 451: 1242, 505: 1106, 511: 1204}
        hit = False
        for code in special:
            if s == code:
                out(special[code])
                hit = True
        if not hit and c == 4:
            out(1087)
        if not hit and c == 5:
            out(1104)
    if me == 'OPTIONS' and q.target_form == 'asterisk' and \
            s in (300, 301, 302, 307, 308):
        out(1086)
    if s == 406:
        neg = [n.lower() for n in rh.names() if 'n' in K.header(n)]
        if not neg:
            out(1090)
        elif neg == ['accept-language']:
            out(1117)
    if s == 411 and rh.one('Content-Length') is not None:
        out(1097)
    if q.body == b'':
        if s == 413:
            out(1098)
        if s == 415 and not rh.has('Content-Type'):
            out(1099)
    if s == 417 and not rh.has('Expect'):
        out(1100)
    offered = h.items('Upgrade')
    common = [x for x in offered if x in requested]
    if common:
        if s == 426:
            out(1102)
        elif c == 2:
            out(1103)
    if s == 426 and not h.has('Upgrade'):
        out(1101)
    if s == 505 and p.version and p.version == q.version:
        out(1105)
    if s == 405 and me in h.items('Allow'):
        out(1114)
    if c == 2 and h.has('Allow') and me not in h.items('Allow'):
        out(1115)
    conditional(p, out)
    ranges(p, out)
    if from_cache(p, now, out):
        if cacheable == 'n':
            out(1172)
        age = h.one('Age')
        ma = number(rh.cc('max-age'))
        if age is not None and ma is not None and age > ma:
            out(1170)
        if truth(rh.cc('no-cache')):
            out(1173)
        elif not rh.has('Cache-Control') and rh.token('Pragma', 'no-cache'):
            out(1174)
    if stale(p, out) and not warns(h, 111, 112) and \
            rh.cc('max-stale') is None and \
            rh.cc('stale-if-error') is None and \
            h.cc('stale-if-error') is None and \
            h.cc('stale-while-revalidate') is None:
        out(1188)
    if s == 428 and any('p' in K.header(n) for n in rh.names()):
        out(1200)
    if me == 'PATCH':
        ct = rh.one('Content-Type')
        if c == 2 and ct is not None and ct[0].lower() in K.NOT_PATCH_MEDIA:
            out(1214)
        if s == 415 and not h.has('Accept-Patch'):
            out(1215)
    if h.has('Strict-Transport-Security') and q.tls() is False:
        out(1221)
    if s == 421 and cacheable == 'y' and not truth(h.cc('no-store')):
        out(1283)
    asked = [(n.lower(), v) for n, v in rh.items('Prefer')]
    for n, v in h.items('Preference-Applied'):
        if (n.lower(), v) not in asked:
            out(1286, n.lower(), v)
    if s == 103:
        return
    if me == 'OPTIONS' and 'PATCH' in h.items('Allow') and \
            not h.has('Accept-Patch'):
        out(1216)
    if h.has('Preference-Applied') and me == 'GET' and \
            h.list('Vary') is not STAR and not h.token('Vary', 'prefer'):
        out(1291)


def same_uri(p, out):
    from ref.uri import same
    q = p.req
    base = q.uri()
    me, s = q.method, p.status
    if not base:
        return
    cl = p.h.one('Content-Location')
    if cl is not None and same(base, cl):
        if me in ('GET', 'HEAD') and s in (200, 203, 204, 206, 304):
            out(1055)
        if me == 'DELETE':
            out(1060)
    loc = p.h.one('Location')
    if loc is not None and q.scheme and same(base, loc):
        if s in (300, 307, 308) or (s in (301, 302, 303) and me != 'POST'):
            out(1085)


def conditional(p, out):
    q = p.req
    h, rh = p.h, q.h
    me, s, c = q.method, p.status, p.cls()
    if me in ('GET', 'HEAD') and c == 2:
        etag = h.one('ETag')
        if etag is not None:
            inm = rh.list('If-None-Match')
            if inm is STAR or any(op == etag[1] for _, op in inm):
                out(1121)
        else:
            ims, lm = rh.one('If-Modified-Since'), h.one('Last-Modified')
            if ims is not None and lm is not None and ims >= lm:
                out(1123)
    if s in (304, 412):
        pre = [n.lower() for n in rh.names() if 'p' in K.header(n)]
        if s == 304 and me not in ('GET', 'HEAD'):
            out(1124)
        elif not pre:
            out(1125)
        elif pre == ['if-modified-since']:
            if me not in ('GET', 'HEAD'):
                out(1128)
        elif all(n in ('if-match', 'if-none-match', 'if-modified-since',
                       'if-unmodified-since', 'if-range') for n in pre):
            if me in ('CONNECT', 'OPTIONS', 'TRACE'):
                out(1129)


def ranges(p, out):
    q = p.req
    h, rh = p.h, q.h
    me, s = q.method, p.status
    rng = rh.one('Range')               # (unit lower, number of ranges)
    if s == 206:
        if not rh.has('Range'):
            out(1136)
        elif me != 'GET':
            out(1137)
        ct = h.one('Content-Type')
        if ct is not None and ct[0].lower() == 'multipart/byteranges' and \
                rng is not None and rng[0] == 'bytes' and rng[1] == 1:
            out(1144)
        ir, et = rh.one('If-Range'), h.one('ETag')
        if isinstance(ir, tuple) and et is not None and \
                (ir[0] or et[0] or ir[1] != et[1]):
            out(1145)
        if rh.has('If-Range'):
            for n in h.names():
                if 'm' in K.header(n) and n.lower() not in (
                        'etag', 'content-location'):
                    out(1146, n.lower())
    if s == 416:
        if not rh.has('Range'):
            out(1149)
        if rng is not None and rng[0] == 'bytes' and \
                not h.has('Content-Range'):
            out(1150)


def exchange(q, resps, now):
    """Expected rule notices: (ids for the request, list of ids per
    response), not restricted to any group and without syntax notices."""
    ro = Out()
    if q is not None:
        request(q, now, ro, answered=bool(resps))
    outs = []
    final = False
    expect = q is not None and q.h.one('Expect') is not None and \
        q.h.one('Expect').lower() == '100-continue'
    for p in resps:
        o = Out()
        p.req = q
        response(p, now, o, final)
        if p.cls() != 1:
            final = True
        if q is not None:
            context(p, now, o)
        if p.status == 100:
            expect = False
        if expect and p.status == 101:
            o(1305)
        outs.append(o)
    return ro, outs
