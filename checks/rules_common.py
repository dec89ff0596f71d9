"""Scenarios for the rule checks: an exchange built twice, as bytes for
HTTPolice and as structured values for ref/rules.py."""

import calendar
import sys
import time

import httpolice.exchange
import httpolice.message
import httpolice.response
from httpolice import Exchange, Request, Response, check_exchange
from ref import rules
from ref.rules import BAD, STAR, Entry

NOW = 1579089600                # Wed, 15 Jan 2020 12:00:00 GMT

GROUPS = {
    'R01': [1018, 1019, 1020, 1021, 1022, 1023, 1024, 1035, 1041, 1042, 1052,
            1053, 1054, 1056, 1057, 1059, 1061, 1062, 1066, 1076, 1098, 1099,
            1239, 1240, 1280],
    'R02': [1048, 1072, 1073, 1074, 1077, 1078, 1079, 1080, 1081, 1082, 1083,
            1084, 1086, 1087, 1088, 1089, 1092, 1095, 1096, 1097, 1100, 1104,
            1106, 1110, 1112, 1113, 1167, 1201, 1203, 1204, 1205, 1242, 1243,
            1284, 1304, 1305],
    'R03': [1152, 1153] + list(range(1159, 1167)) + list(range(1168, 1194)) +
           [1202, 1238, 1241, 1283, 1301, 1302, 1303],
    'R04': [1058, 1118, 1120, 1121, 1122, 1123, 1124, 1125, 1127, 1128, 1129,
            1130, 1131, 1132, 1134, 1135, 1136, 1137, 1138, 1143, 1144, 1145,
            1146, 1147, 1149, 1150, 1200],
    'R05': [1194, 1195, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1218, 1219,
            1220, 1221] + list(range(1261, 1275)),
    'R06': [1025, 1028, 1029, 1031, 1032, 1033, 1034, 1046, 1047, 1049, 1050,
            1051, 1063, 1064, 1067, 1068, 1070, 1071, 1093, 1094, 1101, 1102,
            1103, 1105, 1109, 1197, 1198, 1199, 1228, 1230, 1231, 1232, 1233,
            1234, 1236, 1237, 1244, 1245, 1246, 1277, 1295, 1306],
    'R07': [1090, 1114, 1115, 1116, 1117, 1213, 1214, 1215, 1216, 1217, 1227,
            1235, 1247, 1248, 1249, 1250, 1251, 1252, 1258, 1260, 1276, 1285,
            1286, 1287, 1288, 1289, 1290, 1291, 1310],
    'R08': [1055, 1060, 1085, 1111],
}


def freeze_time():
    """The clock of the code under test stands at NOW."""
    for name, mod in list(sys.modules.items()):
        if name != 'httpolice' and not name.startswith('httpolice.'):
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, type) and v.__name__ == 'datetime' and \
                    v.__module__ in ('datetime', '_pydatetime',
                                     'sxlib_datetime') and \
                    not hasattr(v, 'is_frozen'):
                setattr(mod, k, frozen(v))


_frozen = {}


def frozen(cls):
    if cls not in _frozen:
        class datetime(cls):
            is_frozen = True

            @classmethod
            def utcnow(c):
                return cls(2020, 1, 15, 12, 0, 0)

            @classmethod
            def now(c, tz=None):
                r = cls(2020, 1, 15, 12, 0, 0)
                return r if tz is None else r.replace(tzinfo=tz)
        _frozen[cls] = datetime
    return _frozen[cls]


freeze_time()


def http_date(t):
    g = time.gmtime(t)
    return ('%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        'Mon Tue Wed Thu Fri Sat Sun'.split()[g.tm_wday], g.tm_mday,
        'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[
            g.tm_mon - 1], g.tm_year, g.tm_hour, g.tm_min, g.tm_sec)
        ).encode('ascii')


class X:
    """Collects one exchange."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.q = None
        self.rq = None
        self.ps = []
        self.rps = []
        self.n = 0

    # -- symbolic pieces

    def uid(self):
        self.n += 1
        return 'v%d' % self.n

    def pick(self, *options):
        return self.ctx.choice(self.uid(), options)

    def flag(self):
        return self.ctx.flag(self.uid())

    def some(self, *headers):
        """Each header is there or not."""
        return [hd for hd in headers if self.flag()]

    def one(self, *headers):
        """One of these, or none."""
        hd = self.pick(None, *headers)
        return [] if hd is None else [hd]

    def digits(self, n):
        """n symbolic digits: (bytes, value)"""
        b = self.ctx.bytes(self.uid(), n, b'0123456789')
        v = 0
        for i in range(n):
            v = v * 10 + (b[i] - 48)
        return b, v

    def letters(self, n, upper=True, lower=False, other=b''):
        al = other
        if upper:
            al = al + b'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
        if lower:
            al = al + b'abcdefghijklmnopqrstuvwxyz'
        return self.ctx.text(self.uid(), n, al)

    def cased(self, word):
        """The word, every letter in either case."""
        out = u''
        for c in word:
            if c.isalpha():
                out = out + self.ctx.text(self.uid(), 1,
                                          c.lower() + c.upper())
            else:
                out = out + c
        return out

    def date(self, base=NOW):
        """A symbolic instant within one minute from base (a full minute)"""
        d1 = self.ctx.bytes(self.uid(), 1, b'012345')
        d0 = self.ctx.bytes(self.uid(), 1, b'0123456789')
        s = http_date(base)
        return s[:23] + d1 + d0 + s[25:], \
            base + (d1[0] - 48) * 10 + (d0[0] - 48)

    # -- messages

    def request(self, method=u'GET', scheme=u'http', target=u'/',
                form='origin', version=u'HTTP/1.1', headers=(), body=b'',
                query=(), fields=None, trailers=()):
        self.q = Request(scheme, method, target, version,
                         [(n, r) for n, r, v in headers], body,
                         [(n, r) for n, r, v in trailers])
        self.rq = rules.Req(
            scheme, method, target, form, version,
            [Entry(n, r, v) for n, r, v in headers] +
            [Entry(n, r, v, True) for n, r, v in trailers], body, query)
        self.rq.form = fields
        return self

    def response(self, status, version=u'HTTP/1.1', headers=(), body=b'',
                 trailers=()):
        self.ps.append(Response(
            version, status, u'X', [(n, r) for n, r, v in headers], body,
            [(n, r) for n, r, v in trailers]))
        self.rps.append(rules.Resp(
            version, status, [Entry(n, r, v) for n, r, v in headers] +
            [Entry(n, r, v, True) for n, r, v in trailers], body))
        return self

    def run(self, group):
        ctx = self.ctx
        check_exchange(Exchange(self.q, self.ps))
        ro, outs = rules.exchange(self.rq, self.rps, NOW)
        ids = GROUPS[group]
        pairs = []
        if self.q is not None:
            pairs.append(('request', self.q, ro))
        for i, p in enumerate(self.ps):
            pairs.append(('response %d' % i, p, outs[i]))
        for what, m, o in pairs:
            got = sorted(c.id for c in m.notices if c.id in ids)
            want = sorted(i for i in o.ids() if i in ids)
            for i in want:
                ctx.cover(str(i))
            ctx.check(got == want, 'notices as documented', what,
                      'missing %s' % [i for i in want if i not in got],
                      'extra %s' % [i for i in got if i not in want],
                      got, want)
            ctx.observe(got)


# -- header constructors: (name, raw bytes, structured value)

def tokens(name, *words):
    return (name, b', '.join(enc(w) for w in words), list(words))


def enc(s):
    return s if isinstance(s, bytes) else s.encode('iso-8859-1')


def bad(name, raw=b'\x01'):
    return (name, raw, BAD)


def plain(name, text):
    """Single value that is its own text (Location, Host, Referer...)"""
    return (name, enc(text), text)


def num(name, pair):
    """From X.digits, or an int"""
    if isinstance(pair, tuple):
        return (name, pair[0], pair[1])
    return (name, b'%d' % pair, pair)


def on(name, when):
    """A date header from X.date(), or from an instant"""
    if isinstance(when, tuple):
        return (name, when[0], when[1])
    return (name, http_date(when), when)


def ctype(media, *params):
    return ('Content-Type', enc(media) + b''.join(
        b';' + enc(n) + b'=' + enc(v) for n, v in params),
        (media, list(params)))


def cc(*directives):
    """directives: names, or (name, int | digits pair | (raw, value))"""
    raw = []
    val = []
    for d in directives:
        if isinstance(d, tuple):
            n, a = d
            if isinstance(a, tuple):
                raw.append(enc(n) + b'=' + a[0])
                val.append((n, a[1]))
            else:
                raw.append(enc(n) + b'=%d' % a)
                val.append((n, a))
        else:
            raw.append(enc(d))
            val.append((d, None))
    return ('Cache-Control', b', '.join(raw), val)


def warning(*ws):
    """ws: code, or (code, raw date, instant), codes int or digits pair"""
    raw = []
    val = []
    for w in ws:
        code, d = (w, None)
        if isinstance(w, tuple) and isinstance(w[0], (int, tuple)):
            code, d = w
        if isinstance(code, tuple):
            rc, vc = code
        else:
            rc, vc = b'%03d' % code, code
        if d is None:
            raw.append(rc + b' - "x"')
            val.append((vc, None))
        else:
            rd, vd = d if isinstance(d, tuple) else (http_date(d), d)
            raw.append(rc + b' - "x" "' + rd + b'"')
            val.append((vc, vd))
    return ('Warning', b', '.join(raw), val)


def upgrade(*ps):
    return ('Upgrade', b', '.join(
        enc(p[0]) + (b'/' + enc(p[1]) if p[1] is not None else b'')
        for p in ps), list(ps))


def etag(name, *tags):
    raw = b', '.join((b'W/' if w else b'') + b'"' + enc(o) + b'"'
                     for w, o in tags)
    return (name, raw, list(tags) if name.endswith('Match') else tags[0])


def star(name):
    return (name, b'*', STAR)


ASSUMPTIONS = [
    'the conditions in ref/rules.py are the documented ones (from the notice '
    'texts and the RFC sections they cite)',
    'the clock stands at 2020-01-15 12:00:00 UTC during a run (dates are '
    'symbolic relative to it)',
]
FUNCTIONS = [
    'httpolice.exchange.check_exchange', 'httpolice.request.check_request',
    'httpolice.response.check_responses',
    'httpolice.response.check_response_itself',
    'httpolice.response.check_response_in_context',
    'httpolice.message.check_message', 'httpolice.header.HeadersView',
    'httpolice.header.HeaderView', 'httpolice.parse.parse',
    'httpolice.known.Knowledge.get', 'httpolice.structure',
]
