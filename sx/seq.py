"""SymSeq: a str or bytes value of known length with symbolic elements."""

import codecs

from sx.core import E, EngineError
from sx import values as V
from sx.values import (SymInt, SymBool, ball, bany, band, bor, bnot,
                       override, tagged_attr)

WS_BYTES = frozenset(b' \t\n\r\x0b\x0c')
WS_STR = frozenset(i for i in range(0x3001) if chr(i).isspace())


def _mask(pred):
    m = 0
    for i in range(256):
        if pred(i):
            m |= 1 << i
    return m


M_WS_B = _mask(lambda i: i in WS_BYTES)
M_WS_S = _mask(lambda i: i in WS_STR)
_mask_by_set = {}


CASED = frozenset(v for v in range(256)
                  if (u'A' + chr(v)).title() == u'A' + chr(v).lower() and
                  (chr(v) + u'x').title()[-1:] == u'x')


def el_in_set(el, values):
    """element in a frozenset of ints -> bool/SymBool"""
    if type(el) is not SymInt:
        return el in values
    if el.var is not None:
        return el.test(values.__contains__)
    return bany(V.icmp('eq', el, v) for v in sorted(values)
                if el.lo <= v <= el.hi)


def el_eq(a, b):
    if type(a) is SymInt:
        return V.icmp('eq', a, b)
    if type(b) is SymInt:
        return V.icmp('eq', b, a)
    return a == b


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return ball([el_eq(x, y) for x, y in zip(a, b)])


def plain(els, kind):
    if kind is bytes:
        return bytes(els)
    return ''.join(map(chr, els))


def mk(els, kind):
    """Build a value of base type `kind` from elements."""
    els = tuple(els)
    for e in els:
        if type(e) is SymInt:
            return SymSeq(els, kind)
    return plain(els, kind)


def els_of(x, kind=None):
    if type(x) is SymSeq:
        return x.els
    if isinstance(x, str):
        return tuple(map(ord, x))
    return tuple(bytes(x))


def kind_of(x):
    if type(x) is SymSeq:
        return x.kind
    if isinstance(x, str):
        return str
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes
    return None


_LOWER = {}


def _case_tables():
    global LOWER_B, UPPER_B, LOWER_S
    LOWER_B = tuple(ord(chr(i).lower()) if i < 128 else i for i in range(256))
    UPPER_B = tuple(ord(chr(i).upper()) if i < 128 else i for i in range(256))
    LOWER_S = tuple(ord(chr(i).lower()) for i in range(256))


_case_tables()


def el_map(el, f):
    if type(el) is SymInt:
        if el.var is not None:
            return el.map(f)
        if el.lo >= 0 and el.hi < 1024:
            from sx.hooks import _getitem
            return _getitem([f(v) for v in range(el.hi + 1)], el)
        return f(el.__index__())
    return f(el)


class SymSeq:

    __slots__ = ('els', 'kind', 'cls', '_conc')

    def __init__(self, els, kind, cls=None):
        self.els = els
        self.kind = kind
        self.cls = cls or kind
        self._conc = None

    @property
    def __class__(self):
        return self.cls

    @property
    def conc(self):
        c = self._conc
        if c is None:
            c = plain([e.conc if type(e) is SymInt else e for e in self.els],
                      self.kind)
            if self.cls is not self.kind:
                c = self.kind.__new__(self.cls, c)
            self._conc = c
        return c

    def pin(self, why='seq'):
        for e in self.els:
            if type(e) is SymInt:
                e.pin(why)
        return self.conc

    def base(self):
        return mk(self.els, self.kind)

    def is_plain(self):
        return self.cls is self.kind

    # -- protocol -----------------------------------------------------------

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return bool(self.els)

    def __iter__(self):
        if self.kind is bytes:
            return iter(self.els)
        return iter([mk((e,), str) for e in self.els])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x if x is None else x.__index__()
                        for x in (i.start, i.stop, i.step)])
            return mk(self.els[i], self.kind)
        i = i.__index__()
        if self.kind is bytes:
            return self.els[i]
        return mk((self.els[i],), str)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        if not E.hash_ok:
            self.pin('hash')
        return hash(self.conc)

    def __eq__(self, o):
        if self.cls is not self.kind:
            ov = override(self.cls, '__eq__', self.kind)
            if ov is not None:
                return ov(self, o)
        if type(o) is SymSeq:
            if o.cls is not o.kind and o.cls is not self.cls:
                ov = override(o.cls, '__eq__', o.kind)
                if ov is not None:
                    return ov(o, self)
        elif isinstance(o, self.kind) and type(o) is not self.kind:
            ov = override(type(o), '__eq__', self.kind)
            if ov is not None:
                return ov(o, self)
        return self.raw_eq(o)

    def raw_eq(self, o):
        k = kind_of(o)
        if k is None:
            return NotImplemented
        if k is not self.kind:
            return False
        return seq_eq(self.els, els_of(o))

    def __ne__(self, o):
        if self.cls is not self.kind:
            ov = override(self.cls, '__ne__', self.kind)
            if ov is not None:
                return ov(self, o)
            r = self.__eq__(o)
            return r if r is NotImplemented else bnot(r)
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def _order(self, o, strict_lt, eq_result):
        if kind_of(o) is not self.kind:
            return NotImplemented
        a, b = self.els, els_of(o)
        for x, y in zip(a, b):
            if type(x) is not SymInt and type(y) is not SymInt:
                if x == y:
                    continue
                return (x < y) == strict_lt
            if el_eq(x, y):
                continue
            r = (x < y) if type(x) is SymInt else (y > x)
            return bool(r) == strict_lt
        if len(a) == len(b):
            return eq_result
        return (len(a) < len(b)) == strict_lt

    def __lt__(self, o):
        return self._order(o, True, False)

    def __le__(self, o):
        return self._order(o, True, True)

    def __gt__(self, o):
        return self._order(o, False, False)

    def __ge__(self, o):
        return self._order(o, False, True)

    def __contains__(self, o):
        if self.kind is bytes and isinstance(o, int):
            return bool(bany(el_eq(e, o) for e in self.els))
        if kind_of(o) is not self.kind:
            raise TypeError('bad operand for in')
        return self.contains(o)

    def contains(self, o):
        sub = els_of(o)
        n = len(sub)
        if n == 0:
            return True
        return bany([seq_eq(self.els[i:i + n], sub)
                     for i in range(len(self.els) - n + 1)])

    def __add__(self, o):
        if kind_of(o) is not self.kind:
            return NotImplemented
        return mk(self.els + els_of(o), self.kind)

    def __radd__(self, o):
        if kind_of(o) is not self.kind:
            return NotImplemented
        return mk(els_of(o) + self.els, self.kind)

    def __mul__(self, n):
        return mk(self.els * n.__index__(), self.kind)
    __rmul__ = __mul__

    def __mod__(self, args):
        from sx.hooks import fmt_percent
        return fmt_percent(self, args)

    def __repr__(self):
        if self.cls is not self.kind:
            ov = override(self.cls, '__repr__', self.kind)
            if ov is not None:
                return ov(self)
        return repr(self.pin('repr'))

    def __str__(self):
        return str(self.pin('str'))

    def __bytes__(self):
        return bytes(self.pin('bytes'))

    def __format__(self, spec):
        return format(self.pin('format'), spec)

    def __getattr__(self, name):
        a = tagged_attr2(self, name)
        return a

    # -- methods ------------------------------------------------------------

    def _sub(self, o):
        if self.kind is bytes and isinstance(o, int):
            return (o,)
        if kind_of(o) is not self.kind:
            raise TypeError('expected %s' % self.kind.__name__)
        return els_of(o)

    def _range(self, start, end):
        n = len(self.els)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def _affix(self, o, start, end, at_start):
        s, e = self._range(start, end)
        opts = o if isinstance(o, tuple) else (o,)
        res = []
        for x in opts:
            sub = self._sub(x)
            if len(sub) > e - s:
                res.append(False)
            elif at_start:
                res.append(seq_eq(self.els[s:s + len(sub)], sub))
            else:
                res.append(seq_eq(self.els[e - len(sub):e], sub))
        return bany(res)

    def startswith(self, o, start=None, end=None):
        return self._affix(o, start, end, True)

    def endswith(self, o, start=None, end=None):
        return self._affix(o, start, end, False)

    def find(self, o, start=None, end=None):
        s, e = self._range(start, end)
        sub = self._sub(o)
        for i in range(s, e - len(sub) + 1):
            if seq_eq(self.els[i:i + len(sub)], sub):
                return i
        return -1

    def rfind(self, o, start=None, end=None):
        s, e = self._range(start, end)
        sub = self._sub(o)
        for i in range(e - len(sub), s - 1, -1):
            if seq_eq(self.els[i:i + len(sub)], sub):
                return i
        return -1

    def index(self, o, start=None, end=None):
        r = self.find(o, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, o, start=None, end=None):
        r = self.rfind(o, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o, start=None, end=None):
        s, e = self._range(start, end)
        sub = self._sub(o)
        n = 0
        i = s
        if not sub:
            return e - s + 1
        while i <= e - len(sub):
            if seq_eq(self.els[i:i + len(sub)], sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def _ws(self, el):
        if type(el) is SymInt and el.var is not None and el.table is None:
            return el.in_mask(M_WS_B if self.kind is bytes else M_WS_S)
        return el_in_set(el, WS_BYTES if self.kind is bytes else WS_STR)

    def split(self, sep=None, maxsplit=-1):
        els = self.els
        out = []
        if sep is None:
            i, n = 0, len(els)
            while i < n:
                while i < n and self._ws(els[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit == 0:
                    j = n
                    while j > i and self._ws(els[j - 1]):
                        j -= 1
                    out.append(mk(els[i:j], self.kind))
                    break
                j = i
                while j < n and not self._ws(els[j]):
                    j += 1
                out.append(mk(els[i:j], self.kind))
                maxsplit -= 1
                i = j
            return out
        sub = self._sub(sep)
        if not sub:
            raise ValueError('empty separator')
        start = 0
        while maxsplit != 0:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(mk(els[start:i], self.kind))
            start = i + len(sub)
            maxsplit -= 1
        out.append(mk(els[start:], self.kind))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.__reversed_ws(maxsplit)
        sub = self._sub(sep)
        if not sub:
            raise ValueError('empty separator')
        end = len(self.els)
        out = []
        while maxsplit != 0:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.append(mk(self.els[i + len(sub):end], self.kind))
            end = i
            maxsplit -= 1
        out.append(mk(self.els[:end], self.kind))
        return out[::-1]

    def __reversed_ws(self, maxsplit):
        els = self.els
        out = []
        j = len(els)
        while j > 0:
            while j > 0 and self._ws(els[j - 1]):
                j -= 1
            if j == 0:
                break
            if maxsplit == 0:
                i = 0
                while self._ws(els[i]):
                    i += 1
                out.append(mk(els[i:j], self.kind))
                break
            i = j
            while i > 0 and not self._ws(els[i - 1]):
                i -= 1
            out.append(mk(els[i:j], self.kind))
            maxsplit -= 1
            j = i
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        k = self.kind
        if i < 0:
            return (self.base(), k(), k())
        n = len(els_of(sep))
        return (mk(self.els[:i], k), mk(els_of(sep), k),
                mk(self.els[i + n:], k))

    def rpartition(self, sep):
        i = self.rfind(sep)
        k = self.kind
        if i < 0:
            return (k(), k(), self.base())
        n = len(els_of(sep))
        return (mk(self.els[:i], k), mk(els_of(sep), k),
                mk(self.els[i + n:], k))

    def splitlines(self, keepends=False):
        brk = {10, 13} if self.kind is bytes else \
            {10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029}
        brk = frozenset(brk)
        els = self.els
        out = []
        i, n, start = 0, len(els), 0
        while i < n:
            if el_in_set(els[i], brk):
                j = i + 1
                if el_eq(els[i], 13) and j < n and el_eq(els[j], 10):
                    j += 1
                out.append(mk(els[start:j if keepends else i], self.kind))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(mk(els[start:], self.kind))
        return out

    def _strippable(self, chars):
        if chars is None:
            return self._ws
        cs = els_of(chars)
        if any(type(c) is SymInt for c in cs):
            return lambda el: bany([el_eq(el, c) for c in cs])
        s = frozenset(cs)
        return lambda el: el_in_set(el, s)

    def strip(self, chars=None):
        p = self._strippable(chars)
        i, j = 0, len(self.els)
        while i < j and p(self.els[i]):
            i += 1
        while j > i and p(self.els[j - 1]):
            j -= 1
        return mk(self.els[i:j], self.kind)

    def lstrip(self, chars=None):
        p = self._strippable(chars)
        i, j = 0, len(self.els)
        while i < j and p(self.els[i]):
            i += 1
        return mk(self.els[i:], self.kind)

    def rstrip(self, chars=None):
        p = self._strippable(chars)
        j = len(self.els)
        while j > 0 and p(self.els[j - 1]):
            j -= 1
        return mk(self.els[:j], self.kind)

    def lower(self):
        if self.kind is bytes:
            return mk([el_map(e, lambda v: LOWER_B[v] if v < 256 else v)
                       for e in self.els], bytes)
        if not all(type(e) is SymInt or len(chr(e).lower()) == 1
                   for e in self.els):
            return self.pin('lower').lower()
        return mk([el_map(e, lambda v: ord(chr(v).lower()))
                   for e in self.els], str)

    def casefold(self):
        for e in self.els:
            if el_in_set(e, frozenset([0xDF, 0xB5])):
                return self.pin('casefold').casefold()
        return self.lower()

    def upper(self):
        if self.kind is bytes:
            return mk([el_map(e, lambda v: UPPER_B[v] if v < 256 else v)
                       for e in self.els], bytes)
        out = []
        for e in self.els:
            if type(e) is SymInt:
                if el_eq(e, 0xDF):
                    out += [83, 83]
                else:
                    out.append(el_map(
                        e, lambda v: 83 if v == 0xDF else
                        ord(chr(v).upper())))
            else:
                out += [ord(c) for c in chr(e).upper()]
        return mk(out, str)

    def swapcase(self):
        return self.pin('swapcase').swapcase()

    def title(self):
        if self.kind is bytes:
            return self.pin('title').title()
        out, cased = [], False
        for e in self.els:
            if type(e) is SymInt and (e.var is None or e.hi > 255 or
                                      el_in_set(e, frozenset([0xDF]))):
                return self.pin('title').title()
            if type(e) is SymInt:
                f = str.lower if cased else str.title
                out.append(el_map(e, lambda v: ord(f(chr(v)))
                                  if v < 256 and v != 0xDF else v))
                cased = bool(el_in_set(e, CASED))
            else:
                c = chr(e)
                out += [ord(x) for x in (c.lower() if cased else c.title())]
                cased = (u'a' + c).istitle() and c.lower() != c.upper() \
                    if e > 255 else e in CASED
        return mk(out, str)

    def capitalize(self):
        if not self.els:
            return self.base()
        head = mk(self.els[:1], self.kind).upper()
        if len(head) != 1:
            return self.pin('capitalize').capitalize()
        return head + mk(self.els[1:], self.kind).lower()

    def _all(self, pred):
        if not self.els:
            return False
        out = []
        for e in self.els:
            if type(e) is SymInt:
                if e.var is None:
                    e = e.__index__()
                    out.append(bool(pred(e)))
                else:
                    out.append(e.test(pred))
            else:
                out.append(bool(pred(e)))
        return ball(out)

    def _isx(self, name):
        if self.kind is bytes:
            return self._all(lambda v: getattr(bytes([v]), name)())
        return self._all(lambda v: getattr(chr(v), name)())

    def isdigit(self):
        return self._isx('isdigit')

    def isdecimal(self):
        return self._isx('isdecimal')

    def isnumeric(self):
        return self._isx('isnumeric')

    def isalpha(self):
        return self._isx('isalpha')

    def isalnum(self):
        return self._isx('isalnum')

    def isspace(self):
        return self._isx('isspace')

    def isascii(self):
        return self._all(lambda v: v < 128) if self.els else True

    def isprintable(self):
        return self._all(lambda v: chr(v).isprintable()) if self.els else True

    def _cased(self, up):
        f = chr if self.kind is str else \
            (lambda v: chr(v) if v < 128 else '')
        bad = lambda v: f(v) and (f(v).islower() if up else f(v).isupper())
        good = lambda v: f(v) and (f(v).isupper() if up else f(v).islower())
        any_good = []
        any_bad = []
        for e in self.els:
            for pred, lst in ((bad, any_bad), (good, any_good)):
                if type(e) is SymInt and e.var is not None:
                    lst.append(e.test(lambda v: bool(pred(v))))
                else:
                    v = e.__index__()
                    lst.append(bool(pred(v)))
        return band(bnot(bany(any_bad)), bany(any_good))

    def isupper(self):
        return self._cased(True)

    def islower(self):
        return self._cased(False)

    def replace(self, old, new, count=-1):
        o, n = self._sub(old), self._sub(new)
        els = self.els
        out = []
        i = 0
        if not o:
            return mk(els_of(self.pin('replace').replace(
                old, new, count)), self.kind)
        while i < len(els):
            if count != 0 and i + len(o) <= len(els) and \
                    seq_eq(els[i:i + len(o)], o):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(els[i])
                i += 1
        return mk(out, self.kind)

    def join(self, xs):
        return join(self, xs)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('iso-8859-1', 'latin-1', 'latin1', 'iso8859-1'):
            lim = 256
        else:
            lim = 128
        for i, e in enumerate(self.els):
            if type(e) is SymInt:
                ok = V.icmp('lt', e, lim)
            else:
                ok = e < lim
            if not ok:
                if lim == 128 and enc in ('utf-8', 'utf8', 'u8'):
                    return self._encode_utf8()
                if errors == 'strict' and (lim == 256 or
                                           enc in ('ascii', 'us-ascii')):
                    raise UnicodeEncodeError(
                        encoding, '?' * len(self.els), i, i + 1,
                        'ordinal not in range(%d)' % lim)
                return self.pin('encode').encode(encoding, errors)
        if lim == 128 and enc not in ('ascii', 'us-ascii', 'utf-8', 'utf8',
                                      'u8', '646'):
            return self.pin('encode').encode(encoding, errors)
        return mk(self.els, bytes)

    def _encode_utf8(self):
        out = []
        for e in self.els:
            if type(e) is SymInt:
                if V.icmp('lt', e, 128):
                    out.append(e)
                elif V.icmp('lt', e, 0x800) and e.var is not None:
                    out.append(e.map(lambda v: 0xC0 | v >> 6 & 0x1F))
                    out.append(e.map(lambda v: 0x80 | v & 0x3F))
                else:
                    out.extend(chr(e.__index__()).encode('utf-8'))
            else:
                out.extend(chr(e).encode('utf-8'))
        return mk(out, bytes)

    def _decode_utf8(self, replace=False):
        els = self.els
        n = len(els)
        out = []
        i = 0
        while i < n:
            e = els[i]
            if e < 0x80:
                out.append(e)
                i += 1
                continue
            cp, size, wrong = self._utf8_char(i, n)
            if wrong is not None:
                if not replace:
                    # the text of the error message shows the shadow's bytes
                    raise UnicodeDecodeError('utf-8', bytes(self.conc), i,
                                             i + size, wrong)
                cp = 0xFFFD
            out.append(cp)
            i += size
        return mk(tuple(out), str)

    def _utf8_char(self, i, n):
        """One non-ASCII character: code point, length, what is wrong"""
        els = self.els
        e = els[i]
        if e < 0xC2 or e > 0xF4:
            return None, 1, 'invalid start byte'
        size = 2 if e < 0xE0 else 3 if e < 0xF0 else 4
        cp = e & (0xFF >> (size + 1))
        for j in range(1, size):
            if i + j >= n:
                return None, n - i, 'unexpected end of data'
            c = els[i + j]
            lo, hi = 0x80, 0xBF
            if j == 1 and size > 2:
                if e == 0xE0:
                    lo = 0xA0
                elif e == 0xED:
                    hi = 0x9F
                elif e == 0xF0:
                    lo = 0x90
                elif e == 0xF4:
                    hi = 0x8F
            if c < lo or c > hi:
                return None, j, 'invalid continuation byte'
            cp = cp * 64 + (c & 0x3F)
        return cp, size, None

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('iso-8859-1', 'latin-1', 'latin1', 'iso8859-1'):
            return mk(self.els, str)
        if enc in ('utf-8', 'utf8', 'u8') and errors in ('strict', 'replace'):
            return self._decode_utf8(errors == 'replace')
        if enc in ('ascii', 'us-ascii', '646', 'utf-8', 'utf8', 'u8'):
            for i, e in enumerate(self.els):
                if not (V.icmp('lt', e, 128) if type(e) is SymInt
                        else e < 128):
                    if enc == 'ascii' and errors == 'strict':
                        raise UnicodeDecodeError('ascii', bytes(self.conc), i,
                                                 i + 1, 'ordinal not in '
                                                        'range(128)')
                    return self.pin('decode').decode(encoding, errors)
            return mk(self.els, str)
        if not codecs.lookup(encoding)._is_text_encoding:
            return b'x'.decode(encoding, errors)        # an exception
        return self.pin('decode').decode(encoding, errors)

    def format(self, *a, **k):
        from sx.hooks import fmt_format
        return fmt_format(self, a, k)

    def expandtabs(self, n=8):
        return self.pin('expandtabs').expandtabs(n)

    def _just(self, n, fill, where):
        n = n.__index__() - len(self.els)
        if n <= 0:
            return self.base()
        f = els_of(fill)
        if where == 'l':
            return mk(self.els + f * n, self.kind)
        if where == 'r':
            return mk(f * n + self.els, self.kind)
        return self.pin('center')

    def ljust(self, n, fill=None):
        return self._just(n, fill or self.kind(b' ') if self.kind is bytes
                          else fill or ' ', 'l')

    def rjust(self, n, fill=None):
        return self._just(n, fill or b' ' if self.kind is bytes
                          else fill or ' ', 'r')

    def zfill(self, n):
        if self.els and el_in_set(self.els[0], frozenset(b'+-')):
            return mk(els_of(self.pin('zfill').zfill(n)), self.kind)
        z = b'0' if self.kind is bytes else '0'
        return self._just(n, z, 'r')

    def translate(self, table, *a):
        if self.kind is bytes and not a and len(table) == 256 and \
                type(table) is bytes:
            return mk([el_map(e, table.__getitem__) for e in self.els], bytes)
        if self.kind is str and type(table) is dict:
            out = []
            for e in self.els:
                for k, v in table.items():
                    if el_eq(e, k):
                        if v is None:
                            pass
                        elif isinstance(v, int):
                            out.append(v)
                        else:
                            out.extend(els_of(v))
                        break
                else:
                    out.append(e)
            return mk(out, str)
        return self.pin('translate').translate(table, *a)

    def removeprefix(self, p):
        if self.startswith(p):
            return mk(self.els[len(p):], self.kind)
        return self.base()

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return mk(self.els[:-len(p)], self.kind)
        return self.base()

    def isidentifier(self):
        return self.pin('isidentifier').isidentifier()

    def istitle(self):
        return self.pin('istitle').istitle()

    def hex(self, *a):
        return self.pin('hex').hex(*a)


def tagged_attr2(self, name):
    cls, base = self.cls, self.kind
    if cls is not base:
        return tagged_attr(self, cls, name, base)
    if name.startswith('__') or not hasattr(base, name):
        raise AttributeError('%r object has no attribute %r' %
                             (base.__name__, name))
    raise EngineError('unmodelled attribute %s.%s' % (base.__name__, name))


def join(sep, xs):
    kind = kind_of(sep)
    out = []
    s = els_of(sep)
    first = True
    for i, x in enumerate(xs):
        if kind_of(x) is not kind:
            raise TypeError('sequence item %d: expected %s instance, %s found'
                            % (i, kind.__name__, type(x).__name__))
        if not first:
            out.extend(s)
        first = False
        out.extend(els_of(x))
    return mk(out, kind)


def _overridable(name):
    raw = SymSeq.__dict__[name]

    def method(self, *a, **k):
        if self.cls is not self.kind:
            ov = override(self.cls, name, self.kind)
            if ov is not None:
                return ov(self, *a, **k)
        return raw(self, *a, **k)
    method.__name__ = name
    setattr(SymSeq, name, method)


# methods that a subclass of str or bytes may redefine
for _n in [n for n, f in vars(SymSeq).items()
           if n[0].isalpha() and hasattr(f, '__code__') and
           n not in ('raw_eq', 'is_plain', 'base', 'pin', 'conc',
                     'contains')]:
    _overridable(_n)
del _n
