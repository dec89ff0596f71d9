"""Symbolic values: SymBool, SymInt (and SymByte), SymSeq (str/bytes)."""

import fractions
from math import inf
import types

import z3

from sx.core import E, EngineError

FULL = (1 << 256) - 1


# ---------------------------------------------------------------------------
# Booleans

class SymBool:
    __slots__ = ('_expr', 'conc', 'um')
    __class__ = property(lambda self: bool)

    def __init__(self, expr, conc, um=None):
        self._expr = expr
        self.conc = conc
        self.um = um

    @property
    def expr(self):
        if self._expr is None:
            self._expr = mask_expr(*self.um)
        return self._expr

    def __bool__(self):
        return E.decide(self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return bnot(beq(self, o))
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return beq(self, o)
        return int(bool(self)) == o

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))


def zb(x):
    if type(x) is SymBool:
        return x.expr
    return z3.BoolVal(bool(x))


def bnot(x):
    if type(x) is SymBool:
        if x.um is not None:
            return mkmask(x.um[0], full(x.um[0]) & ~x.um[1], not x.conc)
        return SymBool(z3.Not(x.expr), not x.conc)
    return not x


def band(a, b):
    if type(a) is not SymBool:
        return b if a else False
    if type(b) is not SymBool:
        return a if b else False
    if a.um is not None and b.um is not None and a.um[0] is b.um[0]:
        return mkmask(a.um[0], a.um[1] & b.um[1], a.conc and b.conc)
    return SymBool(z3.And(a.expr, b.expr), a.conc and b.conc)


def bor(a, b):
    if type(a) is not SymBool:
        return True if a else b
    if type(b) is not SymBool:
        return True if b else a
    if a.um is not None and b.um is not None and a.um[0] is b.um[0]:
        return mkmask(a.um[0], a.um[1] | b.um[1], a.conc or b.conc)
    return SymBool(z3.Or(a.expr, b.expr), a.conc or b.conc)


def beq(a, b):
    if type(a) is not SymBool and type(b) is not SymBool:
        return bool(a) == bool(b)
    if type(a) is not SymBool:
        a, b = b, a
    if type(b) is not SymBool:
        return a if b else bnot(a)
    return SymBool(a.expr == b.expr, a.conc == b.conc)


def ball(xs):
    xs = list(xs)
    if len(xs) == 1:
        return xs[0]
    exprs = []
    conc = True
    for x in xs:
        if type(x) is SymBool:
            exprs.append(x)
            conc = conc and x.conc
        elif not x:
            return False
    if not exprs:
        return True
    if len(exprs) == 1:
        return exprs[0]
    return SymBool(z3.And([x.expr for x in exprs]), conc)


def bany(xs):
    exprs = []
    conc = False
    for x in xs:
        if type(x) is SymBool:
            exprs.append(x)
            conc = conc or x.conc
        elif x:
            return True
    if not exprs:
        return False
    if len(exprs) == 1:
        return exprs[0]
    return SymBool(z3.Or([x.expr for x in exprs]), conc)


WIDE = 1024             # integers below this have a domain mask, too
FULL_WIDE = (1 << WIDE) - 1


def full(var):
    return FULL_WIDE if var.startswith('I!') else FULL


def mkmask(var, mask, conc):
    if mask == 0:
        return False
    if mask == FULL and not var.startswith('I!'):
        return True
    dom = E.domains.get(var)
    if dom is not None:
        # the path condition already restricts this byte
        if not dom & mask:
            return False
        if not dom & ~mask:
            return True
    return SymBool(None, conc, (var, mask))


_mask_cache = {}


def mask_ranges(mask):
    r = []
    i = 0
    while mask:
        if mask & 1:
            j = i
            while mask & 1:
                mask >>= 1
                j += 1
            r.append((i, j - 1))
            i = j
        else:
            mask >>= 1
            i += 1
    return r


def mask_expr(var, mask):
    if var.startswith('I!'):
        v = E.ivars[var[2:]]
        return z3.Or([v == lo if lo == hi else z3.And(v >= lo, v <= hi)
                      for lo, hi in mask_ranges(mask & E.iranges[var])] +
                     [z3.BoolVal(False)])
    key = (var, mask)
    got = _mask_cache.get(key)
    if got is not None:
        return got
    v = E.bytevar(var)
    neg = bin(mask).count('1') > 128
    rs = mask_ranges((FULL & ~mask) if neg else mask)
    parts = []
    for lo, hi in rs:
        if lo == hi:
            parts.append(v == lo)
        elif lo == 0:
            parts.append(z3.ULE(v, hi))
        elif hi == 255:
            parts.append(z3.UGE(v, lo))
        else:
            parts.append(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
    e = parts[0] if len(parts) == 1 else z3.Or(parts)
    if neg:
        e = z3.Not(e)
    _mask_cache[key] = e
    return e


_bytevars = {}


def _bytevar(name):
    v = _bytevars.get(name)
    if v is None:
        v = _bytevars[name] = z3.BitVec(name, 8)
    return v


E.bytevar = _bytevar


# ---------------------------------------------------------------------------
# Integers

def width_for(lo, hi):
    n = 1
    while not (-(1 << (n - 1)) <= lo and hi < (1 << (n - 1))):
        n += 1
    return n


def sext(expr, w):
    d = w - expr.size()
    if d > 0:
        return z3.SignExt(d, expr)
    if d < 0:
        return z3.Extract(w - 1, 0, expr)
    return expr


IDENT = tuple(range(256))


class SymInt:
    """A mathematical integer; `_e` is a signed bit-vector wide enough for
    [lo, hi], or None for a SymByte-like unary function of one byte."""

    __slots__ = ('_e', 'conc', 'lo', 'hi', 'cls', 'var', 'table', 'lin',
                 'wide')

    def __init__(self, e, conc, lo, hi, cls=int, var=None, table=None,
                 lin=None, wide=None):
        self.wide = wide        # name of an integer input below WIDE
        self.lin = lin          # (constant, {atom key: (coefficient, atom)})
        self._e = e
        self.conc = conc
        self.lo = lo
        self.hi = hi
        self.cls = cls
        self.var = var          # name of the byte variable, if unary
        self.table = table      # None = identity

    @property
    def __class__(self):
        return self.cls

    @property
    def expr(self):
        if self._e is None and self.lin is not None:
            self._e = lin_expr(self)
        if self._e is None:
            v = _bytevar(self.var)
            if self.table is None:
                self._e = z3.ZeroExt(1, v)
            else:
                w = width_for(self.lo, self.hi)
                groups = {}
                dom = E.domains.get(self.var, FULL)
                for i, t in enumerate(self.table):
                    if not dom >> i & 1:
                        continue        # excluded by the path already
                    groups[t - i] = groups.get(t - i, 0) | (1 << i)
                best = max(groups, key=lambda k: bin(groups[k]).count('1'))
                base = z3.ZeroExt(max(w - 8, 1), v)
                w = base.size()
                e = base + z3.BitVecVal(best, w)
                for k, m in groups.items():
                    if k != best:
                        e = z3.If(mask_expr(self.var, m),
                                  base + z3.BitVecVal(k, w), e)
                self._e = e
        return self._e

    # unary helpers
    def test(self, pred):
        """SymBool of a predicate over the value (unary values only)."""
        t = self.table or IDENT
        m = 0
        for i in range(256):
            if pred(t[i]):
                m |= 1 << i
        return mkmask(self.var, m, bool(pred(self.conc)))

    def in_mask(self, mask256):
        """Value is in the given 256-bit set of values."""
        if self.table is None:
            return mkmask(self.var, mask256, bool(mask256 >> self.conc & 1))
        return self.test(lambda v: 0 <= v < 256 and mask256 >> v & 1)

    def map(self, f):
        t = tuple(f(v) for v in (self.table or IDENT))
        if min(t) == max(t):
            return t[0]
        return SymInt(None, f(self.conc), min(t), max(t), int, self.var,
                      None if t == IDENT else t)

    def pin(self, why='int'):
        E.pin(self == self.conc if self.cls is int else
              icmp('eq', self, self.conc), why)
        return self.cls(self.conc) if self.cls is not int else self.conc

    def __index__(self):
        return int(self.pin('index'))

    def __int__(self):
        if self.cls is int:
            return self
        return SymInt(self._e, self.conc, self.lo, self.hi, int,
                      self.var, self.table, self.lin, self.wide)

    def __float__(self):
        return float(self.pin('float'))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        if not E.hash_ok:
            self.pin('hash')
        return hash(self.conc)

    def __bool__(self):
        ov = override(self.cls, '__bool__', int)
        if ov is not None:
            return bool(ov(self))
        return bool(icmp('ne', self, 0))

    def __repr__(self):
        ov = override(self.cls, '__repr__', int)
        if ov is not None:
            return ov(self)
        return repr(self.pin('repr'))

    def __str__(self):
        ov = override(self.cls, '__str__', int)
        if ov is not None:
            return ov(self)
        return str(self.pin('str'))

    def __format__(self, spec):
        return format(self.pin('format'), spec)

    def __eq__(self, o):
        return icmp('eq', self, o)

    def __ne__(self, o):
        return icmp('ne', self, o)

    def __lt__(self, o):
        return icmp('lt', self, o)

    def __le__(self, o):
        return icmp('le', self, o)

    def __gt__(self, o):
        return icmp('gt', self, o)

    def __ge__(self, o):
        return icmp('ge', self, o)

    def __add__(self, o):
        return iarith('add', self, o)

    def __radd__(self, o):
        return iarith('add', o, self)

    def __sub__(self, o):
        return iarith('sub', self, o)

    def __rsub__(self, o):
        return iarith('sub', o, self)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return iarith('mul', self, o)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return iarith('mul', o, self)

    def __neg__(self):
        return iarith('sub', 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        return idivmod(self, o)[0]

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        return idivmod(self, o)[1]

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return idivmod(self, o)

    def __truediv__(self, o):
        if type(o) is int and o in _TENS:
            return SymFloat(self, _TENS[o])
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        if self.var is not None and isinstance(o, int) and \
                type(o) is not SymInt:
            return self.map(lambda v: v & o)
        if type(o) is int and o >= 0 and o & (o + 1) == 0 and self.lo >= 0:
            return self % (o + 1)
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o):
        if self.var is not None and type(o) is not SymInt:
            return self.map(lambda v: v | o)
        if type(o) is int and o >= 0 and self.lo >= 0 and \
                o & ((1 << self.hi.bit_length()) - 1) == 0:
            return self + o
        return self.__index__() | o
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o

    def __lshift__(self, o):
        return self * (1 << o)

    def __rshift__(self, o):
        return self // (1 << o)

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def __getattr__(self, name):
        return tagged_attr(self, self.cls, name, int)


def mkint(e, conc, lo, hi):
    if lo == hi:
        return lo
    return SymInt(e, conc, lo, hi)


def as_int_operand(o):
    """(expr-getter, conc, lo, hi) or None"""
    t = type(o)
    if t is SymInt:
        return o, o.conc, o.lo, o.hi
    if t is bool or isinstance(o, int):
        o = int(o)
        return o, o, o, o
    if t is SymBool:
        v = int(bool(o))
        return v, v, v, v
    return None


def iexpr(o, w):
    if type(o) is SymInt:
        return sext(o.expr, w)
    return z3.BitVecVal(int(o), w)


_PY = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b,
}
_DUNDER = {'eq': '__eq__', 'ne': '__ne__', 'lt': '__lt__', 'le': '__le__',
           'gt': '__gt__', 'ge': '__ge__'}


def wide_mask(op, b):
    if op == 'eq':
        return 1 << b if 0 <= b < WIDE else 0
    if op == 'ne':
        return FULL_WIDE & ~wide_mask('eq', b)
    below = (1 << min(max(b, 0), WIDE)) - 1
    upto = (1 << min(max(b + 1, 0), WIDE)) - 1
    return {'lt': below, 'le': upto, 'gt': FULL_WIDE & ~upto,
            'ge': FULL_WIDE & ~below}[op]


def icmp(op, a, b):
    if type(a) is SymInt and a.cls is not int:
        ov = override(a.cls, _DUNDER[op], int)
        if ov is not None:
            return ov(a, b)
    if type(b) is float:
        return _PY[op](a.__index__() if type(a) is SymInt else a, b)
    B = as_int_operand(b)
    if B is None:
        return NotImplemented
    b, bc, blo, bhi = B
    _, ac, alo, ahi = as_int_operand(a)
    conc = _PY[op](ac, bc)
    # interval shortcuts
    if op == 'lt':
        if ahi < blo:
            return True
        if alo >= bhi:
            return False
    elif op == 'le':
        if ahi <= blo:
            return True
        if alo > bhi:
            return False
    elif op == 'gt':
        if alo > bhi:
            return True
        if ahi <= blo:
            return False
    elif op == 'ge':
        if alo >= bhi:
            return True
        if ahi < blo:
            return False
    elif ahi < blo or bhi < alo:
        return op == 'ne'
    if type(b) is not SymInt and a.wide is not None:
        return mkmask(a.wide, wide_mask(op, b), conc)
    if type(b) is not SymInt and a.var is not None:
        f = _PY[op]
        if a.table is None and op in ('eq', 'ne'):
            m = 1 << b if 0 <= b < 256 else 0
            return mkmask(a.var, m if op == 'eq' else FULL & ~m, conc)
        return a.test(lambda v: f(v, b))
    if type(b) is SymInt and a.var is not None and a.var is b.var:
        ta, tb = a.table or IDENT, b.table or IDENT
        m = 0
        f = _PY[op]
        for i in range(256):
            if f(ta[i], tb[i]):
                m |= 1 << i
        return mkmask(a.var, m, conc)
    r = lin_cmp(op, a, b, conc)
    if r is not None:
        return r
    w = width_for(min(alo, blo), max(ahi, bhi))
    ea, eb = iexpr(a, w), iexpr(b, w)
    if op == 'eq':
        e = ea == eb
    elif op == 'ne':
        e = ea != eb
    elif op == 'lt':
        e = ea < eb
    elif op == 'le':
        e = ea <= eb
    elif op == 'gt':
        e = ea > eb
    else:
        e = ea >= eb
    return SymBool(e, conc)


def iarith(op, a, b):
    if type(a) is float or type(b) is float:
        a = a.__index__() if type(a) is SymInt else a
        b = b.__index__() if type(b) is SymInt else b
        return _PY[op](a, b)
    A, B = as_int_operand(a), as_int_operand(b)
    if A is None or B is None:
        return NotImplemented
    a, ac, alo, ahi = A
    b, bc, blo, bhi = B
    f = _PY[op]
    if type(a) is not SymInt and type(b) is not SymInt:
        return f(a, b)
    if type(a) is SymInt and a.var is not None and type(b) is not SymInt \
            and abs(b) < 4096:
        r = a.map(lambda v: f(v, b))
        if type(r) is SymInt:
            r.lin = lin_arith(op, a, b)
        return r
    if type(b) is SymInt and b.var is not None and type(a) is not SymInt \
            and abs(a) < 4096:
        r = b.map(lambda v: f(a, v))
        if type(r) is SymInt:
            r.lin = lin_arith(op, a, b)
        return r
    cands = [f(x, y) for x in (alo, ahi) for y in (blo, bhi)]
    lo, hi = min(cands), max(cands)
    lin = lin_arith(op, a, b)
    if lin is not None:
        c, atoms = lin
        if not atoms or lo == hi:
            return f(ac, bc)
        return SymInt(None, f(ac, bc), lo, hi, lin=lin)
    w = width_for(min(lo, alo, blo), max(hi, ahi, bhi))
    ea, eb = iexpr(a, w), iexpr(b, w)
    if op == 'add':
        e = ea + eb
    elif op == 'sub':
        e = ea - eb
    else:
        e = ea * eb
    return mkint(e, f(ac, bc), lo, hi)


# -- linear combinations ------------------------------------------------------
# Kept so that equal sums built in different orders compare without a query,
# and sums over one byte become set membership of that byte.

def lin_of(x):
    if type(x) is not SymInt:
        return int(x), {}
    if x.lin is not None:
        return x.lin
    if x.var is not None:
        return 0, {(x.var, x.table): (1, x)}
    return 0, {('e', x.expr.get_id()): (1, x)}


def lin_arith(op, a, b):
    ca, la = lin_of(a)
    cb, lb = lin_of(b)
    if op == 'mul':
        if la and lb:
            return None
        if la:
            ca, la, cb, lb = cb, lb, ca, la
        # a is the constant
        if ca == 0:
            return 0, {}
        return ca * cb, {k: (ca * c, x) for k, (c, x) in lb.items()}
    sg = 1 if op == 'add' else -1
    out = dict(la)
    for k, (c, x) in lb.items():
        c0 = out[k][0] if k in out else 0
        c1 = c0 + sg * c
        if c1:
            out[k] = (c1, x)
        else:
            del out[k]
    return ca + sg * cb, out


def lin_expr(x):
    c, atoms = x.lin
    lo = hi = c
    for k, (co, a) in atoms.items():
        lo += min(co * a.lo, co * a.hi)
        hi += max(co * a.lo, co * a.hi)
    lo, hi = min(lo, x.lo), max(hi, x.hi)
    for k, (co, a) in atoms.items():
        lo, hi = min(lo, a.lo), max(hi, a.hi)
    w = width_for(lo, hi)
    e = z3.BitVecVal(c, w) if c else None
    for k, (co, a) in atoms.items():
        if a.lin is not None and a.var is not None:
            a = SymInt(None, a.conc, a.lo, a.hi, int, a.var, a.table)
        t = sext(a.expr, w)
        if co == -1:
            t = -t
        elif co != 1:
            t = t * z3.BitVecVal(co, w)
        e = t if e is None else e + t
    return e


def lin_cmp(op, a, b, conc):
    """Decide or simplify a comparison through its linear difference."""
    c, atoms = lin_arith('sub', a, b)
    byvar = {}
    rest = {}
    for k, (co, x) in atoms.items():
        if x.var is None:
            rest[k] = (co, x)
        else:
            byvar.setdefault(x.var, []).append((co, x.table or IDENT))
    lo = hi = c
    tabs = {}
    for var, ts in byvar.items():
        dom = E.domains.get(var, FULL)
        t = {}
        for v in range(256):
            if dom >> v & 1:
                t[v] = sum(co * tb[v] for co, tb in ts)
        mn, mx = min(t.values()), max(t.values())
        lo += mn
        hi += mx
        if mn == mx:
            c += mn
        else:
            tabs[var] = t
    for co, x in rest.values():
        lo += min(co * x.lo, co * x.hi)
        hi += max(co * x.lo, co * x.hi)
    f = _PY[op]
    if op in ('eq', 'ne'):
        if lo > 0 or hi < 0:
            return op == 'ne'
        if lo == hi == 0:
            return op == 'eq'
    else:
        if f(lo, 0) and f(hi, 0):
            return True
        if not f(lo, 0) and not f(hi, 0):
            return False
    if not rest and len(tabs) == 1:
        (var, t), = tabs.items()
        m = 0
        for v, y in t.items():
            if f(y + c, 0):
                m |= 1 << v
        if m == 0:
            return False
        return mkmask(var, m, conc)
    if not rest:
        return lex_cmp(op, c, tabs, conc)
    return None


def lex_cmp(op, c, tabs, conc):
    """sum(tabs) + c  op  0 as a formula over byte masks: a decision diagram
    that branches on the byte with the greatest weight first.  None when it
    would get too big."""
    neg = {'ne': 'eq', 'gt': 'le', 'ge': 'lt'}.get(op)
    items = []
    for var, t in tabs.items():
        byval = {}
        for v, x in t.items():
            byval[x] = byval.get(x, 0) | (1 << v)
        lo, hi = min(byval), max(byval)
        items.append((hi - lo, var, sorted(byval.items()), lo, hi))
    items.sort(key=lambda i: -i[0])
    n = len(items)
    lows = [0] * (n + 1)
    highs = [0] * (n + 1)
    for i in range(n - 1, -1, -1):
        lows[i] = lows[i + 1] + items[i][3]
        highs[i] = highs[i + 1] + items[i][4]
    eq = (neg or op) == 'eq'
    strict = (neg or op) == 'lt'
    memo = {}

    def rec(i, acc):
        lo, hi = acc + lows[i], acc + highs[i]
        if eq:
            if lo > 0 or hi < 0:
                return False
            if i == n:
                return True
        else:
            if hi < 0 or (hi == 0 and not strict):
                return True
            if lo > 0 or (lo == 0 and strict):
                return False
        key = (i, acc)
        if key in memo:
            return memo[key]
        if len(memo) > 60:
            raise OverflowError
        yes = 0
        parts = []
        for x, m in items[i][2]:
            r = rec(i + 1, acc + x)
            if r is True:
                yes |= m
            elif r is not False:
                parts.append((m, r))
        var = items[i][1]
        es = [mask_expr(var, yes)] if yes else []
        for m, r in parts:
            es.append(z3.And(mask_expr(var, m), r))
        e = False if not es else es[0] if len(es) == 1 else z3.Or(es)
        memo[key] = e
        return e

    try:
        e = rec(0, c)
    except OverflowError:
        return None
    if e is True or e is False:
        return bool(e) != (neg is not None)
    return SymBool(z3.Not(e) if neg else e, conc)


def idivmod(a, b):
    if type(b) is SymInt or not isinstance(b, int):
        return divmod(a.__index__(), b if type(b) is not SymInt
                      else b.__index__())
    if b <= 0:
        return divmod(a.__index__(), b)
    if a.var is not None:
        return a.map(lambda v: v // b), a.map(lambda v: v % b)
    q, r = divmod(a.conc, b)
    if a.lin is not None:
        return lin_div(a, b, q), lin_mod(a, b, r)
    w = width_for(min(a.lo, -b), max(a.hi, b)) + 1
    ea, eb = iexpr(a, w), z3.BitVecVal(b, w)
    if a.lo >= 0:
        qe, re_ = z3.UDiv(ea, eb), z3.URem(ea, eb)
    else:
        # floor semantics for positive divisor
        re_ = z3.SRem(ea, eb)
        re_ = z3.If(re_ < 0, re_ + eb, re_)
        qe = (ea - re_) / eb
    return (mkint(qe, q, a.lo // b, a.hi // b), mkint(re_, r, 0, b - 1))


def atom_range(x):
    if x.var is None:
        return x.lo, x.hi
    t = x.table or IDENT
    dom = E.domains.get(x.var, FULL)
    vs = [t[v] for v in range(256) if dom >> v & 1]
    return min(vs), max(vs)


def lin_make(c, atoms, conc):
    """A SymInt of c + the atoms"""
    if not atoms:
        return conc
    lo = hi = c
    for co, x in atoms.values():
        a, b = atom_range(x)
        lo += min(co * a, co * b)
        hi += max(co * a, co * b)
    if lo == hi:
        return conc
    if len(atoms) == 1:
        (co, x), = atoms.values()
        if x.var is not None:
            return x.map(lambda v: co * v + c)
    return SymInt(None, conc, lo, hi, lin=(c, atoms))


def lin_split(a, b):
    c, atoms = a.lin
    many = {k: (co // b, x) for k, (co, x) in atoms.items() if co % b == 0}
    rest = {k: v for k, v in atoms.items() if k not in many}
    lo = hi = c
    for co, x in rest.values():
        p, q = atom_range(x)
        lo += min(co * p, co * q)
        hi += max(co * p, co * q)
    return c, many, rest, lo, hi


def lin_div(a, b, q):
    c, many, rest, lo, hi = lin_split(a, b)
    k = lo // b
    conc_rest = a.conc - sum(co * b * x.conc for co, x in many.values())
    if hi // b == k:
        return lin_make(k, many, q)
    small = lin_make(c - k * b, rest, conc_rest - k * b)
    if type(small) is not SymInt:
        d = small // b
    elif small.var is not None:
        d = small.map(lambda v: v // b)
    else:
        w = width_for(0, max(hi - k * b, b)) + 1
        d = mkint(z3.UDiv(iexpr(small, w), z3.BitVecVal(b, w)),
                  small.conc // b, 0, hi // b - k)
    r = lin_make(k, many, q - (conc_rest // b - k))
    return d + r


def lin_mod(a, b, r):
    c, atoms = a.lin
    rest = {}
    for k, (co, x) in atoms.items():
        co %= b
        if co > b // 2:
            co -= b
        if co:
            rest[k] = (co, x)
    lo = hi = 0
    for co, x in rest.values():
        p, q = atom_range(x)
        lo += min(co * p, co * q)
        hi += max(co * p, co * q)
    c %= b
    c -= ((lo + c) // b) * b        # the smallest value is in [0, b)
    if not rest:
        return r
    if hi + c < b:
        return lin_make(c, rest, r)
    conc = c + sum(co * x.conc for co, x in rest.values())
    small = lin_make(c, rest, conc)
    if type(small) is not SymInt:
        return r
    if small.var is not None:
        return small.map(lambda v: v % b)
    w = width_for(0, max(hi + c, b)) + 1
    return mkint(z3.URem(iexpr(small, w), z3.BitVecVal(b, w)), r, 0, b - 1)


# ---------------------------------------------------------------------------
# Attribute lookup on proxies tagged with a Python class

BASES = (str, bytes, int)


def override(cls, name, base):
    if cls is base:
        return None
    for k in cls.__mro__:
        if k is base:
            return None
        if name in k.__dict__:
            f = k.__dict__[name]
            if f is None:
                return None
            return f if isinstance(f, types.FunctionType) else None
    return None


def tagged_attr(self, cls, name, base):
    if cls is not base:
        for k in cls.__mro__:
            if k is base:
                break
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, types.FunctionType):
                    return types.MethodType(a, self)
                if isinstance(a, property):
                    return a.fget(self)
                if isinstance(a, (staticmethod, classmethod)):
                    return a.__get__(None, cls)
                return a
    if name.startswith('__'):
        raise AttributeError(name)
    if not hasattr(base, name):
        raise AttributeError(
            '%r object has no attribute %r' % (cls.__name__, name))
    raise EngineError('unmodelled attribute %s.%s' % (base.__name__, name))


_TENS = {10 ** i: i for i in range(10)}


class SymFloat:
    """A decimal fraction: num / 10**scale (both within float exactness)."""

    __slots__ = ('num', 'scale', 'conc')
    __class__ = property(lambda self: float)

    def __init__(self, num, scale):
        self.num = num
        self.scale = scale
        n = num.conc if type(num) is SymInt else num
        self.conc = float('%de-%d' % (n, scale))

    def _cmp(self, o, op):
        if type(o) is SymFloat:
            k = max(self.scale, o.scale)
            return _PY[op](self.num * 10 ** (k - self.scale),
                           o.num * 10 ** (k - o.scale))
        if type(o) is SymInt:
            return _PY[op](self.num, o * 10 ** self.scale)
        if not isinstance(o, (int, float)):
            return NotImplemented
        f = fractions.Fraction(str(o)) if o == o and abs(o) != inf else None
        if f is None:
            return _PY[op](self.pin(), o)
        return _PY[op](self.num * f.denominator,
                       f.numerator * 10 ** self.scale)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def _arith(self, o, op):
        if type(o) is SymFloat:
            k = max(self.scale, o.scale)
            return SymFloat(_PY[op](self.num * 10 ** (k - self.scale),
                                    o.num * 10 ** (k - o.scale)), k)
        if type(o) is SymInt or type(o) is int:
            return SymFloat(_PY[op](self.num, o * 10 ** self.scale),
                            self.scale)
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, 'add')

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, 'sub')

    def __rsub__(self, o):
        return (self * -1)._arith(o, 'add')

    def __mul__(self, o):
        if type(o) is SymInt or type(o) is int:
            return SymFloat(self.num * o, self.scale)
        return self.pin() * o

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __bool__(self):
        return bool(self.num != 0)

    def pin(self, why='float'):
        if type(self.num) is SymInt:
            self.num.pin(why)
        return self.conc

    def __float__(self):
        return self.pin()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash(self.pin('hash'))

    def __repr__(self):
        return repr(self.pin('repr'))
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.pin('format'), spec)

    def _pinned(op):
        def f(self, *a):
            return getattr(self.pin('float arithmetic'), op)(*a)
        return f
    for _n in 'truediv rtruediv abs int round trunc floordiv mod'.split():
        locals()['__%s__' % _n] = _pinned('__%s__' % _n)
    del _n, _pinned


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymSeq or t is SymBool or t is SymFloat


def deep_sym(x, depth=3):
    t = type(x)
    if t is SymSeq or t is SymInt or t is SymBool or t is SymFloat:
        return True
    if depth and (t in (tuple, list, set, frozenset) or
                  isinstance(x, tuple)):
        for y in x:
            if deep_sym(y, depth - 1):
                return True
        return False
    if depth and t is dict:
        for k, v in x.items():
            if deep_sym(k, depth - 1) or deep_sym(v, depth - 1):
                return True
    return False


def conc_of(x, pin=True, why='concretise'):
    """The concrete counterpart of `x` (deep for builtin containers)."""
    t = type(x)
    if t is SymSeq:
        if pin:
            x.pin(why)
        return x.conc
    if t is SymInt:
        if pin:
            x.pin(why)
        return x.cls(x.conc) if x.cls is not int else x.conc
    if t is SymBool:
        return bool(x) if pin else x.conc
    if t is SymFloat:
        return x.pin(why) if pin else x.conc
    if t is list:
        return [conc_of(y, pin, why) for y in x] if deep_sym(x, 6) else x
    if t is tuple:
        return tuple(conc_of(y, pin, why) for y in x) \
            if deep_sym(x, 6) else x
    if isinstance(x, tuple) and hasattr(t, '_fields'):
        if deep_sym(x, 6):
            return tuple.__new__(t, [conc_of(y, pin, why) for y in x])
        return x
    if t in (set, frozenset):
        return t(conc_of(y, pin, why) for y in x) if deep_sym(x, 6) else x
    if t is dict:
        return {conc_of(k, pin, why): conc_of(v, pin, why)
                for k, v in x.items()} if deep_sym(x, 6) else x
    return x


from sx.seq import SymSeq                                   # noqa: E402
