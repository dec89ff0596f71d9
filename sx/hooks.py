"""Functions that instrumented code calls instead of Python's own operations."""

import builtins
import collections
import codecs
import functools
import io
import operator
import os
import re
import types

from sx import files
from sx.core import E, EngineError
from sx import values as V
from sx import seq as S
from sx.values import (SymInt, SymBool, is_sym, deep_sym, conc_of, band, bany,
                       ball, bnot)
from sx.seq import SymSeq, mk, els_of, kind_of, el_eq, el_in_set

_SYM = (SymInt, SymSeq, SymBool)
FunctionType = types.FunctionType
MethodType = types.MethodType
LruType = type(functools.lru_cache(lambda: 0))
BuiltinType = types.BuiltinFunctionType
CMethod = type(re.compile('').match)      # METH_METHOD builtins
MethodWrapper = type(''.__add__)
WrapperDescr = type(str.__add__)
MethodDescr = type(str.join)
ClassMethodDescr = type(dict.__dict__['fromkeys'])

_NATURAL = set()        # callables that are fine with proxies inside
_HANDLERS = {}          # builtin callable -> handler


def natural(*fs):
    for f in fs:
        _NATURAL.add(f)


def handles(*fs):
    def deco(h):
        for f in fs:
            _HANDLERS[f] = h
        return h
    return deco


natural(isinstance, issubclass, len, iter, next, enumerate, zip, list, tuple,
        reversed, any, all, map, filter, getattr, setattr, hasattr, id,
        callable, super, property, staticmethod, classmethod, print, sum,
        max, min, sorted, slice, object, delattr, functools.partial,
        operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
        operator.ge, operator.add, operator.sub, abs, functools.reduce,
        object.__new__, tuple.__new__, object.__init__, object.__setattr__,
        BaseException, Exception, ValueError, KeyError, TypeError,
        functools.wraps, collections.deque, bool, divmod, vars,
        type(NotImplemented), types.SimpleNamespace)

_NAT_METHODS = {
    list: {'append', 'extend', 'insert', 'pop', 'index', 'remove', 'count',
           'sort', 'reverse', 'clear', 'copy', '__iter__', '__len__',
           '__eq__', '__ne__', '__getitem__', '__setitem__', '__add__'},
    tuple: {'index', 'count', '__eq__', '__ne__', '__iter__', '__len__',
            '__new__', '__add__', '__lt__', '__le__', '__gt__', '__ge__'},
    collections.deque: None,
}


# Python code that is not instrumented and would mishandle symbolic values
_CONCRETE_PACKAGES = {'email', 'xml', 'defusedxml', 'csv', 'html', 'encodings',
                      'codecs', 'brotli', 'gzip', 'zlib', 'textwrap', 'pprint'}


def call(f, *a, **k):
    t = type(f)
    if t is FunctionType or t is MethodType:
        if t is FunctionType:
            h = _PYHANDLERS.get(f)
            if h is not None and (_anysym(a) or _anysym(k.values())):
                return h(f, a, k)
        elif f.__func__ in _METHODHANDLERS:
            return _METHODHANDLERS[f.__func__](f, f.__self__, a, k)
        m = f.__module__
        if type(m) is str and m.split('.', 1)[0] in _CONCRETE_PACKAGES:
            return _opaque(f, a, k)
        return f(*a, **k)
    if t is BuiltinType or t is MethodWrapper or t is CMethod:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType) and \
                type(s) is not type:
            return _bound(f, s, f.__name__, a, k)
    elif t is SymSeq or t is SymInt:
        raise TypeError('not callable')
    elif t is LruType:
        h = _PYHANDLERS.get(f)
        if h is not None and (_anysym(a) or _anysym(k.values())):
            return h(f, a, k)
    try:
        h = _HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        for x in a:
            if type(x) in _SYM or deep_sym(x):
                return h(f, a, k)
        if k and _anysym(k.values()):
            return h(f, a, k)
        if h in _ALWAYS:
            return h(f, a, k)
        return f(*a, **k)
    if isinstance(f, type):
        return _construct(f, a, k)
    if t is WrapperDescr or t is MethodDescr:
        return _unbound(f, a, k)
    if t is BuiltinType or t is CMethod:
        try:
            nat = f in _NATURAL
        except TypeError:
            nat = False
        if nat:
            return f(*a, **k)
        if type(f.__self__) is type:        # classmethod-ish / __new__
            if f.__name__ == '__new__':
                return _builtin_new(f, a, k)
        return _opaque(f, a, k)
    return f(*a, **k)


_ALWAYS = set()


def _anysym(xs):
    for x in xs:
        if type(x) in _SYM or deep_sym(x):
            return True
    return False


def _opaque(f, a, k, why=None):
    """A C callable with no model: arguments are concretised."""
    if not _anysym(a) and not (k and _anysym(k.values())):
        return f(*a, **k)
    why = why or 'call ' + getattr(f, '__qualname__', repr(f))
    a = [conc_of(x, True, why) for x in a]
    k = {n: conc_of(x, True, why) for n, x in k.items()}
    return f(*a, **k)


# -- dict / set keys --------------------------------------------------------

def key_sym(k, depth=3):
    t = type(k)
    if t is SymSeq or t is SymInt or t is SymBool:
        return True
    if t is str or t is int or t is bytes or k is None:
        return False
    if isinstance(k, tuple):
        return depth > 0 and any(key_sym(x, depth - 1) for x in k)
    if t is frozenset:
        return any(key_sym(x, depth - 1) for x in k)
    if hasattr(t, '__eq__') and t.__eq__ is not object.__eq__ and \
            isinstance(t.__eq__, FunctionType) and depth > 0:
        d = getattr(k, '__dict__', None)
        vals = list(d.values()) if d else []
        for c in t.__mro__:
            sl = c.__dict__.get('__slots__', ())
            for s in ((sl,) if isinstance(sl, str) else sl):
                try:
                    vals.append(getattr(k, s))
                except AttributeError:
                    pass
        return any(key_sym(x, depth - 1) for x in vals)
    return False


def key_eq(a, b):
    """a == b as dict keys, symbolically."""
    if isinstance(a, tuple) and isinstance(b, tuple) and \
            type(a).__eq__ is tuple.__eq__ and type(b).__eq__ is tuple.__eq__:
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = key_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return ball(rs)
    ka, kb = kind_of(a), kind_of(b)
    if ka is not kb:
        return False
    if ka is not None and len(a) != len(b):
        return False
    return a == b


_tainted = {}       # id(container) -> container, reset per path


def reset_tainted():
    _tainted.clear()
    _buffers.clear()


def prefork(d, k):
    """Decide k's equality against every key of d; afterwards real hashing is
    sound, because equal keys have equal shadows and equal shadows were
    decided."""
    ks = key_sym(k)
    if not ks and id(d) not in _tainted:
        return
    eqs = []
    with HOK:           # iterating over an OrderedDict hashes its keys
        ks_of_d = list(d)
    for x in ks_of_d:
        if x is k:
            continue
        if not ks and not key_sym(x):
            continue
        r = key_eq(k, x)
        if r is False:
            continue
        if r is True:
            return
        eqs.append(r)
    if not eqs:
        return
    if len(eqs) > 3:
        if not bany(eqs):
            return
    for r in eqs:
        if r:
            return


def taint(d, k):
    if key_sym(k):
        _tainted[id(d)] = d


class _hash_ok:
    def __enter__(self):
        E.hash_ok += 1

    def __exit__(self, *a):
        E.hash_ok -= 1


HOK = _hash_ok()


def _is_map(x):
    return isinstance(x, (dict, set, frozenset)) and type(x) is not SymSeq


def contains(a, b, neg=False):
    """`a in b` / `a not in b`"""
    r = _contains(a, b)
    return bnot(r) if neg else r


def _contains(a, b):
    t = type(b)
    if t is SymSeq:
        if b.kind is bytes and isinstance(a, int):
            return bany(el_eq(e, a) for e in b.els)
        if kind_of(a) is not b.kind:
            return a in b
        return b.contains(a)
    if t is str or t is bytes:
        if type(a) is SymInt:
            return el_in_set(a, frozenset(b))
        if type(a) is SymSeq:
            if len(a) == 1:
                return el_in_set(a.els[0], frozenset(els_of(b)))
            n = len(a)
            if n == 0:
                return True
            be = els_of(b)
            return bany([S.seq_eq(a.els, be[i:i + n])
                         for i in range(len(be) - n + 1)])
        return a in b
    if isinstance(b, (dict, set, frozenset)):
        if type(b).__contains__ not in (dict.__contains__, set.__contains__,
                                        frozenset.__contains__):
            return a in b
        if not key_sym(a) and id(b) not in _tainted:
            return a in b
        rs = []
        with HOK:
            ks_of_b = list(b)
        for x in ks_of_b:
            if x is a:
                return True
            r = key_eq(a, x)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        return bany(rs)
    if isinstance(b, type({}.keys())) or isinstance(b, type({}.values())):
        b = list(b)
    if isinstance(b, (list, tuple)) and \
            type(b).__contains__ in (list.__contains__, tuple.__contains__):
        if not key_sym(a) and not any(key_sym(x) for x in b):
            return a in b
        rs = []
        for x in b:
            if x is a:
                return True
            r = x == a
            if r is True:
                return True
            rs.append(r)
        return bany(rs)
    if isinstance(b, range) and type(a) is SymInt and b.step == 1:
        return band(a >= b.start, a < b.stop)
    return a in b


def bits_lookup(bits, i):
    """bitstring.Bits indexed by a symbolic byte -> membership formula."""
    key = id(bits)
    got = _bits_cache.get(key)
    if got is None or got[0] is not bits:
        m = 0
        for n, b in enumerate(bits):
            if b and n < 256:
                m |= 1 << n
        got = _bits_cache[key] = (bits, m, len(bits))
    _, m, n = got
    if i.hi >= n:
        if i >= n:
            raise IndexError('index out of range')
    if i.var is not None:
        return i.in_mask(m)
    return el_in_set(i, frozenset(j for j in range(n) if m >> j & 1))


_bits_cache = {}


def getitem(o, i):
    t = type(i)
    if t is SymInt or t is SymSeq or t is SymBool or t is tuple or \
            (_tainted and id(o) in _tainted) or isinstance(i, tuple):
        return _getitem(o, i)
    return o[i]


def _getitem(o, i):
    if type(o) in (SymSeq, type):
        return o[i]
    if isinstance(o, dict):
        if type(o).__getitem__ is dict.__getitem__ or \
                isinstance(o, (collections.OrderedDict, collections.Counter,
                               collections.defaultdict)):
            prefork(o, i)
            if hasattr(o, 'default_factory'):
                taint(o, i)
            with HOK:
                return o[i]
        return o[i]
    if type(i) is SymInt:
        if isinstance(o, (list, tuple)) and \
                type(o).__getitem__ in (list.__getitem__, tuple.__getitem__):
            n = len(o)
            if i >= n or i < -n:
                raise IndexError('index out of range')
            # all-int tables become an if-then-else term
            if all(type(x) is int for x in o) and i.lo >= 0 and n <= 512:
                if i.var is not None:
                    tab = i.table or V.IDENT
                    if max(tab) < n and min(tab) >= 0:
                        return i.map(lambda v: o[v])
                import z3
                lo, hi = min(o), max(o)
                if lo == hi:
                    return lo
                w = V.width_for(lo, hi)
                iw = V.width_for(min(i.lo, 0), max(i.hi, n))
                e = z3.BitVecVal(o[0], w)
                ie = V.iexpr(i, iw)
                for j in range(1, n):
                    e = z3.If(ie == j, z3.BitVecVal(o[j], w), e)
                return V.mkint(e, o[i.conc], lo, hi)
            for j in range(max(i.lo, -n), min(i.hi, n - 1) + 1):
                if i == j:
                    return o[j]
        if isinstance(o, bytes):
            return _getitem(list(o), i)
        if isinstance(o, str):
            return mk((_getitem(els_of(o), i),), str)
        if hasattr(type(o), 'tobytes') and hasattr(o, 'len'):
            return bits_lookup(o, i)
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and (key_sym(i) or id(o) in _tainted):
        prefork(o, i)
        taint(o, i)
        with HOK:
            o[i] = v
        return
    if isinstance(o, bytearray) and is_sym(v):
        v = conc_of(v)
    o[i] = v


def delitem(o, i):
    if isinstance(o, dict) and (key_sym(i) or id(o) in _tainted):
        prefork(o, i)
        with HOK:
            del o[i]
        return
    del o[i]


_AUG = {
    'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
    'Mod': operator.imod, 'BitAnd': operator.iand, 'BitOr': operator.ior,
    'FloorDiv': operator.ifloordiv, 'BitXor': operator.ixor,
    'LShift': operator.ilshift, 'RShift': operator.irshift,
    'Div': operator.itruediv, 'Pow': operator.ipow,
    'MatMult': operator.imatmul,
}


def augitem(o, i, op, v):
    setitem(o, i, _AUG[op](getitem(o, i), v))


def binop(op, a, b):
    if op == 'Mod':
        if isinstance(a, (str, bytes)):
            return fmt_percent(a, b)
        return a % b
    if _is_map(a) and _is_map(b) and not isinstance(a, dict) and \
            (_tainted or any(key_sym(x) for x in a) or
             any(key_sym(x) for x in b)):
        for x in a:
            prefork(b, x)
        with HOK:
            r = a - b if op == 'Sub' else a & b if op == 'BitAnd' else \
                a | b if op == 'BitOr' else a ^ b
        for x in r:
            taint(r, x)
        return r
    return _BIN[op](a, b)


_BIN = {'Sub': operator.sub, 'BitAnd': operator.and_, 'BitOr': operator.or_,
        'BitXor': operator.xor}


def cmpset(op, a, b):
    """==, <=, ... between two sets holding symbolic members."""
    return a, b


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def mkset(xs):
    s = set()
    for x in xs:
        set_add(s, x)
    return s


def set_add(s, x):
    if key_sym(x) or id(s) in _tainted:
        prefork(s, x)
        taint(s, x)
        with HOK:
            s.add(x)
    else:
        s.add(x)


# -- bound builtin methods --------------------------------------------------

def _bound(f, s, name, a, k):
    t = type(s)
    if isinstance(s, dict):
        if name in ('get', 'setdefault', 'pop', '__getitem__',
                    '__contains__', '__setitem__', '__delitem__'):
            if a and (key_sym(a[0]) or id(s) in _tainted):
                if name == '__contains__':
                    return _contains(a[0], s)
                prefork(s, a[0])
                if name in ('setdefault', '__setitem__'):
                    taint(s, a[0])
                with HOK:
                    return f(*a, **k)
            return f(*a, **k)
        if name == 'update':
            src = list(a[0].items() if isinstance(a[0], dict) or
                       hasattr(a[0], 'keys') else a[0]) if a else []
            src += list(k.items())
            if isinstance(s, collections.Counter):
                return _opaque(f, a, k)
            for kk, vv in src:
                setitem(s, kk, vv)
            return None
        if id(s) in _tainted or deep_sym(s, 2):
            with HOK:
                r = f(*a, **k)
            if name == 'copy':
                _tainted[id(r)] = r
            return r
        return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        if name == 'add':
            return set_add(s, a[0])
        if name in ('discard', 'remove', '__contains__'):
            if key_sym(a[0]) or id(s) in _tainted:
                if name == '__contains__':
                    return _contains(a[0], s)
                prefork(s, a[0])
                with HOK:
                    return f(*a)
            return f(*a)
        if name == 'update':
            for xs in a:
                for x in xs:
                    set_add(s, x)
            return None
        if name in ('union', 'intersection', 'difference',
                    'symmetric_difference', 'issubset', 'issuperset',
                    'isdisjoint', 'difference_update',
                    'intersection_update'):
            others = [mkset(list(x)) for x in a]
            if id(s) in _tainted or any(id(o) in _tainted for o in others):
                for o in others:
                    for x in list(s):
                        prefork(o, x)
                with HOK:
                    r = f(*others)
                if isinstance(r, (set, frozenset)):
                    for x in r:
                        taint(r, x)
                return r
            return f(*others)
        with HOK:
            return f(*a, **k)
    if t is str or t is bytes or isinstance(s, (str, bytes)):
        if t is SymSeq:
            return f(*a, **k)
        if name == 'join' and a:
            xs = list(a[0])
            if any(type(x) is SymSeq for x in xs):
                return S.join(s, xs)
            return f(xs)
        if name == 'format':
            if _anysym(a) or _anysym(k.values()):
                return fmt_format(s, a, k)
            return f(*a, **k)
        if _anysym(a) or (k and _anysym(k.values())):
            if name in ('__eq__', '__ne__') and type(a[0]) is SymSeq:
                r = a[0].raw_eq(s)
                return r if name == '__eq__' or r is NotImplemented \
                    else bnot(r)
            m = getattr(SymSeq, name, None)
            if m is not None:
                return m(SymSeq(els_of(s), kind_of(s), type(s)), *a, **k)
            return _opaque(f, a, k)
        return f(*a, **k)
    if isinstance(s, re.Pattern):
        from sx import rx
        if name in rx.METHODS and _anysym(a):
            return rx.METHODS[name](s, *a, **k)
        return f(*a, **k)
    for base, names in _NAT_METHODS.items():
        if isinstance(s, base):
            if names is None or name in names:
                if name in ('index', 'remove', 'count') and base is list and \
                        name == 'index':
                    return _list_index(s, *a)
                return f(*a, **k)
    if name in ('__init__', '__new__', '__setattr__', '__getattribute__',
                'send', 'throw', 'close', '__next__', '__enter__',
                '__exit__', '__init_subclass__', '__str__', '__repr__',
                'with_traceback', '__iter__'):
        return f(*a, **k)
    if isinstance(s, int):
        if name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__',
                    '__ge__') and a and type(a[0]) is SymInt:
            return V._PY[name.strip('_')](int(s), a[0])
    if isinstance(s, (io.StringIO, io.BytesIO)):
        return _buffer(f, s, name, a, k)
    h = _SELF_HANDLERS.get(t)
    if h is not None:
        return h(f, s, name, a, k)
    return _opaque(f, a, k)


_buffers = {}       # id(buffer) -> (buffer, what was written), reset per path


def _buffer(f, s, name, a, k):
    """In-memory files that are appended to"""
    b = _buffers.get(id(s))
    if name == 'write' and a and type(a[0]) is SymSeq:
        if (a[0].kind is str) != isinstance(s, io.StringIO):
            raise TypeError('wrong kind of string for this buffer')
        if b is None:
            b = _buffers[id(s)] = (s, [s.getvalue()])
        b[1].append(a[0])
        return len(a[0])
    if b is None:
        return _opaque(f, a, k)
    if name == 'write':
        if (kind_of(a[0]) is str) != isinstance(s, io.StringIO):
            raise TypeError('wrong kind of string for this buffer')
        b[1].append(a[0])
        return len(a[0])
    if name == 'getvalue':
        return S.join('' if isinstance(s, io.StringIO) else b'', b[1])
    if name in ('close', 'flush', '__exit__'):
        return None
    # something else: give up on the symbolic contents
    parts = [conc_of(x, True, 'buffer ' + name) for x in b[1]]
    del _buffers[id(s)]
    s.seek(0)
    s.truncate(0)
    for x in parts:
        s.write(x)
    return _opaque(f, a, k)


def _writer(f, s, a, k):
    """codecs.StreamWriter.write"""
    x = a[0]
    if type(x) is not SymSeq:
        return f(*a, **k)
    name = codecs.lookup('utf-8').streamwriter
    if not isinstance(s, name) or s.errors != 'strict':
        return f(x.pin('codecs writer'), *a[1:], **k)
    return call(s.stream.write, x.encode('utf-8'))


def _writer_lines(f, s, a, k):
    for x in a[0]:
        _writer(s.write, s, (x,), {})


_METHODHANDLERS = {codecs.StreamWriter.write: _writer,
                   codecs.StreamWriter.writelines: _writer_lines}


def model_timestamps(dt):
    """datetime.utcfromtimestamp of a symbolic whole number"""
    def utcfromtimestamp(f, cls, a, k):
        if a and type(a[0]) is SymInt and len(a) == 1:
            if (a[0] >= -62135596800) & (a[0] <= 253402300799):
                return cls(1970, 1, 1) + dt.timedelta(0, a[0])
            raise ValueError('year is out of range')
        return f(*a, **k)

    def fromtimestamp(f, cls, a, k):
        tz = k.get('tz', a[1] if len(a) > 1 else None)
        if a and type(a[0]) is SymInt and tz is dt.timezone.utc:
            if (a[0] >= -62135596800) & (a[0] <= 253402300799):
                return cls(1970, 1, 1, tzinfo=tz) + dt.timedelta(0, a[0])
            raise ValueError('year is out of range')
        return f(*a, **k)

    _METHODHANDLERS[dt.datetime.utcfromtimestamp.__func__] = utcfromtimestamp
    _METHODHANDLERS[dt.datetime.fromtimestamp.__func__] = fromtimestamp


_SELF_HANDLERS = {}
_PYHANDLERS = {}


def alias(f, g):
    """Call g in place of f when an argument is symbolic."""
    if f not in _PYHANDLERS:
        _PYHANDLERS[f] = lambda f, a, k: g(*a, **k)


def make_concrete(f):
    """Arguments of f (a Python function) are concretised."""
    _PYHANDLERS[f] = _opaque


def _list_index(s, x, *rest):
    if rest or not (key_sym(x) or any(key_sym(y) for y in s)):
        return s.index(x, *rest)
    for i, y in enumerate(s):
        if y is x or y == x:
            return i
    raise ValueError('not in list')


def _unbound(f, a, k):
    """str.lower(x), dict.__getitem__(d, k), ..."""
    if not a:
        return f(*a, **k)
    s = a[0]
    name = f.__name__
    oc = f.__objclass__
    if type(s) is SymSeq:
        if oc not in (str, bytes, object):
            raise TypeError('bad receiver')
        if name == '__eq__':
            return s.raw_eq(a[1])
        if name == '__ne__':
            r = s.raw_eq(a[1])
            return r if r is NotImplemented else bnot(r)
        if name == '__hash__':
            return SymSeq.__hash__(s)
        if name in ('__repr__', '__str__'):
            return f(s.pin(name))
        if name in ('__init__',):
            return None
        return getattr(SymSeq(s.els, s.kind), name)(*a[1:], **k)
    if type(s) is SymInt:
        if name == '__hash__':
            return SymInt.__hash__(s)
        if name in ('__init__',):
            return None
        if name in ('__repr__', '__str__'):
            return f(conc_of(s))
        return getattr(int_of(s), name)(*a[1:], **k)
    if oc in (dict, set, frozenset, str, bytes, list, tuple, int):
        b = getattr(f, '__get__')(s, type(s))
        if oc is dict and name in ('__getitem__', 'get'):
            if key_sym(a[1]) or id(s) in _tainted:
                prefork(s, a[1])
                with HOK:
                    return b(*a[1:], **k)
        if oc in (tuple, list):
            return b(*a[1:], **k)
        return _bound(b, s, name, a[1:], k)
    return f(*a, **k)


def int_of(s):
    return SymInt(s._e, s.conc, s.lo, s.hi, int, s.var, s.table, s.lin, s.wide)


# -- constructors -----------------------------------------------------------

def _construct(f, a, k):
    """Calling a class that has no explicit handler."""
    if f in _NATURAL:
        return f(*a, **k)
    if issubclass(f, (str, bytes, int)) and not issubclass(f, bool):
        if _anysym(a):
            new = None
            for c in f.__mro__:
                if '__new__' in c.__dict__:
                    new = c.__dict__['__new__']
                    break
            if isinstance(new, staticmethod):
                return new.__func__(f, *a, **k)
            return _builtin_new(f.__new__, (f,) + a, k)
        return f(*a, **k)
    mod = f.__module__
    if f.__flags__ & (1 << 9) or isinstance(
            f.__dict__.get('__init__'), FunctionType):   # heap type
        if f.__init__ is object.__init__ or isinstance(
                f.__init__, FunctionType):
            return f(*a, **k)
        return f(*a, **k)
    if mod == 'builtins' and f not in (bytearray, memoryview, float, complex,
                                       range):
        return f(*a, **k)
    return _opaque(f, a, k)


def _builtin_new(f, a, k):
    """str.__new__(cls, x) and friends."""
    cls = a[0]
    if isinstance(cls, type) and issubclass(cls, (str, bytes, int)) and \
            _anysym(a[1:]):
        x = a[1]
        if issubclass(cls, int):
            v = _int(int, (x,) + a[2:], k)
            if type(v) is SymInt:
                return SymInt(v._e, v.conc, v.lo, v.hi, cls, v.var, v.table,
                              v.lin, v.wide)
            return int.__new__(cls, v)
        if issubclass(cls, str):
            v = _str(str, (x,) + a[2:], k)
            if type(v) is SymSeq:
                return SymSeq(v.els, str, cls)
            return str.__new__(cls, v)
        v = _bytes(bytes, (x,) + a[2:], k)
        if type(v) is SymSeq:
            return SymSeq(v.els, bytes, cls)
        return bytes.__new__(cls, v)
    return f(*a, **k)


@handles(ord)
def _ord(f, a, k):
    x = a[0]
    if type(x) is SymSeq:
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.els[0]
    return ord(x)


@handles(chr)
def _chr(f, a, k):
    return mk((a[0],), str)


@handles(str)
def _str(f, a, k):
    if not a:
        return f(*a, **k)
    x = a[0]
    if type(x) is SymSeq:
        if len(a) > 1 or k:
            return x.decode(*a[1:], **k)
        if x.kind is str:
            ov = V.override(x.cls, '__str__', str)
            if ov is not None:
                return ov(x)
            return x.base()
        return str(x.pin('str(bytes)'))
    if type(x) is SymInt:
        ov = V.override(x.cls, '__str__', int)
        if ov is not None:
            return ov(x)
        return int_to_str(x)
    if type(x) is SymBool:
        return str(bool(x))
    if isinstance(x, (tuple, list, dict, set, frozenset)) and \
            type(x).__str__ is object.__str__ or not hasattr(x, '__str__'):
        return str(conc_of(x, True, 'str(container)'))
    r = type(x).__str__
    if isinstance(r, FunctionType):
        return r(x)
    return str(conc_of(x, True, 'str'))


def int_to_str(x):
    """Decimal digits of a symbolic int (forks on the number of digits)."""
    x = int_of(x)
    if x.lo < 0:
        if x < 0:
            return '-' + int_to_str(-x) if type(-x) is SymInt else str(-x)
    n = 1
    while x.hi >= 10 ** n and x >= 10 ** n:
        n += 1
    els = []
    for p in range(n - 1, -1, -1):
        d = (x // 10 ** p) % 10
        els.append(d + 48)
    return mk(els, str)


# str(...) of arbitrary objects holding proxies must also go through _str
def _str_always(f, a, k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t in _SYM:
            return _str(f, a, k)
        m = getattr(t, '__str__', None)
        if isinstance(m, FunctionType):
            return m(x)
        if isinstance(x, Exception) and deep_sym(x.args):
            if len(x.args) == 1:
                return _str(str, (x.args[0],), {})
            return str(conc_of(x.args, True, 'str(exc)'))
        if deep_sym(x):
            return _str(f, a, k)
    elif _anysym(a):
        return _str(f, a, k)
    return f(*a, **k)


_HANDLERS[str] = _str_always
_ALWAYS.add(_str_always)


def _repr_always(f, a, k):
    x = a[0]
    t = type(x)
    if t in _SYM:
        return repr(conc_of(x, True, 'repr'))
    if deep_sym(x):
        return repr(conc_of(x, True, 'repr'))
    return f(*a, **k)


_HANDLERS[repr] = _repr_always
_ALWAYS.add(_repr_always)


@handles(bytes)
def _bytes(f, a, k):
    x = a[0]
    if type(x) is SymSeq:
        if x.kind is str:
            return x.encode(*a[1:], **k)
        return x.base()
    if type(x) is SymInt:
        return bytes(x.__index__())
    if isinstance(x, (list, tuple)):
        return mk([e for e in x], bytes)
    return bytes(conc_of(x, True, 'bytes'))


DIGITS = frozenset(range(48, 58))


@handles(int)
def _int(f, a, k):
    x = a[0]
    if type(x) is SymInt:
        return int_of(x)
    if type(x) is SymBool:
        return int(bool(x))
    if type(x) is SymSeq:
        base = a[1] if len(a) > 1 else k.get('base', 10)
        return parse_int(x, base)
    return f(*a, **k)


def parse_int(x, base):
    """int(<symbolic text>, base) with CPython's grammar."""
    s = x.strip() if x.kind is str else x.strip(b' \t\n\r\x0b\x0c')
    els = list(els_of(s))
    bad = ValueError('invalid literal for int() with base %d' % base)
    if not els:
        raise bad
    neg = False
    if el_in_set(els[0], frozenset(b'+-')):
        neg = bool(el_eq(els[0], 45))
        els = els[1:]
    pre = {16: b'xX', 8: b'oO', 2: b'bB'}.get(base)
    if base == 0:
        return int(conc_of(x), 0)
    us_ok = False
    if pre and len(els) > 2 and el_eq(els[0], 48) and \
            el_in_set(els[1], frozenset(pre)):
        els = els[2:]
        us_ok = True
    valid = {}
    for d in range(base):
        c = '0123456789abcdefghijklmnopqrstuvwxyz'[d]
        valid[ord(c)] = d
        valid[ord(c.upper())] = d
    vs = frozenset(valid)
    val = 0
    prev_us = not us_ok
    n = 0
    for e in els:
        if el_in_set(e, vs):
            if type(e) is SymInt:
                if e.var is not None:
                    d = e.map(lambda v: valid.get(v, 0))
                else:
                    d = valid[e.__index__()]
            else:
                d = valid[e]
            val = val * base + d
            prev_us = False
            n += 1
        elif el_eq(e, 95) and not prev_us:
            prev_us = True
        else:
            if x.kind is str and not (e < 128):
                # other Unicode decimal digits do not occur below U+0100
                if type(e) is not SymInt or e.hi > 255:
                    return int(conc_of(x), base)
            raise bad
    if n == 0 or (prev_us and n):
        raise bad
    if n > 4300 and base not in (2, 4, 8, 16, 32):
        raise ValueError('Exceeds the limit (4300 digits) for integer '
                         'string conversion')
    return -val if neg else val


def _range(f, a, k):
    return range(*[x.__index__() if type(x) is SymInt else x for x in a])


_HANDLERS[range] = _range


@handles(float)
def _float(f, a, k):
    x = a[0]
    if type(x) is V.SymFloat:
        return x
    if type(x) is SymSeq:
        r = parse_decimal(x)
        if r is not None:
            return r
    return float(conc_of(x, True, 'float'))


def parse_decimal(x):
    """Digits with at most one point, short enough to be exact."""
    els = list(els_of(x))
    if not 0 < len(els) <= 12:
        return None
    val = 0
    scale = -1
    n = 0
    for e in els:
        if el_in_set(e, DIGITS):
            d = e.map(lambda v: v - 48 if 48 <= v < 58 else 0) \
                if type(e) is SymInt and e.var is not None else \
                int(e) - 48
            val = val * 10 + d
            n += 1
            if scale >= 0:
                scale += 1
        elif scale < 0 and el_eq(e, 46):
            scale = 0
        else:
            return None
    if not n:
        return None
    if type(val) is not SymInt:
        return float(conc_of(x, True, 'float'))
    return V.SymFloat(val, max(scale, 0))


@handles(hash)
def _hash(f, a, k):
    return hash(a[0])


@handles(type)
def _type(f, a, k):
    if len(a) == 1:
        x = a[0]
        if type(x) in (SymSeq, SymInt):
            return x.cls
        if type(x) is SymBool:
            return bool
    return f(*a, **k)


def _dict_new(f, a, k):
    src = []
    if a:
        src = list(a[0].items()) if hasattr(a[0], 'keys') else list(a[0])
    if any(key_sym(p[0]) for p in src):
        d = f()
        for kk, vv in src:
            setitem(d, kk, vv)
        for kk, vv in k.items():
            setitem(d, kk, vv)
        return d
    if a:
        return f(src if not isinstance(a[0], dict) else a[0], **k)
    return f(**k)


def _set_new(f, a, k):
    if not a:
        return f()
    xs = list(a[0])
    if any(key_sym(x) for x in xs):
        s = mkset(xs)
        if f is set:
            return s
        with HOK:
            r = f(s)
        _tainted[id(r)] = r
        return r
    return f(xs)


def _counter_new(f, a, k):
    if not a or hasattr(a[0], 'keys'):
        return f(*a, **k)
    xs = list(a[0])
    if any(key_sym(x) for x in xs):
        c = f()
        for x in xs:
            setitem(c, x, _getitem(c, x) + 1)
        return c
    return f(xs)


for _f, _h in ((dict, _dict_new), (collections.OrderedDict, _dict_new),
               (set, _set_new), (frozenset, _set_new),
               (collections.Counter, _counter_new)):
    _HANDLERS[_f] = _h
    _ALWAYS.add(_h)


@handles(dict.fromkeys, collections.OrderedDict.fromkeys)
def _fromkeys(f, a, k):
    d = f.__self__()
    for x in a[0]:
        setitem(d, x, a[1] if len(a) > 1 else None)
    return d


@handles(sorted, min, max)
def _sorted(f, a, k):
    return f(*a, **k)


def _any(f, a, k):
    for x in a[0]:
        if x:
            return True
    return False


def _re_fn(name):
    def h(f, a, k):
        from sx import rx
        k = dict(k)
        names = ('pattern', 'repl', 'string') if name in ('sub', 'subn') \
            else ('pattern', 'string')
        a = list(a)
        for n in names[len(a):]:
            a.append(k.pop(n))
        pat = a[0]
        if isinstance(pat, (str, bytes)):
            flags = k.pop('flags', 0)
            pat = re.compile(pat, flags)
        rest = a[1:]
        if name in ('match', 'search', 'fullmatch') and len(rest) == 2:
            pat = re.compile(pat.pattern, rest[1])
            rest = rest[:1]
        return rx.METHODS[name](pat, *rest, **k)
    return h


for _n in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall',
           'finditer', 'subn'):
    _PYHANDLERS[getattr(re, _n)] = _re_fn(_n)


# -- percent encoding ---------------------------------------------------------

_HEX = frozenset(b'0123456789abcdefABCDEF')
_HEXVAL = tuple(int(chr(i), 16) if i in _HEX else 0 for i in range(256))
_HEXCHAR = tuple(b'0123456789ABCDEF')


def _unquote_to_bytes(f, a, k):
    s = a[0]
    if kind_of(s) is str:
        s = s.encode('utf-8')
    els = els_of(s)
    out = []
    i = 0
    while i < len(els):
        if i + 2 < len(els) and el_eq(els[i], 37) and \
                el_in_set(els[i + 1], _HEX) and el_in_set(els[i + 2], _HEX):
            out.append(_getitem(_HEXVAL, els[i + 1]) * 16 +
                       _getitem(_HEXVAL, els[i + 2]))
            i += 3
        else:
            out.append(els[i])
            i += 1
    return mk(tuple(out), bytes)


def _quote(f, a, k):
    s = a[0]
    safe = k.get('safe', a[1] if len(a) > 1 else '/')
    if kind_of(s) is str:
        s = s.encode('utf-8')
    ok = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
                   b'0123456789_.-~' + conc_of(safe).encode('ascii'))
    out = []
    for e in els_of(s):
        if el_in_set(e, ok):
            out.append(e)
        else:
            out += [37, _getitem(_HEXCHAR, e >> 4), _getitem(_HEXCHAR, e & 15)]
    return mk(tuple(out), str)


import urllib.parse                                          # noqa: E402

_QUOTING = {urllib.parse.unquote_to_bytes: _unquote_to_bytes,
            urllib.parse.quote: _quote}
_PYHANDLERS.update(_QUOTING)


_B64 = {c: i for i, c in enumerate(
    b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')}
_B64SET = frozenset(_B64)
_B64VAL = tuple(_B64.get(c, 0) for c in range(256))


def _b64decode(f, a, k):
    """binascii.a2b_base64 in its lenient mode"""
    if len(a) != 1 or k or kind_of(a[0]) is None:
        return _opaque(f, a, k)
    s = a[0]
    if kind_of(s) is str:
        for e in els_of(s):
            if e >= 128:
                raise ValueError('string argument should contain only ASCII '
                                 'characters')
    out = []
    pos = pads = n = 0
    left = 0
    for e in els_of(s):
        if el_eq(e, 61):
            if pos >= 2:
                pads += 1
                if pos + pads >= 4:
                    return mk(tuple(out), bytes)
            continue
        if not el_in_set(e, _B64SET):
            continue
        v = _getitem(_B64VAL, e)
        pads = 0
        n += 1
        if pos == 0:
            left = v * 4
        elif pos == 1:
            out.append(left + v // 16)
            left = v % 16 * 16
        elif pos == 2:
            out.append(left + v // 4)
            left = v % 4 * 64
        else:
            out.append(left + v)
        pos = (pos + 1) % 4
    if pos == 1:
        raise binascii.Error(
            'Invalid base64-encoded string: number of data characters (%d) '
            'cannot be 1 more than a multiple of 4' % n)
    if pos:
        raise binascii.Error('Incorrect padding')
    return mk(tuple(out), bytes)


import base64                                                # noqa: E402
import binascii                                              # noqa: E402

_PYHANDLERS[base64.b64decode] = _b64decode


@handles(io.BytesIO)
def _bytesio(f, a, k):
    """A file to read from"""
    if len(a) == 1 and not k and type(a[0]) is SymSeq and a[0].kind is bytes:
        return files.ByteFile(a[0])
    return _opaque(f, a, k)


@handles(io.BufferedReader)
def _buffered(f, a, k):
    if a and isinstance(a[0], files.ByteFile):
        return a[0]
    return f(*a, **k)


_ALWAYS.add(_buffered)


@handles(map, filter)
def _map(f, a, k):
    if a[0] is not None and not isinstance(a[0], type):
        return f(functools.partial(call, a[0]), *a[1:])
    return f(*a, **k)


_ALWAYS.add(_map)


@handles(os.fspath)
def _fspath(f, a, k):
    x = a[0]
    if type(x) is SymSeq:
        return x
    return _opaque(f, a, k)


_HEXLOW = tuple(b'0123456789abcdef')


@handles(hex)
def _hex(f, a, k):
    x = a[0]
    if type(x) is not SymInt or x.lo < 0 or x.hi > 255:
        return _opaque(f, a, k)
    els = [48, 120]
    if x >= 16:
        els.append(_getitem(_HEXLOW, x // 16))
    els.append(_getitem(_HEXLOW, x % 16))
    return mk(tuple(els), str)


# -- formatting -------------------------------------------------------------

def tostr(x):
    return _str_always(str, (x,), {})


_PCT = re.compile(r'%(?:\((?P<name>[^)]*)\))?(?P<flags>[#0\- +]*)'
                  r'(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?'
                  r'(?P<conv>[diouxXeEfFgGcrsa%])')


def _str_needs_hook(x):
    t = type(x)
    return t in _SYM or deep_sym(x) or isinstance(
        getattr(t, '__str__', None), FunctionType)


def fmt_percent(fmt, args):
    if type(fmt) is not SymSeq:
        if isinstance(args, tuple):
            need = any(_str_needs_hook(x) for x in args)
        elif isinstance(args, dict):
            need = any(_str_needs_hook(x) for x in args.values())
        else:
            need = _str_needs_hook(args)
        if not need:
            return fmt % args
    kind = kind_of(fmt)
    f = conc_of(fmt, True, 'format string')
    if kind is bytes:
        fs = f.decode('iso-8859-1')
    else:
        fs = f
    out = []
    pos = 0
    is_map = isinstance(args, dict)
    seq = args if isinstance(args, tuple) else (args,)
    ai = 0
    for m in _PCT.finditer(fs):
        out.extend(map(ord, fs[pos:m.start()]))
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append(37)
            continue
        if m.group('width') == '*' or m.group('prec') == '*':
            raise EngineError('star in format')
        if m.group('name') is not None:
            x = getitem(args, m.group('name') if kind is str
                        else m.group('name').encode())
        else:
            if ai >= len(seq):
                raise TypeError('not enough arguments for format string')
            x = seq[ai]
            ai += 1
        plain = not (m.group('flags') or m.group('width') or m.group('prec'))
        if conv == 's' and kind is str:
            s = tostr(x)
            if not plain:
                s = conc_of(s, True, 'padded %s')
                s = ('%' + m.group('flags') + (m.group('width') or '') + (
                    '.' + m.group('prec') if m.group('prec') else '') + 's'
                     ) % s
            out.extend(els_of(s))
        elif conv == 's' and kind is bytes:
            if not plain:
                x = conc_of(x, True, 'padded')
                out.extend(els_of((m.group(0).encode()) % x))
            else:
                if kind_of(x) is not bytes:
                    raise TypeError('%b requires bytes')
                out.extend(els_of(x))
        elif conv in 'di' and plain and type(x) is SymInt:
            out.extend(els_of(int_to_str(x)))
        elif conv in 'di' and type(x) is SymInt and x.lo >= 0 and \
                m.group('flags') == '0' and m.group('width') and \
                not m.group('prec'):
            d = els_of(int_to_str(x))
            out.extend((48,) * (int(m.group('width')) - len(d)) + d)
        else:
            spec = re.sub(r'\([^)]*\)', '', m.group(0), count=1) \
                if m.group('name') is not None else m.group(0)
            got = fmt_table(spec, x) if conv in 'xXdio' else None
            if got is None:
                got = els_of(spec % (conc_of(x, True, 'fmt ' + conv),))
            out.extend(got)
    out.extend(map(ord, fs[pos:]))
    if not is_map and ai < len(seq) and isinstance(args, tuple):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return mk(out, kind)


def fmt_table(spec, x):
    """Format a byte-sized symbolic number by table lookup, if all its values
    take the same number of characters."""
    if type(x) is not SymInt or x.var is None or x.lo < 0 or x.hi > 255:
        return None
    vals = [spec % v if x.lo <= v <= x.hi else None for v in range(x.hi + 1)]
    n = len(vals[x.hi])
    if any(v is not None and len(v) != n for v in vals):
        return None
    return [x.map(lambda v, i=i: ord(vals[v][i])
                  if v < len(vals) and vals[v] else 0) for i in range(n)]


def fmt_format(fmt, a, k):
    import string
    f = conc_of(fmt, True, 'format string')
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.extend(map(ord, lit))
        if field is None:
            continue
        m = re.match(r'[^.\[]*', field)
        first = m.group(0)
        if first == '':
            x = a[auto]
            auto += 1
        elif first.isdigit():
            x = a[int(first)]
        else:
            x = k[first]
        for attr, idx in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]',
                                    field[m.end():]):
            x = getattr(x, attr) if attr else \
                x[int(idx) if idx.isdigit() else idx]
        if conv == 'r':
            x = _repr_always(repr, (x,), {})
        elif conv == 's':
            x = tostr(x)
        out.extend(els_of(_format_value(x, spec)))
    return mk(out, str)


def _format_value(x, spec):
    if type(x) in _SYM or deep_sym(x):
        if not spec or spec == 's' or (spec == 'd' and type(x) is SymInt):
            if type(x) is SymInt and spec == 'd':
                return int_to_str(x)
            return tostr(x)
        m = re.match(r'0(\d+)d$', spec)
        if m and type(x) is SymInt and x.lo >= 0:
            return fmt_percent('%%0%sd' % m.group(1), (x,))
        return format(conc_of(x, True, 'format'), spec)
    m = type(x).__format__
    if m is object.__format__ and not spec:
        return tostr(x)
    return format(x, spec)


_STRF = {'%Y': (0, '%d'), '%m': (1, '%02d'), '%d': (2, '%02d'),
         '%H': (3, '%02d'), '%M': (4, '%02d'), '%S': (5, '%02d')}


def strftime(original, obj, fmt, timetuple):
    parts = re.findall(r'%.|[^%]+', fmt)
    if not deep_sym(tuple(timetuple)) or \
            any(p[0] == '%' and p not in _STRF for p in parts):
        return original(obj, fmt, timetuple)
    out = ''
    for p in parts:
        if p[0] == '%':
            i, f = _STRF[p]
            p = fmt_percent(f, (timetuple[i],))
        out = out + p
    return out


@handles(operator.index)
def _index(f, a, k):
    return int_of(a[0]) if type(a[0]) is SymInt else f(*a)


@handles(format)
def _format(f, a, k):
    return _format_value(a[0], a[1] if len(a) > 1 else '')


def fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            x, conv, spec = p
            if conv == 'r':
                x = _repr_always(repr, (x,), {})
            elif conv == 's':
                x = tostr(x)
            elif conv == 'a':
                x = ascii(conc_of(x))
            p = _format_value(x, conc_of(spec))
        out.extend(els_of(p))
    return mk(out, str)


def cmp_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return V.beq(a, b)
    if type(b) is SymBool and (a is True or a is False):
        return V.beq(a, b)
    return a is b
