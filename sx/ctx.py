"""The harness-facing API, in its concrete (replay) form.

This module must not import z3: replays run under the repository's own
interpreter on uninstrumented code."""


class Violation(BaseException):
    pass


class Skip(BaseException):
    """An assumption does not hold for this input."""


def canon(x, depth=12):
    """A printable structural form, equal in symbolic and concrete mode."""
    t = type(x)
    tn = t.__name__
    if tn in ('SymSeq', 'SymInt', 'SymBool', 'SymFloat') and t.__module__.startswith('sx'):
        x = x.conc
        if tn == 'SymBool':
            return repr(bool(x))
    if x is None or isinstance(x, bool):
        return repr(x)
    if isinstance(x, int):
        try:
            return repr(int(x))
        except ValueError:
            return '<%d-bit int>' % x.bit_length()
    if isinstance(x, str):
        return repr(str.__str__(x))
    if isinstance(x, bytes):
        return repr(bytes(x))
    if isinstance(x, float):
        return repr(x)
    if depth <= 0:
        return '...'
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (canon(k, depth - 1),
                                              canon(v, depth - 1))
                                  for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return 'set(%s)' % ', '.join(sorted(canon(k, depth - 1) for k in x))
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return '%s(%s)' % (type(x).__name__,
                           ', '.join(canon(k, depth - 1) for k in x))
    if isinstance(x, (list, tuple)):
        return '%s%s%s' % ('[' if isinstance(x, list) else '(',
                           ', '.join(canon(k, depth - 1) for k in x),
                           ']' if isinstance(x, list) else ')')
    if isinstance(x, BaseException):
        return '%s(%s)' % (type(x).__name__, ', '.join(
            canon(a, depth - 1) for a in x.args))
    attrs = []
    for c in type(x).__mro__:
        s = c.__dict__.get('__slots__', ())
        attrs += [s] if isinstance(s, str) else list(s)
    if attrs and not hasattr(x, '__dict__'):
        return '%s(%s)' % (type(x).__name__, ', '.join(
            canon(getattr(x, a, None), depth - 1) for a in attrs))
    name = getattr(x, 'name', None)
    if isinstance(name, str):
        return '<%s %s>' % (type(x).__name__, name)
    return '<%s>' % type(x).__name__


def mask_of(alphabet):
    """alphabet: None | str/bytes | iterable of ints | int mask"""
    if alphabet is None:
        return (1 << 256) - 1
    if isinstance(alphabet, int):
        return alphabet
    m = 0
    for c in alphabet:
        m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m


class BaseCtx:

    symbolic = False

    def is_symbolic(self, x):
        return False

    def bytes(self, name, n, alphabet=None):
        """n symbolic bytes"""
        raise NotImplementedError

    def text(self, name, n, alphabet=None):
        """n symbolic characters, U+0000..U+00FF"""
        return self.bytes(name, n, alphabet).decode('iso-8859-1')

    def fill(self, name, template, alphabet=None, hole=b'?'):
        """Replace each hole byte of the template with a symbolic byte.
        `hole` is a byte that stands for a symbolic byte."""
        out = b''
        n = 0
        for i in range(len(template)):
            c = template[i:i + 1]
            if c == hole:
                out = out + self.bytes('%s%d' % (name, n), 1, alphabet)
                n += 1
            else:
                out = out + c
        return out

    def flag(self, name):
        return self.choice(name, (False, True))

    def maybe(self, name, value, default=None):
        return value if self.flag(name) else default


class ConcreteCtx(BaseCtx):

    def __init__(self, inputs, params):
        self.inputs = dict(inputs)
        self.params = params
        self.violations = []
        self.observations = []
        self.covers = set()
        self.scratch = {}

    def _byte(self, name, mask):
        v = self.inputs.get(name)
        if v is None:
            v = (mask & -mask).bit_length() - 1
        if not mask >> v & 1:
            raise Skip(name)
        return v

    def bytes(self, name, n, alphabet=None):
        m = mask_of(alphabet)
        return bytes([self._byte('%s.%d' % (name, i), m) for i in range(n)])

    def int(self, name, lo, hi):
        v = self.inputs.get(name, lo)
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._byte(name, (1 << len(options)) - 1)]

    def assume(self, cond):
        if not cond:
            raise Skip('assume')

    def check(self, cond, label, *detail):
        if not cond:
            self.violations.append((label, [canon(d) for d in detail]))
            raise Violation(label)

    def observe(self, *xs):
        self.observations.append([canon(x) for x in xs])

    def cover(self, label):
        self.covers.add(label)

    def branch(self, cond):
        return bool(cond)


class Task:
    """One harness with one parameter set."""

    def __init__(self, harness, params=None, name=None, max_paths=None,
                 expect=()):
        self.harness = harness          # function name in the check module
        self.params = dict(params or {})
        self.name = name or harness + (
            '(%s)' % ', '.join('%s=%r' % kv for kv in self.params.items())
            if self.params else '')
        self.max_paths = max_paths
        self.expect = tuple(expect)
