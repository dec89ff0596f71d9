"""Regular expressions over symbolic text: a backtracking matcher with
CPython's `re` semantics, driven by CPython's own parse of the pattern."""

import re
from re import _parser as sre_parse
from re import _constants as C

import sx.values
from sx import seq as S
from sx.core import EngineError
from sx.seq import mk, els_of, kind_of, el_in_set, el_eq
from sx.values import SymInt

_parsed = {}
_sets = {}


def parsed(pat):
    key = (pat.pattern, pat.flags)
    got = _parsed.get(key)
    if got is None:
        got = _parsed[key] = sre_parse.parse(pat.pattern,
                                             pat.flags & ~re.UNICODE
                                             if isinstance(pat.pattern, bytes)
                                             else pat.flags)
    return got


def _category(cat, v, ascii_only):
    c = chr(v)
    name = str(cat).rsplit('_', 1)[-1]
    neg = '_NOT_' in str(cat)
    if ascii_only and v > 127:
        r = False
    elif name == 'DIGIT':
        r = c.isdecimal()
    elif name == 'SPACE':
        r = c.isspace() and not (ascii_only and 0x1c <= v <= 0x1f)
    elif name == 'WORD':
        r = c.isalnum() or c == '_'
    else:
        raise EngineError('regex category %s' % cat)
    return r != neg


def _match1(op, av, v, flags, is_bytes):
    """Does the one-character node match code point v?"""
    ascii_only = is_bytes or bool(flags & re.ASCII)
    if op is C.ANY:
        return bool(flags & re.DOTALL) or v != 10
    if op is C.IN:
        neg = False
        r = False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif _match1(o, a, v, flags, is_bytes):
                r = True
        return r != neg
    if op is C.CATEGORY:
        return _category(av, v, ascii_only)
    vs = {v}
    if flags & re.IGNORECASE:
        c = chr(v)
        if not ascii_only or v < 128:
            for d in (c.lower(), c.upper()):
                if len(d) == 1 and (not ascii_only or ord(d) < 128):
                    vs.add(ord(d))
    if op is C.LITERAL:
        lit = {av}
        if flags & re.IGNORECASE and (not ascii_only or av < 128):
            lit |= {ord(d) for d in (chr(av).lower(), chr(av).upper())
                    if len(d) == 1}
        return bool(vs & lit)
    if op is C.NOT_LITERAL:
        return not _match1(C.LITERAL, av, v, flags, is_bytes)
    if op is C.RANGE:
        return any(av[0] <= x <= av[1] for x in vs)
    raise EngineError('regex op %s' % op)


TOP = 0x10ffff


def _complement(ivs):
    out = []
    at = 0
    for lo, hi in sorted(ivs):
        if lo > at:
            out.append((at, lo - 1))
        at = max(at, hi + 1)
    if at <= TOP:
        out.append((at, TOP))
    return out


def _intervals(op, av, flags):
    """The code points that the one-character node matches"""
    if op is C.ANY:
        return [(0, TOP)] if flags & re.DOTALL else _complement([(10, 10)])
    if op is C.LITERAL:
        return [(av, av)]
    if op is C.NOT_LITERAL:
        return _complement([(av, av)])
    if op is C.RANGE:
        return [av]
    if op is C.IN:
        ivs = []
        neg = False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            else:
                ivs.extend(_intervals(o, a, flags))
        return _complement(ivs) if neg else ivs
    raise EngineError('regex op %s' % op)


_ONE = (C.ANY, C.IN, C.CATEGORY, C.LITERAL, C.NOT_LITERAL, C.RANGE)


class M:

    def __init__(self, pat, els, kind):
        self.pat = pat
        self.els = els
        self.kind = kind
        self.tree = parsed(pat)
        self.flags = self.tree.state.flags
        self.is_bytes = kind is bytes

    def one(self, op, av, el):
        if type(el) is not SymInt:
            return _match1(op, av, el, self.flags, self.is_bytes)
        if el.hi > 255:
            return self.one_wide(op, av, el)
        key = (op, repr(av), self.flags, self.is_bytes)
        s = _sets.get(key)
        if s is None:
            s = _sets[key] = frozenset(
                v for v in range(256)
                if _match1(op, av, v, self.flags, self.is_bytes))
        return bool(el_in_set(el, s))

    def one_wide(self, op, av, el):
        """A character that is not limited to 8 bits"""
        try:
            if self.flags & re.IGNORECASE:
                raise EngineError
            ivs = _intervals(op, av, self.flags)
        except EngineError:
            return _match1(op, av, el.__index__(), self.flags, False)
        return bool(sx.values.bany(
            sx.values.band(sx.values.icmp('ge', el, lo),
                           sx.values.icmp('le', el, hi))
            for lo, hi in ivs if lo <= el.hi and hi >= el.lo))

    def seq(self, nodes, k, i, g):
        """Yield (position, groups) of every match of nodes[k:] at i, in
        preference order."""
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        els = self.els
        n = len(els)
        if op in _ONE:
            if i < n and self.one(op, av, els[i]):
                yield from self.seq(nodes, k + 1, i + 1, g)
            return
        if op is C.AT:
            if self.at(av, i):
                yield from self.seq(nodes, k + 1, i, g)
            return
        if op is C.SUBPATTERN:
            gid, add, sub, body = av
            saved = self.flags
            if add or sub:
                self.flags = (saved | add) & ~sub
            for j, g2 in self.seq(list(body), 0, i, g):
                self.flags = saved
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                yield from self.seq(nodes, k + 1, j, g2)
            self.flags = saved
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for j, g2 in self.seq(list(alt), 0, i, g):
                    yield from self.seq(nodes, k + 1, j, g2)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            body = list(body)
            for j, g2 in self.rep(body, lo, hi, op is C.MAX_REPEAT, i, g, 0):
                yield from self.seq(nodes, k + 1, j, g2)
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, body = av
            if direction < 0:
                w = body.getwidth()
                if w[0] != w[1]:
                    raise EngineError('regex lookbehind')
                start = i - w[0]
                hit = start >= 0 and next(
                    self.seq(list(body), 0, start, g), None)
            else:
                hit = next(self.seq(list(body), 0, i, g), None)
            if bool(hit) == (op is C.ASSERT):
                yield from self.seq(nodes, k + 1, i,
                                    hit[1] if hit and op is C.ASSERT else g)
            return
        if op is C.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            if i + b - a <= n and all(
                    bool(el_eq(els[a + x], els[i + x])) for x in range(b - a)):
                yield from self.seq(nodes, k + 1, i + b - a, g)
            return
        raise EngineError('regex op %s' % op)

    def rep(self, body, lo, hi, greedy, i, g, count):
        simple = len(body) == 1 and body[0][0] in _ONE
        if simple:
            op, av = body[0]
            n = len(self.els)
            j = i
            c = 0
            while c < lo:
                if j >= n or not self.one(op, av, self.els[j]):
                    return
                j += 1
                c += 1
            if greedy:
                while j < n and (hi is C.MAXREPEAT or c < hi) and \
                        self.one(op, av, self.els[j]):
                    j += 1
                    c += 1
                while c >= lo:
                    yield j, g
                    j -= 1
                    c -= 1
            else:
                while True:
                    yield j, g
                    if j >= n or not (hi is C.MAXREPEAT or c < hi) or \
                            not self.one(op, av, self.els[j]):
                        return
                    j += 1
                    c += 1
            return
        more = hi is C.MAXREPEAT or count < hi
        if count < lo:
            for j, g2 in self.seq(body, 0, i, g):
                yield from self.rep(body, lo, hi, greedy, j, g2, count + 1)
            return
        if not greedy:
            yield i, g
        if more:
            for j, g2 in self.seq(body, 0, i, g):
                if j == i:
                    continue
                yield from self.rep(body, lo, hi, greedy, j, g2, count + 1)
        if greedy:
            yield i, g

    def at(self, av, i):
        n = len(self.els)
        if av is C.AT_BEGINNING_STRING or (
                av is C.AT_BEGINNING and not self.flags & re.MULTILINE):
            return i == 0
        if av is C.AT_BEGINNING:
            return i == 0 or bool(el_eq(self.els[i - 1], 10))
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if self.flags & re.MULTILINE:
                return bool(el_eq(self.els[i], 10))
            return i == n - 1 and bool(el_eq(self.els[i], 10))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            def word(j):
                return 0 <= j < n and self.one(
                    C.CATEGORY, C.CATEGORY_WORD, self.els[j])
            return (word(i - 1) != word(i)) == (av is C.AT_BOUNDARY)
        raise EngineError('regex anchor %s' % av)

    def match_at(self, i, full=False, nonempty_from=None):
        for j, g in self.seq(list(self.tree), 0, i, {}):
            if full and j != len(self.els):
                continue
            if nonempty_from is not None and j == nonempty_from:
                continue
            return SymMatch(self, i, j, g)
        return None


class SymMatch:

    def __init__(self, m, i, j, g):
        self.m = m
        self.re = m.pat
        self.g = dict(g)
        self.g[0] = (i, j)
        self.string = mk(m.els, m.kind)
        self.pos = 0
        self.endpos = len(m.els)
        self.lastindex = max([k for k in g], default=None)

    def __bool__(self):
        return True

    def _idx(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError('no such group')
        return k

    def _get(self, k, default=None):
        s = self.g.get(self._idx(k))
        if s is None:
            return default
        return mk(self.m.els[s[0]:s[1]], self.m.kind)

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    def __getitem__(self, k):
        return self._get(k)

    def groups(self, default=None):
        return tuple(self._get(k, default)
                     for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(n, default) for n in self.re.groupindex}

    def span(self, k=0):
        return self.g.get(self._idx(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def expand(self, template):
        raise EngineError('match.expand')


def _mk(pat, s):
    if isinstance(pat.pattern, str) != (kind_of(s) is str):
        raise TypeError('cannot use a %s pattern on this object'
                        % type(pat.pattern).__name__)
    return M(pat, els_of(s), kind_of(s))


def match(pat, string, pos=0, endpos=None):
    m = _mk(pat, string if endpos is None else string[:endpos])
    return m.match_at(pos)


def fullmatch(pat, string, pos=0, endpos=None):
    m = _mk(pat, string if endpos is None else string[:endpos])
    return m.match_at(pos, full=True)


def search(pat, string, pos=0, endpos=None):
    m = _mk(pat, string if endpos is None else string[:endpos])
    for i in range(pos, len(m.els) + 1):
        r = m.match_at(i)
        if r is not None:
            return r
    return None


def finditer(pat, string, pos=0, endpos=None):
    m = _mk(pat, string if endpos is None else string[:endpos])
    n = len(m.els)
    i = pos
    must_advance = False
    while i <= n:
        r = None
        for p in range(i, n + 1):
            r = m.match_at(p, nonempty_from=i
                           if must_advance and p == i else None)
            if r is not None:
                break
        if r is None:
            return
        yield r
        must_advance = r.end() == r.start()
        i = r.end()


def findall(pat, string, pos=0, endpos=None):
    out = []
    for m in finditer(pat, string, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.groups(kind_of(string)())[0])
        else:
            out.append(m.groups(kind_of(string)()))
    return out


def subn(pat, repl, string, count=0):
    kind = kind_of(string)
    els = els_of(string)
    if isinstance(repl, (str, bytes)) and els_of('\\' if kind is str
                                                 else b'\\')[0] in [
            e for e in els_of(repl) if type(e) is not SymInt]:
        raise EngineError('regex replacement template')
    out = []
    pos = 0
    n = 0
    for m in finditer(pat, string):
        if count and n >= count:
            break
        out.extend(els[pos:m.start()])
        out.extend(els_of(repl(m) if not isinstance(repl, (str, bytes))
                          else repl))
        pos = m.end()
        n += 1
    out.extend(els[pos:])
    return mk(out, kind), n


def sub(pat, repl, string, count=0):
    return subn(pat, repl, string, count)[0]


def split(pat, string, maxsplit=0):
    kind = kind_of(string)
    els = els_of(string)
    out = []
    pos = 0
    for m in finditer(pat, string):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(mk(els[pos:m.start()], kind))
        out.extend(m.groups())
        pos = m.end()
    out.append(mk(els[pos:], kind))
    return out


METHODS = dict(match=match, fullmatch=fullmatch, search=search,
               finditer=finditer, findall=findall, sub=sub, subn=subn,
               split=split)
