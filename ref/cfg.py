"""Grammars as plain data, for the checks of the parser itself.

A specification is a tuple:
  ('l', word) ('L', word)     literal, case-insensitive or -sensitive
  ('r', lo, hi)               octet range
  ('-', spec, spec)           terminal difference
  ('|!', spec, spec)          terminal union
  ('.', spec...)              sequence
  ('|', spec...)              alternation
  ('*', lo, hi, spec)         repetition (hi None: unbounded)
  ('?', spec)                 optional
  ('x', spec, words)          string over a terminal, except the words
  ('s', lo, spec)             string of a terminal
  ('%', spec, spec)           an element and a list of more
  ('skip', spec)              contributes no value
  ('e',)                      nothing
  ('@', name)                 another rule
"""

from ref.abnf import Grammar


def lit(word, sensitive):
    out = []
    for c in word:
        m = 1 << ord(c)
        if not sensitive:
            m |= 1 << ord(c.lower()) | 1 << ord(c.upper())
        out.append(('cs', m))
    return out[0] if len(out) == 1 else ('seq', tuple(out))


def mask(s):
    if s[0] in 'lL':
        return lit(s[1], s[0] == 'L')[1]
    if s[0] == 'r':
        return (1 << (s[2] + 1)) - (1 << s[1])
    if s[0] == '-':
        return mask(s[1]) & ~mask(s[2])
    assert s[0] == '|!'
    return mask(s[1]) | mask(s[2])


def node(s):
    """As an expression of ref.abnf"""
    k = s[0]
    if k in 'lL' and len(k) == 1:
        return lit(s[1], k == 'L')
    if k in ('r', '-', '|!'):
        return ('cs', mask(s))
    if k == '.':
        return ('seq', tuple(node(x) for x in s[1:]))
    if k == '|':
        return ('alt', tuple(node(x) for x in s[1:]))
    if k == '*':
        return ('rep', s[1], s[2], node(s[3]))
    if k == '?':
        return ('rep', 0, 1, node(s[1]))
    if k == 's':
        return ('rep', s[1], None, node(s[2]))
    if k == 'x':
        return ('minus', ('rep', 0, None, node(s[1])),
                ('alt', tuple(('seq', ()) if not w else lit(w, False)
                              for w in s[2])))
    if k == '%':
        return ('seq', (node(s[1]), ('rep', 0, None, node(s[2]))))
    if k == 'skip':
        return node(s[1])
    if k == 'e':
        return ('seq', ())
    assert k == '@'
    return ('ref', s[1])


def grammar(rules):
    g = Grammar()
    for name, s in rules.items():
        g.compiled[name] = node(s)
    return g


class Tree:
    """What the semantic actions build: one per composite part."""

    def __init__(self, spec, parts):
        self.spec = spec
        self.parts = parts


class Wrong(Exception):
    pass


def end(s, v, data, i, rules):
    """The value v stands for data[i:j] as derived from s: returns j.
    Raises Wrong if it does not."""
    k = s[0]
    if k == '@':
        if not isinstance(v, Tree) or v.spec != s:
            raise Wrong(s, v)
        (inner,) = v.parts
        return end(rules[s[1]], inner, data, i, rules)
    if k in ('l', 'L', 'r', '-', '|!', 's', 'x'):
        if not hasattr(v, '__len__') or isinstance(v, (list, tuple, bytes)):
            raise Wrong(s, v)
        j = i + len(v)
        if not v == data[i:j]:
            raise Wrong(s, v)
        if k in ('l', 'L'):
            if len(v) != len(s[1]):
                raise Wrong(s, v)
        elif k in ('r', '-', '|!'):
            if len(v) != 1:
                raise Wrong(s, v)
        elif k == 's' and len(v) < s[1]:
            raise Wrong(s, v)
        g = grammar({'x': s})
        if not g.accepts('x', data[i:j].encode('iso-8859-1')):
            raise Wrong(s, v)
        return j
    if k == '?':
        if v is None:
            return i
        return end(s[1], v, data, i, rules)
    if k == '*':
        if not isinstance(v, list) or len(v) < s[1] or \
                (s[2] is not None and len(v) > s[2]):
            raise Wrong(s, v)
        for x in v:
            i = end(s[3], x, data, i, rules)
        return i
    if k == '%':
        if not isinstance(v, list) or not v:
            raise Wrong(s, v)
        i = end(s[1], v[0], data, i, rules)
        for x in v[1:]:
            i = end(s[2], x, data, i, rules)
        return i
    # composite
    if not isinstance(v, Tree) or v.spec != s:
        raise Wrong(s, v)
    if k == '.':
        vs = list(v.parts)
        for x in s[1:]:
            if x[0] == 'skip':
                i = skipped(x[1], data, i)
            else:
                i = end(x, vs.pop(0), data, i, rules)
        if vs:
            raise Wrong(s, v)
        return i
    assert k == '|'
    for x in s[1:]:
        try:
            if x == ('e',):
                if v.parts == ():
                    return i
            elif x[0] == 'skip':
                if v.parts == ():
                    return skipped(x[1], data, i)
            elif len(v.parts) == 1:
                return end(x, v.parts[0], data, i, rules)
        except Wrong:
            pass
    raise Wrong(s, v)


def skipped(s, data, i):
    """Only fixed-length terminals are skipped in the specifications."""
    n = len(s[1]) if s[0] in ('l', 'L') else 1
    if not grammar({'x': s}).accepts('x', data[i:i + n].encode('iso-8859-1')):
        raise Wrong(s)
    return i + n
