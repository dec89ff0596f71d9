"""G01: the Earley parser against a set-based recognizer of the same grammar,
and every result against the derivation it claims."""

import functools
import operator

from httpolice import parse as P
from httpolice.structure import Unavailable
from ref import cfg
from sx.ctx import Task

FUNCTIONS = [
    'httpolice.parse.parse', 'httpolice.parse._inner_parse',
    'httpolice.parse._add_item', 'httpolice.parse._find_results',
    'httpolice.parse.Symbol', 'httpolice.parse.Terminal',
    'httpolice.parse.Nonterminal', 'httpolice.parse.RepeatedNonterminal',
    'httpolice.parse.Rule.concat', 'httpolice.parse.Rule.wrap',
    'httpolice.parse.times', 'httpolice.parse.maybe',
    'httpolice.parse.string_excluding', 'httpolice.parse.literal']
BOUNDS = {
    'quick': '1008 enumerated grammars (all combinators nested up to '
             'two deep over four leaves) and 40 larger ones (recursion of '
             'every kind, ambiguity, cycles, nullable parts, exclusions), '
             'each built in four ways (inlined, named, grouped, with class '
             'actions); all byte strings of 0 to 3 bytes for the former and 0 '
             'to 5 for the latter',
    'thorough': 'the same grammars; strings of up to 4 and 7 bytes',
}
OUTSIDE = ('longer strings; deeper nesting of combinators; right recursion '
           'by way of other named symbols, and infinite ambiguity, beyond 3 bytes, where the parser '
           'needs exponential time (the tree has no such grammar)')
ASSUMPTIONS = ['ref/cfg.py gives the combinators their documented meaning; '
               'left-recursive grammars are compared with an equivalent '
               'grammar without left recursion',
               'string_excluding is used as in the tree: its terminal has '
               'both cases of the excluded letters']

A, B, C = ('l', 'a'), ('L', 'b'), ('r', 97, 99)
AB = ('l', 'ab')
ABC = ('|!', C, ('r', 65, 67))
LEAVES = [A, B, C, AB]


def depth1():
    out = []
    for x in LEAVES:
        for y in LEAVES:
            out.append(('.', x, y))
            if x != y:
                out.append(('|', x, y))
        for lo, hi in ((0, None), (1, None), (2, None), (0, 1), (0, 2),
                       (1, 2), (2, 2), (2, 3)):
            out.append(('*', lo, hi, x))
        out.append(('?', x))
        out.append(('|', x, ('e',)))
        out.append(('|', ('e',), x))
    return out


def depth2():
    d1 = depth1()
    out = []
    for i, x in enumerate(d1):
        for lo, hi in ((0, None), (1, None), (0, 2), (2, 3)):
            out.append(('*', lo, hi, x))
        out.append(('?', x))
        y = d1[(i * 7 + 3) % len(d1)]
        z = LEAVES[i % 4]
        out += [('.', x, y), ('.', z, x), ('.', x, z), ('|', x, y),
                ('.', ('?', x), y), ('.', x, ('*', 0, None, y)),
                ('%', x, ('.', ('skip', ('L', ',')), y)),
                ('.', ('skip', z), x, ('skip', z))]
    return d1 + out


ENUMERATED = depth2()


def R(name):
    return ('@', name)


E = ('e',)
COMMA = ('skip', ('L', ','))

# (rules, equivalent rules for the reference or None)
LARGER = [
    # recursion in the middle, at the right
    ({'x': ('|', ('.', A, R('x'), B), E)}, None),
    ({'x': ('|', ('.', A, R('x')), B)}, None),
    ({'x': ('.', ('skip', ('L', '(')), ('*', 0, None, ('|', C, R('x'))),
            ('skip', ('L', ')')))}, None),
    ({'x': ('|', ('.', A, R('x'), A), ('.', B, R('x'), B), A, B, E)}, None),
    ({'x': ('|', ('.', A, R('y')), B), 'y': ('|', ('.', B, R('x')), A)}, None),
    ({'x': ('|', ('.', R('y'), A), E), 'y': ('|', B, ('.', C, R('x')))},
     None),
    # ambiguity
    ({'x': ('|', ('.', ('*', 0, None, A), ('*', 0, None, A)), B)}, None),
    ({'x': ('.', ('*', 0, None, C), ('*', 0, None, A), ('?', B))}, None),
    ({'x': ('|', ('.', A, B), AB, ('*', 1, 2, C))}, None),
    ({'x': ('.', ('?', A), ('?', A), ('?', ('l', 'aa')))}, None),
    ({'x': ('|', ('.', A, R('x'), R('x')), A)}, None),
    ({'x': ('.', ('*', 0, 2, A), ('*', 1, 3, ('|', A, B)), ('?', C))}, None),
    # repetition of nullable parts
    ({'x': ('*', 0, None, ('*', 0, None, A))}, None),
    ({'x': ('*', 0, None, ('?', A))}, None),
    ({'x': ('*', 1, None, ('.', ('?', A), ('?', B)))}, None),
    ({'x': ('*', 2, 3, ('|', E, A))}, None),
    ({'x': ('.', ('*', 0, None, ('|', A, E)), ('*', 0, None, ('?', B)), C)},
     None),
    ({'x': ('?', ('?', ('.', ('?', A), ('?', B))))}, None),
    ({'x': ('.', ('?', A), ('.', ('?', B), ('.', ('?', A), ('?', B))))}, None),
    ({'x': ('|', R('y'), A), 'y': ('|', E, ('.', B, R('y')))}, None),
    # left recursion, with an equivalent
    ({'x': ('|', ('.', R('x'), A), B)},
     {'x': ('.', B, ('*', 0, None, A))}),
    ({'x': ('|', ('.', R('x'), R('x')), A, E)},
     {'x': ('*', 0, None, A)}),
    ({'x': ('|', ('.', R('x'), ('L', '+'), R('x')), C)},
     {'x': ('.', C, ('*', 0, None, ('.', ('L', '+'), C)))}),
    ({'x': ('|', ('.', ('?', B), R('x'), A), C)},
     {'x': ('|', C, ('.', R('y'), A)),       # b? x a
      'y': ('|', R('x'), ('.', B, R('x')))} and
     {'x': ('|', ('.', B, R('x'), A), ('.', C, ('*', 0, None, A)),
            ('.', R('z'), ('*', 0, None, A))),
      'z': ('.', B, R('x'), A)}),
    ({'x': ('|', R('x'), A)}, {'x': A}),
    ({'x': ('|', R('y'), A), 'y': ('|', R('x'), B)}, {'x': ('|', A, B)}),
    ({'x': ('|', ('.', R('y'), A), E), 'y': ('|', R('x'), B)},
     {'x': ('|', E, ('.', ('?', B), A, ('*', 0, None, A)))}),
    # hidden left recursion through nullable parts
    ({'x': ('|', ('.', ('?', A), R('x')), B)},
     {'x': ('.', ('*', 0, None, A), B)}),
    # lists, exclusions, character sets
    ({'x': ('%', C, ('.', COMMA, ('?', C)))}, None),
    ({'x': ('.', ('*', 0, None, ('|', ('L', ','), ('L', ' '))), C,
            ('*', 0, None, ('.', ('*', 0, None, ('L', ' ')), ('L', ','),
                            ('?', ('.', ('*', 0, None, ('L', ' ')), C)))))},
     None),
    ({'x': ('x', ABC, ('ab', 'a'))}, None),
    ({'x': ('x', ABC, ('', 'bc', 'b'))}, None),
    ({'x': ('x', ('r', 65, 122), ('aB', 'abc', 'Cd'))}, None),
    ({'x': ('|', ('.', ('x', ABC, ('a', '')), ('L', '=')),
            ('.', A, ('L', ':')))}, None),
    ({'x': ('s', 0, ('-', C, A))}, None),
    ({'x': ('.', ('s', 1, ('|!', A, ('r', 120, 122))), ('s', 0, C))}, None),
    ({'x': ('.', ('-', ('r', 0, 255), ('|!', A, ('r', 0, 31))),
            ('r', 128, 255))}, None),
    ({'x': ('.', ('l', 'Ab1'), ('L', 'cD'))}, None),
    ({'x': ('*', 3, 5, C)}, None),
    ({'x': ('*', 1, 4, ('.', A, ('?', B)))}, None),
    ({'x': ('.', ('*', 1, 2, R('y')), ('L', ':'), ('*', 0, 2, R('y'))),
      'y': ('.', ('*', 1, 2, C), ('L', '-'))}, None),
    ({'x': ('|', E, ('e',))}, {'x': E}),
]

# right-recursive, or cyclic and ambiguous: exponential time where the recursion goes by way of other
# symbols (no such rules in the tree)
RIGHT = (1, 3, 4, 5, 19, 21, 27)

MODES = ('inlined', 'named', 'grouped', 'class')


def act(spec, mode):
    if mode != 'class':
        def action(*parts):
            return cfg.Tree(spec, parts)
        return action

    class Action(cfg.Tree):
        def __init__(self, *parts):
            cfg.Tree.__init__(self, spec, parts)
    return Action


class Builder:

    def __init__(self, rules, mode):
        self.mode = mode
        self.count = 0
        self.rules = {n: (P.recursive() > P.named(n)) for n in rules}
        for n, s in rules.items():
            body = act(('@', n), mode) << self.sym(s)
            self.rules[n].rec = body

    def wrap(self, spec, sym):
        sym = act(spec, self.mode) << sym
        if self.mode == 'named':
            self.count += 1
            sym = sym > P.named('n%d' % self.count)
        elif self.mode == 'grouped':
            sym = P.group(sym)
        return sym

    def sym(self, s):
        k = s[0]
        if k == 'l':
            return P.literal(s[1])
        if k == 'L':
            return P.case_sens(s[1])
        if k == 'r':
            return P.octet_range(s[1], s[2])
        if k == '-':
            return self.sym(s[1]) - self.sym(s[2])
        if k == '|!':
            return self.sym(s[1]) | self.sym(s[2])
        if k == '?':
            return P.maybe(self.sym(s[1]))
        if k == '*':
            if s[1:3] == (0, None):
                return P.many(self.sym(s[3]))
            if s[1:3] == (1, None):
                return P.many1(self.sym(s[3]))
            return P.times(s[1], s[2], self.sym(s[3]))
        if k == 's':
            return (P.string, P.string1)[s[1]](self.sym(s[2]))
        if k == 'x':
            return P.string_excluding(self.sym(s[1]), list(s[2]))
        if k == '%':
            return self.sym(s[1]) % P.many(self.item(s[2]))
        if k == 'skip':
            return P.skip(self.sym(s[1]))
        if k == 'e':
            return P.empty
        if k == '@':
            return self.rules[s[1]]
        if k == '.':
            return self.wrap(s, functools.reduce(
                operator.mul, [self.sym(x) for x in s[1:]]))
        assert k == '|'
        return self.wrap(s, functools.reduce(
            operator.or_, [self.sym(x) for x in s[1:]]))

    def item(self, s):
        return self.sym(s)


def run(ctx, rules, equivalent, mode, n):
    data = ctx.bytes('d', n)
    try:
        v = P.parse(data, Builder(rules, mode).rules['x'])
        okay = True
    except P.ParseError:
        v = None
        okay = False
    ctx.check(not isinstance(v, Unavailable), 'the parser comes to a verdict')
    want = cfg.grammar(equivalent or rules).accepts('x', data)
    ctx.check(want == okay, 'accepts what the grammar derives', rules, okay)
    ctx.cover('accepted' if okay else 'rejected')
    if okay:
        try:
            j = cfg.end(('@', 'x'), v, data.decode('iso-8859-1'), 0, rules)
        except cfg.Wrong:
            j = None
        ctx.check(j == n, 'the value belongs to a derivation', rules)
    ctx.observe(okay)


def h_enumerated(ctx, first, step, count, n):
    i = ctx.choice('g', range(count))
    spec = ENUMERATED[first + i * step]
    mode = MODES[(first + i) % 4]
    run(ctx, {'x': spec}, None, mode, n)


def h_larger(ctx, i, mode, n):
    rules, equivalent = LARGER[i]
    run(ctx, rules, equivalent, mode, n)


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    total = len(ENUMERATED)
    step = 1
    size = 20
    for first in range(0, total, size * step):
        count = len(range(first, min(first + size * step, total), step))
        for n in range(0, 5 if deep else 4):
            out.append(Task('h_enumerated', dict(
                first=first, step=step, count=count, n=n)))
    for i in range(len(LARGER)):
        for m in MODES:
            for n in range(0, 8 if deep else 6):
                if n > (2 if i == 21 else 3 if m != 'inlined' else 5) and i in RIGHT:
                    continue
                if n == 5 and m not in ('inlined', 'named') and not deep:
                    continue
                out.append(Task('h_larger', dict(i=i, mode=m, n=n)))
    return out
