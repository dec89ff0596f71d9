"""An ABNF recognizer, independent of HTTPolice's parser.

Grammar text is RFC 5234 ABNF, plus

    %s"lit"      case-sensitive string (RFC 7405)
    #elem 1#elem the recipient list grammar of RFC 7230 section 7, as in erratum
                 5257 or (original_lists=True) as in the original text, which
                 does not allow OWS before a comma that has nothing before it
    a ! b        strings matched by a but not by b
    ~rule        (in rule names nothing special)

`Grammar.accepts(rule, data)` decides membership by computing, for every
sub-expression and start position, the set of end positions.  No control flow
depends on the bytes themselves: byte tests are combined with `&` and `|`, so
that under symbolic execution the result is one formula over the whole input.
"""

import re

_TOKEN = re.compile(r'''
    \s+ | ;[^\n]* |
    (?P<cs>%s"[^"]*") | (?P<lit>"[^"]*") |
    (?P<num>%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+|(?:\.[0-9A-Fa-f]+)*)) |
    (?P<list>1?\#) |
    (?P<rep>\d*\*\d*) |
    (?P<count>\d+(?=[\s("%A-Za-z])) |
    (?P<name>[A-Za-z][A-Za-z0-9-]*) |
    (?P<op>[()\[\]/!=])
''', re.X)


class Grammar:

    def __init__(self, *texts, original_lists=False):
        self.original_lists = original_lists
        self.rules = {}
        self.compiled = {}
        self.tables = {}
        for text in texts:
            self._load(text)

    def extended(self, *texts):
        g = Grammar(original_lists=self.original_lists)
        g.rules = dict(self.rules)
        for text in texts:
            g._load(text)
        return g

    # -- loading -------------------------------------------------------------

    def _load(self, text):
        # a rule starts at the beginning of a line; continuation is indented
        chunks = []
        for line in text.split('\n'):
            if not line.strip() or line.lstrip().startswith(';'):
                continue
            if line[0] not in ' \t':
                chunks.append(line)
            else:
                chunks[-1] += '\n' + line
        for c in chunks:
            name, body = c.split('=', 1)
            self.rules[name.strip()] = body

    def node(self, name):
        n = self.compiled.get(name)
        if n is None:
            toks = self._tokens(self.rules[name])
            n, rest = self._alt(toks, 0)
            assert rest == len(toks), (name, toks[rest:])
            self.compiled[name] = n
        return n

    def _tokens(self, text):
        r = []
        i = 0
        while i < len(text):
            m = _TOKEN.match(text, i)
            assert m and m.end() > i, (text, i, text[i:])
            i = m.end()
            if m.lastgroup:
                r.append((m.lastgroup, m.group(m.lastgroup)))
        return r

    def _alt(self, t, i):
        items = []
        n, i = self._seq(t, i)
        items.append(n)
        while i < len(t) and t[i] == ('op', '/'):
            n, i = self._seq(t, i + 1)
            items.append(n)
        if all(x[0] == 'cs' for x in items):
            m = 0
            for x in items:
                m |= x[1]
            return ('cs', m), i
        return (items[0] if len(items) == 1 else ('alt', tuple(items))), i

    def _seq(self, t, i):
        items = []
        while i < len(t) and t[i] not in (('op', '/'), ('op', ')'),
                                          ('op', ']')):
            n, i = self._rep(t, i)
            if i < len(t) and t[i] == ('op', '!'):
                x, i = self._rep(t, i + 1)
                n = ('minus', n, x)
            items.append(n)
        return (items[0] if len(items) == 1 else ('seq', tuple(items))), i

    def _rep(self, t, i):
        k, v = t[i]
        if k == 'rep':
            lo, hi = v.split('*')
            n, i = self._rep(t, i + 1)
            return ('rep', int(lo or 0), int(hi) if hi else None, n), i
        if k == 'count':
            n, i = self._rep(t, i + 1)
            return ('rep', int(v), int(v), n), i
        if k == 'list':
            n, i = self._rep(t, i + 1)
            ows = ('rep', 0, None, ('cs', (1 << 32) | (1 << 9)))
            comma = ('cs', 1 << 44)
            tail = ('rep', 0, None,
                    ('seq', (ows, comma,
                             ('rep', 0, 1, ('seq', (ows, n))))))
            if v == '#' and self.original_lists == 'spaced':
                # [ element OWS ] *( "," OWS [ element OWS ] ): the same
                # language but for whitespace at the end
                n = ('rep', 0, 1, ('seq', (n, ows)))
                return ('seq', (n, ('rep', 0, None,
                                    ('seq', (comma, ows, n))))), i
            if v == '#' and self.original_lists:
                # [ ( "," / element ) *( OWS "," [ OWS element ] ) ]
                return ('rep', 0, 1,
                        ('seq', (('alt', (comma, n)), tail))), i
            if v == '#':
                # #element => [ element ] *( OWS "," [ OWS element ] )
                return ('seq', (('rep', 0, 1, n), tail)), i
            # 1#element => *( "," OWS ) element *( OWS "," [ OWS element ] )
            return ('seq', (('rep', 0, None, ('seq', (comma, ows))),
                            n, tail)), i
        if k == 'op':
            n, i = self._alt(t, i + 1)
            if v == '(':
                assert t[i] == ('op', ')')
                return n, i + 1
            assert v == '[' and t[i] == ('op', ']')
            return ('rep', 0, 1, n), i + 1
        if k == 'lit' or k == 'cs':
            s = v[1:-1] if k == 'lit' else v[3:-1]
            out = []
            for c in s:
                m = 1 << ord(c)
                if k == 'lit':
                    m |= 1 << ord(c.lower()) | 1 << ord(c.upper())
                out.append(('cs', m))
            if len(out) == 1:
                return out[0], i + 1
            return ('seq', tuple(out)), i + 1
        if k == 'num':
            v = v[2:]
            if '-' in v:
                a, b = v.split('-')
                return ('cs', (1 << (int(b, 16) + 1)) - (1 << int(a, 16))), \
                    i + 1
            out = tuple(('cs', 1 << int(x, 16)) for x in v.split('.'))
            return (out[0] if len(out) == 1 else ('seq', out)), i + 1
        assert k == 'name', t[i:]
        body = self.rules.get(v)
        assert body is not None, 'undefined ' + v
        # inline plain character sets
        return ('ref', v), i + 1

    # -- matching ------------------------------------------------------------

    def table(self, mask):
        t = self.tables.get(mask)
        if t is None:
            t = self.tables[mask] = tuple(mask >> i & 1 for i in range(256))
        return t

    def accepts(self, rule, data):
        memo = {}
        r = self._ends(('ref', rule), 0, data, len(data), memo)
        return r.get(len(data), False)

    def _ends(self, n, i, data, length, memo):
        while n[0] == 'ref':
            n = self.node(n[1])
        key = (id(n), i)
        r = memo.get(key)
        if r is not None:
            return r
        k = n[0]
        if k == 'cs':
            r = {}
            if i < length:
                c = self.table(n[1])[data[i]] == 1
                if c is not False:
                    r[i + 1] = c
        elif k == 'seq':
            cur = {i: True}
            for x in n[1]:
                nxt = {}
                for p, cond in cur.items():
                    for q, c in self._ends(x, p, data, length, memo).items():
                        nxt[q] = nxt.get(q, False) | (cond & c)
                cur = nxt
                if not cur:
                    break
            r = cur
        elif k == 'alt':
            r = {}
            for x in n[1]:
                for q, c in self._ends(x, i, data, length, memo).items():
                    r[q] = r.get(q, False) | c
        elif k == 'minus':
            r = {}
            no = self._ends(n[2], i, data, length, memo)
            for q, c in self._ends(n[1], i, data, length, memo).items():
                r[q] = c & (no.get(q, False) == False)      # noqa: E712
        else:
            _, lo, hi, x = n
            cur = {i: True}
            r = {i: True} if lo == 0 else {}
            count = 0
            while cur and (hi is None or count < hi):
                nxt = {}
                for p, cond in cur.items():
                    for q, c in self._ends(x, p, data, length, memo).items():
                        if q > p or count < lo:
                            nxt[q] = nxt.get(q, False) | (cond & c)
                cur = nxt
                count += 1
                if count >= lo:
                    for q, c in cur.items():
                        r[q] = r.get(q, False) | c
        # drop impossible ends
        r = {q: c for q, c in r.items() if c is not False}
        memo[key] = r
        return r

    # -- continuation --------------------------------------------------------

    def continuations(self, rule, data):
        """{mask: condition}: a string of the language can continue data with
        a byte of the mask.  (Assumes that every rule can be completed, and
        that an exclusion never leaves a string without an extension.)"""
        memo = {}
        return self._pend(('ref', rule), 0, data, len(data), memo, {})

    def _pend(self, n, i, data, length, memo, pends):
        while n[0] == 'ref':
            n = self.node(n[1])
        key = (id(n), i)
        r = pends.get(key)
        if r is not None:
            return r
        r = pends[key] = {}
        k = n[0]

        def add(x, p, cond):
            got = self._pend(x, p, data, length, memo, pends)
            for m, c in list(got.items()):
                r[m] = r.get(m, False) | (cond & c)

        def step(x, cur, every):
            nxt = {}
            for p, cond in cur.items():
                for q, c in self._ends(x, p, data, length, memo).items():
                    if every or q > p:
                        nxt[q] = nxt.get(q, False) | (cond & c)
            return nxt

        if k == 'cs':
            if i == length and n[1]:
                r[n[1]] = True
        elif k == 'seq':
            cur = {i: True}
            for x in n[1]:
                for p, cond in cur.items():
                    add(x, p, cond)
                cur = step(x, cur, True)
        elif k == 'alt':
            for x in n[1]:
                add(x, i, True)
        elif k == 'minus':
            add(n[1], i, True)
        else:
            _, lo, hi, x = n
            cur = {i: True}
            count = 0
            while cur and (hi is None or count < hi):
                for p, cond in cur.items():
                    add(x, p, cond)
                cur = step(x, cur, count < lo)
                count += 1
        return r
