"""G02: the position, the found byte and the expectations of syntax errors."""

from httpolice import parse as P
from httpolice.structure import FieldName
from ref import cfg
from ref.grammars import GRAMMAR, GRAMMAR_ORIGINAL, GRAMMAR_SPACED
from sx.ctx import Task

from checks import G01, grammar_common as _c
from checks.header_samples import SAMPLES

FUNCTIONS = [
    'httpolice.parse.parse', 'httpolice.parse._inner_parse',
    'httpolice.parse._build_parse_error', 'httpolice.parse._find_pivots',
    'httpolice.parse.ParseError', 'httpolice.parse.Terminal.chars',
    'httpolice.util.text.format_chars', 'httpolice.util.text._char_ranges',
    'httpolice.header.HeaderView._pre_parse', 'httpolice.syntax']
BOUNDS = {
    'quick': 'every parsed header: all values of 0..2 bytes, and every sample '
             'shape with any byte replaced, or an arbitrary byte inserted, or '
             'cut short at any point; 1008 enumerated grammars and the larger '
             'ones of G01 with all byte strings of up to 2 and 4 bytes',
    'thorough': 'the same with 0..4 bytes, two bytes inserted or replaced; '
                'byte strings of up to 3 and 6 bytes',
}
OUTSIDE = 'values that are longer and not near a sample shape'
ASSUMPTIONS = _c.ASSUMPTIONS + [
    'a string of an excluding rule can always be extended',
    'a closed table translates the words of the report back to characters']

WORDS = {'tab': 9, 'LF': 10, 'CR': 13, 'space': 32, 'double quote (")': 34,
         "single quote (')": 39, 'comma (,)': 44, 'period (.)': 46,
         'colon (:)': 58, 'semicolon (;)': 59, 'dash (-)': 45}


def chars_of(description):
    """The set of bytes that a description of the report names."""
    m = 0
    for piece in description.split(' or '):
        if piece in WORDS:
            m |= 1 << WORDS[piece]
            continue
        ends = piece.split('\u2013')
        if len(ends) == 2 and ends[0] != '' and ends[1] != '':
            lo, hi = [int(x, 16) if x.startswith('0x') else ord(x)
                      for x in ends]
            m |= (1 << (hi + 1)) - (1 << lo)
        elif piece.startswith('0x') and len(piece) == 4:
            m |= 1 << int(piece, 16)
        else:
            for c in piece:
                m |= 1 << ord(c)
    return m


def explained(ctx, grammars, rule, data, error):
    pos = error.position
    n = len(data)
    ctx.check(0 <= pos <= n, 'the position is within the data', pos)
    ctx.check(error.found == data[pos:pos + 1], 'found is what is there')
    union = 0
    end = False
    for description, _ in error.expected:
        if description == 'end of data':
            end = True
        else:
            union |= chars_of(description)
    prefix = data[:pos]
    ok = False
    for g in grammars:
        pend = g.continuations(rule, prefix)
        good = g.accepts(rule, prefix) == end
        left = union
        for m, c in pend.items():
            if m & ~union:
                good = good & (c == False)              # noqa: E712
        # every expected byte is expected for a reason
        for part in parts(union, [m for m in pend if not m & ~union]):
            some = False
            for m, c in pend.items():
                if m & part == part:
                    some = some | c
            good = good & some
            left &= ~part
        ok = ok | (good if not left else False)
    ctx.check(ok, 'the expectations are what may follow', data, pos,
              [d for d, _ in error.expected])
    if pos < n:
        ctx.check(TABLE(union)[data[pos]] == 0,
                  'what was found was not expected')
    else:
        ctx.check(not end, 'the end was not expected')


_tables = {}


def TABLE(mask):
    t = _tables.get(mask)
    if t is None:
        t = _tables[mask] = tuple(mask >> i & 1 for i in range(256))
    return t


def parts(union, masks):
    """The coarsest partition of the union that the masks agree with."""
    out = [union] if union else []
    for m in masks:
        out = [q for x in out for q in (x & m, x & ~m) if q]
    return out


def header(ctx, name, value):
    _c.not_padded(ctx, value)
    msg = _c.message(name, value)
    msg.headers[FieldName(name)].value      # pylint: disable=W0106
    errors = [c.context['error'] for c in msg.notices if c.id == 1000]
    ctx.cover('rejected' if errors else 'accepted')
    # (the list rule in its variants)
    grammars = [GRAMMAR, GRAMMAR_ORIGINAL, GRAMMAR_SPACED]
    ctx.check(len(errors) <= 1, 'one error per value')
    for e in errors:
        explained(ctx, grammars, name, value, e)
    ctx.observe(len(errors), [e.position for e in errors])


def h_free(ctx, name, n):
    header(ctx, name, ctx.bytes('v', n))


def h_near(ctx, name, sample, inserted, removed):
    header(ctx, name, _c.near(ctx, SAMPLES[name][sample], inserted, removed))


def h_cut(ctx, name, sample):
    b = SAMPLES[name][sample].encode('ascii')
    header(ctx, name, b[:ctx.choice('cut', range(0, len(b)))])


def grammar(ctx, rules, equivalent, mode, n):
    data = ctx.bytes('d', n)
    error = None
    try:
        P.parse(data, G01.Builder(rules, mode).rules['x'])
    except P.ParseError as e:
        error = e
    ctx.cover('accepted' if error is None else 'rejected')
    if error is not None:
        explained(ctx, [cfg.grammar(equivalent or rules)], 'x', data, error)
    ctx.observe(error is None)


def h_enumerated(ctx, first, count, n):
    i = ctx.choice('g', range(count))
    grammar(ctx, {'x': G01.ENUMERATED[first + i]}, None,
            G01.MODES[(first + i) % 4], n)


def h_larger(ctx, i, mode, n):
    rules, equivalent = G01.LARGER[i]
    grammar(ctx, rules, equivalent, mode, n)


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for name in SAMPLES:
        for n in range((2, 4)[t] + 1):
            out.append(Task('h_free', dict(name=name, n=n)))
        for i, s in enumerate(SAMPLES[name]):
            out.append(Task('h_cut', dict(name=name, sample=i)))
            for ins, rem in ((1, 0), (1, 1)) + (
                    ((2, 0), (0, 1), (2, 2)) if t else ()):
                if rem <= len(s):
                    out.append(Task('h_near', dict(
                        name=name, sample=i, inserted=ins, removed=rem)))
    size = 20
    for first in range(0, len(G01.ENUMERATED), size):
        for n in range((2, 3)[t] + 1):
            out.append(Task('h_enumerated', dict(
                first=first, n=n,
                count=min(size, len(G01.ENUMERATED) - first))))
    for i in range(len(G01.LARGER)):
        for n in range((4, 6)[t] + 1):
            for m in ('inlined', 'named') if n < 4 else ('inlined',):
                if i in G01.RIGHT and n > 2:
                    continue
                out.append(Task('h_larger', dict(i=i, mode=m, n=n)))
    return out
