"""N01: silencing."""

from httpolice import Exchange, Request, Response
from httpolice.cli import parse_args
from httpolice.exchange import check_exchange, complaint_box
from sx.ctx import Task

FUNCTIONS = ['httpolice.blackboard.Blackboard.silence',
             'httpolice.blackboard.Blackboard.complaints',
             'httpolice.exchange.Exchange.children',
             'httpolice.exchange.check_exchange',
             'httpolice.request.check_request',
             'httpolice.response.check_responses',
             'httpolice.syntax.internal', 'httpolice.header',
             'httpolice.parse.parse']
BOUNDS = {
    'quick': 'an exchange whose request, one or two responses and exchange '
             'object all have notices (15 in all); 1-2 silenced ids, all '
             'values 0-9999, given as list, tuple, set, dict keys or '
             'generator to the exchange, the request or a response, before '
             'or after checking; HTTPolice-Silence in the request, response '
             'or both, 1-2 elements of 1-5 digits each with or without "resp", '
             'in one or two fields',
    'thorough': 'one more silenced id',
}
OUTSIDE = 'more ids at once; other messages'
ASSUMPTIONS = []


def make(silence_req=(), silence_resp=(), two=False, lonely=False):
    req = None
    if not lonely:
        req = Request(
            u'http', u'POST', u'/', u'HTTP/1.1',
            [(u'Host', b'a'), (u'X-Foo', b'1'), (u'Allow', b',GET'),
             (u'Expect', b'100-continue'), (u'Upgrade', b'h2')] +
            [(u'HTTPolice-Silence', v) for v in silence_req], b'abc')
    resps = []
    if two:
        resps.append(Response(
            u'HTTP/1.1', 101, u'OK', [(u'Content-Length', b'0')] +
            [(u'HTTPolice-Silence', v) for v in silence_resp], b''))
    resps.append(Response(
        u'HTTP/1.1', 405, u'No', [
            (u'Content-Type', b'application/json'), (u'X-Bar', b'1'),
            (u'Allow', b',GET'), (u'Age', b'x')] +
        [(u'HTTPolice-Silence', v) for v in silence_resp], b'{'))
    return Exchange(req, resps)


def objects(exch):
    return [exch] + exch.children


def ids(obj):
    return [c.id for c in obj.notices]


def run(exch):
    check_exchange(exch)
    exch.complain(1010)
    exch.complain(1007, offset=1)
    return exch


_plain = {}


def plain(*args, **kwargs):
    """What is reported when nothing is silenced"""
    key = repr((args, kwargs))
    if key not in _plain:
        _plain[key] = [ids(o) for o in objects(run(make(*args, **kwargs)))]
    return _plain[key]


GIVEN = {
    'list': list,
    'tuple': tuple,
    'set': lambda xs: set(xs),
    'dict': lambda xs: {x: None for x in xs}.keys(),
    'generator': lambda xs: (x for x in xs),
}


def expect(ctx, baseline, exch, hidden, *detail):
    """hidden: for each object, the ids that it does not show"""
    for want, obj, hid in zip(baseline, objects(exch), hidden):
        visible = []
        for i in want:
            gone = False
            for h in hid:
                gone = gone | (h == i)
            if gone:
                ctx.cover('silenced')
            else:
                visible.append(i)
        ctx.check(ids(obj) == visible, 'exactly these', hid, ids(obj),
                  visible, *detail)


def h_api(ctx, n, where, two):
    baseline = plain(two=two)
    exch = make(two=two)
    objs = objects(exch)
    chosen = []
    for i in range(n):
        chosen.append(ctx.int('id%d' % i, 0, 9999) if i == 0 else
                      ctx.choice('id%d' % i, (1010, 1277, 1038, 1151, 0)))
    how = ctx.choice('how', sorted(GIVEN))
    late = ctx.choice('late', (False, True, 'twice')[:3 if n > 1 else 2])
    k = {'exch': 0, 'req': 1}.get(where, len(objs) - 1)
    target = objs[k]
    if late == 'twice':
        # in two calls, one before and one after
        target.silence(GIVEN[how](chosen[:1]))
        run(exch)
        target.silence(GIVEN[how](chosen[1:]))
    else:
        if not late:
            target.silence(GIVEN[how](chosen))
        run(exch)
        if late:
            target.silence(GIVEN[how](chosen))
    expect(ctx, baseline, exch,
           [chosen if k in (0, i) else [] for i in range(len(objs))],
           how, late)


def element(ctx, name, digits=(4,)):
    n = ctx.choice(name + 'n', digits)
    b = ctx.bytes(name, n, b'0123456789')
    v = 0
    for i in range(n):
        v = v * 10 + (b[i] - 48)
    resp = ctx.flag(name + 'resp')
    if resp:
        b = b + b' ' + ctx.choice(name + 'r', (b'resp', b'Resp'))
    return b, v, resp


def h_header(ctx, side, fixed):
    baseline = plain([b'0'], [b'0'], two=True)
    raw, v, resp = element(ctx, 'a', (4,) if fixed else (4, 5, 3))
    elems = [(v, resp)]
    values = [raw]
    if fixed:
        more = ctx.choice('more', ((b'1277', 1277, False),
                                   (b'01151 resp', 1151, True)))
        elems.append(more[1:])
        if ctx.flag('apart'):
            values.append(more[0])
        else:
            values = [raw + ctx.choice('sep', (b',', b' , ')) + more[0]]
    other = None if fixed else ctx.choice(
        'other', (None, (b'1038', 1038, False)))
    exch = make(values if side == 'request' else [other[0] if other else b'0'],
                values if side == 'response' else
                [other[0] if other else b'0'], two=True)
    run(exch)
    mine = dict(request=elems if side == 'request' else
                [other[1:]] if other else [],
                response=elems if side == 'response' else
                [other[1:]] if other else [])
    on_req = [i for i, r in mine['request'] if not r]
    on_resp = [i for i, r in mine['request'] if r] + \
        [i for i, _ in mine['response']]
    expect(ctx, baseline, exch, [[], on_req, on_resp, on_resp], values)


def h_malformed(ctx):
    """A malformed list silences nothing, and says so"""
    bad = ctx.choice('bad', (b'1277 resp resp', b'1277;', b'"1277"',
                             b'resp 1277', b'1277 1038', b'x1277', b'-1277'))
    good = ctx.flag('good')
    side = ctx.choice('side', ('request', 'response'))
    values = [bad] + [b'1277'] * good
    exch = run(make(values if side == 'request' else [b'0'],
                    values if side == 'response' else [b'0']))
    base = plain([b'0'], [b'0'])
    k = 1 if side == 'request' else 2
    for i, o in enumerate(objects(exch)):
        got = ids(o)
        want = base[i]
        if i == k:
            ctx.check(1000 in got, 'reported', bad, got)
            if good:
                # whatever the valid field silences is gone; nothing else
                want = [x for x in want if x != 1277]
                got = [x for x in got if x != 1277]
        got, want = [[x for x in xs if x != 1000] for xs in (got, want)]
        ctx.check(got == want, 'nothing else', bad, got, want)


def h_lonely(ctx):
    """Exchanges without a request, and complaint boxes"""
    id_ = ctx.int('id', 0, 9999)
    baseline = plain(lonely=True)
    exch = make(lonely=True)
    late = ctx.flag('late')
    if not late:
        exch.silence([id_])
    run(exch)
    if late:
        exch.silence([id_])
    expect(ctx, baseline, exch, [[id_], [id_]])
    box = complaint_box(1007, offset=1)
    box.silence([id_])
    ctx.check(ids(box) == ([] if id_ == 1007 else [1007]), 'box', id_)


def h_options(ctx):
    """-s on the command line"""
    n = ctx.choice('n', (0, 1, 2, 3))
    values = [ctx.choice('v%d' % i, (u'1000', u'01277', u'9999'))
              for i in range(n)]
    argv = ['httpolice', '-i', 'combined']
    for i, v in enumerate(values):
        argv += [ctx.choice('o%d' % i, ('-s', '--silence')), v]
    args = parse_args(argv + ['file'])
    ctx.check(list(args.silence or []) == [int(v) for v in values],
              'option values', argv, args.silence)


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for where in ('exch', 'req', 'resp'):
        for two in (False, True):
            for n in range(1, 3 + m):
                if n > 1 and two and where != 'exch' and not m:
                    continue
                out.append(Task('h_api', dict(n=n, where=where, two=two),
                                expect=('silenced',), max_paths=100000))
    for side in ('request', 'response'):
        for fixed in (False, True):
            out.append(Task('h_header', dict(side=side, fixed=fixed),
                            expect=('silenced',), max_paths=100000))
    out.append(Task('h_malformed'))
    out.append(Task('h_lonely', expect=('silenced',)))
    out.append(Task('h_options'))
    return out
