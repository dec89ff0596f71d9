"""N02: which complaints become notices."""

from httpolice import Exchange, Request, Response, Severity
from httpolice.exchange import complaint_box
from httpolice.notice import all_notices
from checks.report_common import NOTICES
from sx.ctx import Task

FUNCTIONS = ['httpolice.blackboard.Blackboard.complain',
             'httpolice.blackboard.Blackboard.complaints',
             'httpolice.blackboard.Complaint',
             'httpolice.exchange.complaint_box', 'httpolice.notice']
BOUNDS = {
    'quick': 'sequences of up to 4 complaints on a request, response or '
             'exchange, among 2 notices and contexts with 0-2 keys holding '
             'symbolic text (1 character), numbers or structured values; '
             'every notice id 1000-1400 for what it carries',
    'thorough': 'up to 5 complaints',
}
OUTSIDE = 'longer sequences; other types of context values'
ASSUMPTIONS = ['notices.xml is read independently (xml.etree)']


def objects(ctx):
    req = Request(u'http', u'GET', u'/', u'HTTP/1.1', [], b'')
    resp = Response(u'HTTP/1.1', 200, u'OK', [], b'')
    exch = Exchange(req, [resp])
    k = ctx.choice('object', ('request', 'response', 'exchange'))
    return {'request': req, 'response': resp, 'exchange': exch}[k], \
        {'request': 'msg', 'response': 'msg', 'exchange': 'exch'}[k], exch


def same(a, b):
    (i, x), (j, y) = a, b
    if i != j or sorted(x) != sorted(y):
        return False
    r = True
    for k in x:
        r = r & (x[k] == y[k])
    return r


def h_sequence(ctx, n):
    obj, own, exch = objects(ctx)
    said = []
    want = []
    for i in range(n):
        id_ = ctx.choice('id%d' % i, (1010, 1030)[:2 if i < 2 else 1])
        keys = ctx.choice('keys%d' % i, ((), ('x',), ('y',), ('x', 'y'))
                          if i < 2 else ((), ('x',)))
        kw = {}
        for k in keys:
            kind = ctx.choice('kind%d%s' % (i, k), (
                'text', 'number', 'pair') if i < 2 and k == 'x' else ('text',))
            if kind == 'number':
                v = ctx.int('v%d%s' % (i, k), 0, 200)
            else:
                v = ctx.text('v%d%s' % (i, k), 1)
                if kind == 'pair':
                    v = (v, [v, None])
            kw[k] = v
        obj.complain(id_, **kw)
        one = (id_, kw)
        known = False
        for other in want:
            if same(one, other):
                known = True
                break
        if not known:
            want.append(one)
        else:
            ctx.cover('repeated')
        said.append(one)
    got = obj.notices
    ctx.check([c.id for c in got] == [i for i, _ in want],
              'distinct ones in order', said, [c.id for c in got])
    for c, (i, kw) in zip(got, want):
        ctx.check(set(c.context) == set(kw) | {own}, 'context', said)
        ctx.check(c.context[own] is obj, 'where it was said', said)
        r = True
        for k in kw:
            r = r & (c.context[k] == kw[k])
        ctx.check(r, 'context values', said)
    for other in [exch] + exch.children:
        if other is not obj:
            ctx.check(not other.notices, 'nothing elsewhere')


def h_box(ctx):
    """Complaints that belong to no message"""
    v = ctx.text('v', 1)
    box = complaint_box(1007, offset=v)
    ctx.check([c.id for c in box.complaints] == [1007], 'in the box')
    ctx.check(box.complaints[0].context['offset'] == v, 'context')
    ctx.check(box.request is None and not box.responses, 'empty exchange')


def h_documented(ctx, lo, hi):
    """Every notice as documented"""
    id_ = ctx.int('id', lo, hi)
    known = id_ in all_notices
    ctx.check(known == (id_ in NOTICES), 'known ids', id_)
    if not known:
        return
    ctx.cover('known')
    obj, _, exch = objects(ctx)
    obj.complain(id_)
    (c,) = obj.notices
    for k, (sev, _) in NOTICES.items():
        if id_ == k:
            want = sev
            break
    ctx.check(c.id == id_, 'id', id_)
    ctx.check(c.severity is Severity[want], 'severity', id_, c.severity.name)
    ctx.check(c.notice.severity_short == want[0].upper(), 'letter', id_)


def h_order(ctx):
    """Severities compare as documented"""
    names = ('debug', 'comment', 'error')
    i, j = ctx.choice('i', range(3)), ctx.choice('j', range(3))
    a, b = Severity[names[i]], Severity[names[j]]
    ctx.check((a < b) == (i < j), '<', i, j)
    ctx.check((a <= b) == (i <= j), '<=', i, j)
    ctx.check((a > b) == (i > j), '>', i, j)
    ctx.check((a >= b) == (i >= j), '>=', i, j)
    ctx.check((a == b) == (i == j), '==', i, j)


def tasks(tier):
    out = []
    for n in range(5 + (tier == 'thorough')):
        out.append(Task('h_sequence', dict(n=n), max_paths=200000,
                        expect=('repeated',) if n > 1 else ()))
    out.append(Task('h_box'))
    for lo in range(1000, 1320, 40):
        out.append(Task('h_documented', dict(lo=lo, hi=lo + 39),
                        expect=('known',)))
    out.append(Task('h_documented', dict(lo=1320, hi=9999)))
    out.append(Task('h_documented', dict(lo=0, hi=999)))
    out.append(Task('h_order'))
    return out
