"""G10: message syntax of RFC 7230 and RFC 3986."""

from httpolice import Exchange, Request, Response, check_exchange
from sx.ctx import Task

from checks import grammar_common as _c
from checks.grammar_common import h_free, h_near, h_pair        # noqa: F401
from checks.header_samples import G10
from ref.grammars import GRAMMAR

FUNCTIONS = _c.FUNCTIONS + [
    'httpolice.syntax.rfc7230', 'httpolice.syntax.rfc3986',
    'httpolice.request.Request.target_form', 'httpolice.request.check_request',
    'httpolice.response.check_response_itself',
    'httpolice.message.check_message']
BOUNDS = {
    'quick': _c.BOUNDS['quick'] + '; targets, methods, field names and '
    'reasons likewise (targets for GET, OPTIONS and CONNECT)',
    'thorough': _c.BOUNDS['thorough'] + '; targets likewise',
}
OUTSIDE = _c.OUTSIDE
ASSUMPTIONS = _c.ASSUMPTIONS

TARGETS = ['/a/b?c=d', 'http://u@a.b:8/c?d', '*', 'a.b:80', '[::1]:443',
           '/%41/..;a=b?', 'urn:a:b', '[fe80::1%25en]:1',
           '[1:2:3:4:5:6:7:8]:0', '[::ffff:1.2.3.4]:1', '[1:2::8]:',
           '255.249.199.99:1']
METHODS = ['GET', 'M-SEARCH', 'A!#$']
REASONS = ['OK', 'Not Found\t\xe9']
NAMES = ['Foo', 'X-Foo!', 'Host']


def target(ctx, method, value):
    req = Request(u'http', method, value, u'HTTP/1.1', [], b'')
    form = req.target_form
    bad = [c for c in req.notices if c.id == 1045]
    ctx.cover('accepted' if not bad else 'rejected')
    acc = {n: GRAMMAR.accepts(n, req.target.encode('iso-8859-1'))
           for n in ('origin-form', 'absolute-form', 'authority-form',
                     'asterisk-form')}
    if method == 'CONNECT':
        allowed = ['authority-form']
    elif method == 'OPTIONS':
        allowed = ['origin-form', 'asterisk-form', 'absolute-form']
    else:
        allowed = ['origin-form', 'absolute-form']
    ok = False
    for n in allowed:
        ok = ok | acc[n]
    ctx.check(ok == (not bad), 'target accepted exactly', method, value,
              bool(bad))
    if not bad:
        ctx.check(form.name in allowed, 'form fits the method', form.name)
        ctx.check(acc[form.name], 'target form', method, value, form.name)
    ctx.observe(len(bad))


def edit(ctx, s, inserted, removed):
    p = ctx.choice('pos', range(0, len(s) - removed + 1))
    x = ctx.text('x', inserted) if inserted else u''
    return s[:p] + x + s[p + removed:]


def h_target_free(ctx, method, n):
    target(ctx, method, ctx.text('t', n))


def h_target_near(ctx, method, sample, inserted, removed):
    target(ctx, method, edit(ctx, TARGETS[sample], inserted, removed))


def part(ctx, kind, value):
    if kind == 'method':
        msg = req = Request(u'http', value, u'/', u'HTTP/1.1',
                            [(u'Host', b'a'), (u'User-Agent', b'a/1')], b'')
        ex = Exchange(req, [])
        rule, notice = 'method', 1292
    elif kind == 'name':
        msg = req = Request(u'http', u'GET', u'/', u'HTTP/1.1',
                            [(u'Host', b'a'), (value, b'')], b'')
        ex = Exchange(req, [])
        rule, notice = 'field-name', 1293
    else:
        msg = Response(u'HTTP/1.1', 200, value, [], b'')
        ex = Exchange(None, [msg])
        rule, notice = 'reason-phrase', 1294
    check_exchange(ex)
    bad = [c for c in msg.notices if c.id == notice]
    ctx.cover('accepted' if not bad else 'rejected')
    ok = GRAMMAR.accepts(rule, value.encode('iso-8859-1'))
    ctx.check(ok == (not bad), kind + ' accepted exactly', value, bool(bad))
    ctx.check(len(bad) <= 1, 'reported once')
    ctx.observe([c.id for c in ex.complaints],
                [c.id for c in msg.notices])


def h_part_free(ctx, kind, n):
    part(ctx, kind, ctx.text('p', n))


def h_part_near(ctx, kind, sample, inserted, removed):
    part(ctx, kind, edit(ctx, PARTS[kind][sample], inserted, removed))


PARTS = {'method': METHODS, 'reason': REASONS, 'name': NAMES}


def tasks(tier):
    t = tier == 'thorough'
    out = _c.tasks(G10, tier)
    for m in ('GET', 'OPTIONS', 'CONNECT'):
        for n in range((3, 4)[t] + 1):
            out.append(Task('h_target_free', dict(method=m, n=n)))
        for i, s in enumerate(TARGETS):
            for ins, rem in ((1, 0), (0, 1), (1, 1), (2, 0), (2, 1)) + (
                    ((1, 2), (3, 0), (2, 2)) if t else ()):
                if rem <= len(s):
                    out.append(Task('h_target_near', dict(
                        method=m, sample=i, inserted=ins, removed=rem)))
    for k in PARTS:
        for n in range((2, 3)[t] + 1):
            out.append(Task('h_part_free', dict(kind=k, n=n)))
        for i, s in enumerate(PARTS[k]):
            for ins, rem in ((1, 0), (1, 1)) + (((2, 0),) if t else ()):
                out.append(Task('h_part_near', dict(
                    kind=k, sample=i, inserted=ins, removed=rem)))
    return out
