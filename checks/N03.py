"""N03: the exit status of the command."""

import io

from httpolice import Exchange, Request, Response, inputs
from httpolice.cli import parse_args, run_cli
from httpolice.exchange import check_exchange
from checks.report_common import NOTICES, text_report_lines
from sx.ctx import Task

FUNCTIONS = ['httpolice.cli.run_cli', 'httpolice.cli.parse_args',
             'httpolice.reports.text.text_report',
             'httpolice.reports.html.html_report',
             'httpolice.blackboard', 'httpolice.exchange.check_exchange',
             'httpolice.util.ordered_enum']
BOUNDS = {
    'quick': 'inputs of 0-3 exchanges (boxes with one or two notices of each '
             'severity; exchanges with notices on request, response or both), '
             'every --fail-on value and none, one silenced id (all values '
             '0-9999) or none, an input error or an I/O error after any '
             'exchange, both output formats',
    'thorough': 'two silenced ids',
}
OUTSIDE = 'exceptions of other kinds; errors while writing the report'
ASSUMPTIONS = ['a stand-in input format yields the exchanges']

RANK = {'debug': 0, 'comment': 1, 'error': 2}
# one notice of each severity
IDS = (1010, 1277, 1000 + 48)


class Out:

    def __init__(self):
        self.buffer = io.BytesIO()
        self.said = []

    def write(self, s):
        self.said.append(s)


class Stream:
    name = 'in'


def exchange(kind, id_):
    if kind == 'box':
        exch = Exchange(None, [])
        exch.complain(id_, offset=1, stream=Stream, headers=[])
    elif kind == 'clean':
        exch = Exchange(Request(u'http', u'GET', u'/', u'HTTP/1.1',
                                [(u'Host', b'a')], b''), [])
    elif kind == 'request':         # a comment on the request
        exch = Exchange(Request(u'http', u'GET', u'/', u'HTTP/1.1',
                                [(u'Host', b'a'), (u'X-Foo', b'x'),
                                 (u'User-Agent', b'a')], b''), [])
    else:                           # errors and comments on a response
        exch = Exchange(None, [Response(
            u'HTTP/1.1', 200, u'OK',
            [(u'Content-Type', b'application/json'), (u'X-Foo', b'x')],
            b'{')])
    return exch


def all_ids(exch):
    check_exchange(exch)
    return [c.id for obj in [exch] + exch.children for c in obj.notices]


def h_status(ctx, n, fmt, kinds, nsilent):
    exchanges = []
    twins = []
    for i in range(n):
        kind = ctx.choice('kind%d' % i, kinds)
        id_ = ctx.choice('id%d' % i, IDS) if kind == 'box' else None
        exchanges.append(exchange(kind, id_))
        twins.append(exchange(kind, id_))
    fail_on = ctx.choice('fail_on', (None, 'error', 'comment', 'debug'))
    silent = [ctx.int('silent%d' % i, 0, 9999) for i in range(nsilent)]
    failure = ctx.choice('failure', (None, 'input', 'io'))
    at = ctx.choice('at', range(n + 1)) if failure else None

    def source(paths):
        for i in range(n + 1):
            if at == i:
                raise inputs.InputError('bad input') if failure == 'input' \
                    else IOError('cannot read')
            if i < n:
                yield exchanges[i]

    argv = ['httpolice', '-i', 'combined', '-o', fmt]
    if fail_on:
        argv += ['--fail-on', fail_on]
    args = parse_args(argv + ['file'])
    args.silence = silent or None
    saved = inputs.formats['combined']
    inputs.formats['combined'] = source
    out, err = Out(), Out()
    try:
        status = run_cli(args, out, err)
    finally:
        inputs.formats['combined'] = saved
    seen = exchanges if at is None else exchanges[:at]
    bad = failure is not None
    for twin in twins[:len(seen)]:
        for id_ in all_ids(twin):
            hidden = False
            for s in silent:
                hidden = hidden | (s == id_)
            if hidden:
                ctx.cover('silenced')
            elif fail_on and RANK[NOTICES[id_][0]] >= RANK[fail_on]:
                bad = True
    ctx.check((status != 0) == bad, 'exit status', fmt, fail_on, silent,
              failure, at, status)
    ctx.cover('bad' if bad else 'good')
    report = out.buffer.getvalue().decode('utf-8')
    if fmt == 'text':
        want = u''
        for line in text_report_lines(seen):
            want = want + line + u'\n'
        ctx.check(report == want, 'complete report', report, want)
    else:
        if not failure:
            ctx.check(report.rstrip().endswith(u'</html>'), 'complete report')
        total = 0
        for exch in seen:
            for obj in [exch] + exch.children:
                total += len(obj.notices)
        ctx.check(report.count(u'class="severity"') == total,
                  'every notice in the report', total)
    ctx.check((len(err.said) > 0) == (failure is not None), 'error message',
              failure)


def tasks(tier):
    out = []
    m = 1 if tier == 'thorough' else 0
    for fmt in ('text', 'html'):
        for ns in range(2 + m):
            for n in range(4):
                if fmt == 'html' and (n > 2 or ns > 1 or n * ns > 1):
                    continue
                kinds = ('box', 'response', 'request', 'clean')
                if n == 3:
                    kinds = ('box',)
                elif n == 2 and ns:
                    kinds = ('box', 'response')
                out.append(Task(
                    'h_status', dict(n=n, fmt=fmt, kinds=kinds, nsilent=ns),
                    max_paths=100000, expect=('good', 'bad')))
    return out
