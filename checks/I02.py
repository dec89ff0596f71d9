"""I02: recombining captured TCP streams."""

import itertools

from httpolice.inputs import InputError, formats
from checks.fs_common import Directory
from sx.ctx import Task

FUNCTIONS = ['httpolice.inputs.streams.tcpflow_input',
             'httpolice.inputs.streams.tcpick_input',
             'httpolice.inputs.streams._recombine_streams',
             'httpolice.inputs.streams._path_pairs_input',
             'httpolice.inputs.streams._sniff_direction',
             'httpolice.inputs.streams._parse_paths',
             'httpolice.framing1.parse_streams']
BOUNDS = {
    'quick': 'directories of up to 3 files; names with symbolic addresses '
             '(1 character), ports, counters and timestamps (1-2 digits); '
             'file contents: a request, a response, text, nothing; any names '
             'of up to 5 arbitrary characters and of correct length with one '
             'arbitrary character',
    'thorough': 'up to 4 files',
}
OUTSIDE = ('more than one exchange per connection (F04); pairs where both '
           'files look like requests or both like responses; tcpick counters '
           'shared by several connections')
ASSUMPTIONS = ['os.listdir and open are replaced for the scratch directory '
               'while names are symbolic; replays use real files']

REQ = (u'GET /%d HTTP/1.1\r\nHost: example.com\r\n\r\n')
RESP = (u'HTTP/1.1 299 r%d\r\nContent-Length: 0\r\n\r\n')
KINDS = ('req', 'resp', 'text', 'empty')


def contents(kind, i):
    if kind == 'req':
        return (REQ % i).encode('ascii')
    if kind == 'resp':
        return (RESP % i).encode('ascii')
    if kind == 'text':
        return b'EHLO example.com\r\n'
    return b''


def seen(exchanges):
    """Which files the exchanges came from."""
    out = []
    for e in exchanges:
        req = e.request.target if e.request else None
        resps = [r.reason for r in e.responses]
        boxes = []
        if not e.request and not e.responses:
            for c in e.complaints:
                boxes.append((c.id, c.context))
        out.append((req, resps, boxes))
    return out


def expected(pair, kinds, paths):
    """What a connection of one or two files leads to: exchanges and boxes."""
    i, j = pair if len(pair) == 2 else (pair[0], None)
    out = []
    if j is None:
        out.append((None, [], [1278]))
    ks = [kinds[i], kinds[j] if j is not None else None]
    req = {'req': i}.get(ks[0], {'req': j}.get(ks[1]))
    resp = {'resp': i}.get(ks[0], {'resp': j}.get(ks[1]))
    if req is None and resp is None:
        out.append((None, [], [1279]))
    else:
        out.append((None if req is None else u'/%d' % req,
                    [] if resp is None else [u'r%d' % resp], None))
    return out


def compare(ctx, d, exchanges, pairs, kinds):
    got = seen(exchanges)
    found = [(r, p) for r, p, boxes in got if r is not None or p]
    want, boxes = [], []
    for pair in pairs:
        for r, p, b in expected(pair, kinds, None):
            if b is None:
                want.append((r, p))
            else:
                files = [d.path(d.files[k][0]) for k in pair]
                boxes.append((b[0], files))
    ctx.check(len(found) == len(want), 'number of exchanges', found, want)
    for x in want:
        ctx.check(found.count(x) == want.count(x), 'exchange', x, found)
    got_boxes = [b for _, _, bs in got for b in bs if b[0] in (1278, 1279)]
    ctx.check(len(got_boxes) == len(boxes), 'number of boxes', boxes)
    for id_, files in boxes:
        hits = 0
        for gid, context in got_boxes:
            if gid != id_:
                continue
            if id_ == 1278:
                if context['path'] == files[0]:
                    hits += 1
            else:
                names = [context['path1'], context['path2']]
                if all(f in names for f in files):
                    hits += 1
        ctx.check(hits == 1, 'box', id_, files)


def admissible(ctx, pairs, kinds):
    for pair in pairs:
        ks = [kinds[k] for k in pair]
        if ks == ['req', 'req'] or ks == ['resp', 'resp']:
            return False
    return True


def h_tcpflow(ctx, n):
    d = Directory(ctx)
    kinds, ends = [], []
    for i in range(n):
        t = ctx.bytes('t%d' % i, ctx.choice('digits%d' % i, (1, 2) if i == 0 else (1,)),
                      b'0123456789').decode('ascii')
        src = ctx.text('a%d' % i, 1, b'ab') + u'-' + \
            ctx.text('p%d' % i, 1, b'12')
        dest = ctx.text('b%d' % i, 1, b'ab') + u'-' + \
            ctx.text('q%d' % i, 1, b'12')
        kind = ctx.choice('kind%d' % i, KINDS if n < 3 else KINDS[:2])
        kinds.append(kind)
        ends.append((src, dest))
        d.add(t + u'-' + src + u'-' + dest + u'-0', contents(kind, i))
    for i, j in itertools.combinations(range(n), 2):
        ctx.assume(d.files[i][0] != d.files[j][0])
    duplicate = any(ends[i][0] == ends[j][0] and ends[i][1] == ends[j][1]
                    for i, j in itertools.combinations(range(n), 2))
    pairs, used = [], set()
    if not duplicate:
        for i in range(n):
            if i in used:
                continue
            used.add(i)
            pair = (i,)
            for j in range(i + 1, n):
                if j not in used and ends[i][0] == ends[j][1] and \
                        ends[i][1] == ends[j][0]:
                    pair = (i, j)
                    used.add(j)
                    break
            pairs.append(pair)
        ctx.assume(admissible(ctx, pairs, kinds))
    with d:
        try:
            exchanges = list(formats[u'tcpflow']([d.root]))
        except InputError:
            ctx.check(duplicate, 'rejected', d.files)
            ctx.cover('rejected')
            return
        ctx.check(not duplicate, 'duplicates accepted', d.files)
        compare(ctx, d, exchanges, pairs, kinds)
    ctx.cover('read')


def h_tcpick(ctx, n):
    d = Directory(ctx)
    kinds, conns = [], []
    a, b = ctx.text('a', 1, b'ab'), ctx.text('b', 1, b'ab')
    for i in range(n):
        counter = ctx.bytes('c%d' % i, 1, b'0123456789').decode('ascii')
        if i == 0 and ctx.flag('long'):
            counter = u'1' + counter
        side = ctx.choice('side%d' % i, (u'clnt', u'serv'))
        kind = ctx.choice('kind%d' % i, KINDS if n < 3 else KINDS[:2])
        kinds.append(kind)
        conns.append((counter, side))
        d.add(u'tcpick_' + counter + u'_' + a + u'_' + b + u'_http.' + side +
              u'.dat', contents(kind, i))
    for i, j in itertools.combinations(range(n), 2):
        ctx.assume(d.files[i][0] != d.files[j][0])
    pairs, used = [], set()
    for i in range(n):
        if i in used:
            continue
        used.add(i)
        pair = (i,)
        for j in range(i + 1, n):
            if j not in used and conns[i][0] == conns[j][0] and \
                    conns[i][1] != conns[j][1]:
                pair = (i, j)
                used.add(j)
                break
        pairs.append(pair)
    ctx.assume(admissible(ctx, pairs, kinds))
    with d:
        exchanges = list(formats[u'tcpick']([d.root]))
        compare(ctx, d, exchanges, pairs, kinds)
    ctx.cover('read')


DIGITS = frozenset(b'0123456789')


def is_digits(s):
    return len(s) > 0 and all(ord(c) in DIGITS for c in s)


def good_tcpflow(name):
    """timestamp-address-port-address-port-counter"""
    if name == u'report.xml' or name == u'alerts.txt':
        return True
    parts = name.split(u'-')
    return len(parts) == 6 and is_digits(parts[0]) and \
        is_digits(parts[2]) and is_digits(parts[4]) and \
        is_digits(parts[5]) and parts[1] != u'' and parts[3] != u''


def good_tcpick(name):
    parts = name.split(u'_')
    if len(parts) < 4 or parts[0] != u'tcpick' or not is_digits(parts[1]) or \
            parts[2] == u'' or parts[3] == u'':
        return False
    rest = u'_'.join(parts[4:]).split(u'.')
    return len(parts) > 4 and len(rest) == 3 and len(rest[0]) > 0 and \
        (rest[1] == u'clnt' or rest[1] == u'serv') and rest[2] == u'dat'


NAMES = {
    u'tcpflow': (u'1-a-2-b-3-0', u'report.xml', u'alerts.txt',
                 u'12-1.2.3.4-80-::1-22-0'),
    u'tcpick': (u'tcpick_1_a_b_x.serv.dat', u'tcpick_0_1.1_b_80.clnt.dat'),
}


def h_names(ctx, which, n):
    """File names of other shapes"""
    if n:
        name = ctx.text('s', n)
    else:
        base = ctx.choice('base', NAMES[which])
        i = ctx.choice('at', range(len(base)))
        how = ctx.choice('how', ('replace', 'insert', 'delete'))
        c = ctx.text('c', 1) if how != 'delete' else u''
        name = base[:i] + c + base[i + (how != 'insert'):]
    for c in name:
        ctx.assume((c != u'/') & (c != u'\0') & (c < u'\x80') & (c != u'\n'))
    ctx.assume(name != u'.')
    ctx.assume(name != u'..')
    good = good_tcpflow(name) if which == u'tcpflow' else good_tcpick(name)
    d = Directory(ctx)
    d.add(name, b'')
    with d:
        try:
            list(formats[which]([d.root]))
        except InputError:
            ctx.check(not good, 'rejected', name)
            ctx.cover('rejected')
            return
        if which == u'tcpflow':
            ctx.check(good, 'accepted', name)
    ctx.cover('read')


def h_timestamp(ctx):
    """Timestamps that are not times"""
    d = Directory(ctx)
    t = ctx.choice('t', (u'0', u'253402300799', u'253402300800', u'9' * 15,
                         u'9' * 60, u'9' * 200))
    d.add(t + u'-a-1-b-2-0', b'')
    with d:
        try:
            exchanges = list(formats[u'tcpflow']([d.root]))
        except InputError:
            ctx.check(len(t) > 11, 'rejected', t)
        else:
            ctx.check(len(exchanges) == 2, 'complaints')
    ctx.cover('done')


def tasks(tier):
    top = 4 if tier == 'thorough' else 3
    out = []
    for n in range(top + 1):
        out.append(Task('h_tcpflow', dict(n=n), max_paths=100000,
                        expect=('read', 'rejected') if n > 1 else ('read',)))
        out.append(Task('h_tcpick', dict(n=n), max_paths=100000,
                        expect=('read',)))
    for which in sorted(NAMES):
        for n in range(6):
            out.append(Task('h_names', dict(which=which, n=n),
                            expect=('rejected',)))
    out.append(Task('h_timestamp', dict(), expect=('done',)))
    return out
