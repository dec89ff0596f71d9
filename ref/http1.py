"""Reference model of HTTP/1.x framing (RFC 7230 sections 3, 4, 5.6 of the
task's properties F01-F06), written from the RFC and HTTPolice's documented
notices, over plain bytes.

A *message* is a dict; `body` is bytes or None ("unavailable")."""

LINE_LIMIT = 16 * 1024
BODY_LIMIT = 1 << 30
DIGIT = b'0123456789'
HEX = b'0123456789abcdefABCDEF'
TCHAR = (b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"
         b"ABCDEFGHIJKLMNOPQRSTUVWXYZ")


class Bad(Exception):
    """The input does not match; `pos` is where reading stopped."""

    def __init__(self, pos, eof=False):
        super().__init__()
        self.pos = pos


class Rd:
    """A cursor over one direction of a connection."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.stop = False       # the rest is not HTTP/1.x messages
        self.lf = 0             # bare-LF lines since the last message
        self.folds = 0

    def at_end(self):
        return self.pos >= len(self.data)

    def usable(self):
        return not self.stop and not (self.touched and self.at_end())

    touched = False

    def line(self):
        self.touched = True
        i = self.data.find(b'\n', self.pos, self.pos + LINE_LIMIT)
        if i < 0:
            self.pos = min(len(self.data), self.pos + LINE_LIMIT)
            self.stop = True
            raise Bad(self.pos)
        raw = self.data[self.pos:i]
        self.pos = i + 1
        if raw.endswith(b'\r'):
            return raw[:-1]
        self.lf += 1
        return raw

    def take(self, n):
        self.touched = True
        have = len(self.data) - self.pos
        if n > have:
            self.pos = len(self.data)
            self.stop = True
            raise Bad(self.pos)
        for k in range(have + 1):
            if n == k:
                r = self.data[self.pos:self.pos + k]
                self.pos += k
                return r
        raise AssertionError

    def rest(self):
        self.touched = True
        r = self.data[self.pos:]
        self.pos = len(self.data)
        return r

    def head(self):
        return self.data[self.pos:self.pos + 1]


def is_version(s):
    """HTTP-version = "HTTP" "/" DIGIT "." DIGIT"""
    return (len(s) == 8 and bool(s.startswith(b'HTTP/')) and
            bool(s[6:7] == b'.') and s[5] in DIGIT and s[7] in DIGIT)


def fields(rd):
    out = []
    while not rd.at_end():
        h = rd.head()
        if h == b'\r' or h == b'\n':
            break
        l = rd.line()
        i = l.find(b':')
        if i < 0:
            rd.stop = True
            raise Bad(rd.pos)
        name = l[:i]
        value = l[i + 1:]
        while not rd.at_end() and rd.head() in (b' ', b'\t'):
            rd.folds += 1
            value = value + b' ' + rd.line().lstrip(b' \t')
        out.append((name, value.strip(b' \t')))
    return out


def blank(rd):
    l = rd.line()
    if len(l) != 0:
        rd.stop = True
        raise Bad(rd.pos)


def request_heading(rd):
    l = rd.line()
    parts = l.split(b' ')
    if len(parts) != 3 or not is_version(parts[2]):
        rd.stop = True
        raise Bad(rd.pos)
    hdrs = fields(rd)
    blank(rd)
    return dict(kind='req', method=parts[0], target=parts[1],
                version=parts[2], headers=hdrs)


def response_heading(rd):
    l = rd.line()
    parts = l.split(b' ', 2)
    if len(parts) != 3 or not is_version(parts[0]) or \
            len(parts[1]) != 3 or not all(c in DIGIT for c in parts[1]):
        rd.stop = True
        raise Bad(rd.pos)
    hdrs = fields(rd)
    blank(rd)
    s = parts[1]
    return dict(kind='resp', version=parts[0],
                status=(s[0] - 48) * 100 + (s[1] - 48) * 10 + s[2] - 48,
                reason=parts[2], headers=hdrs)


def chunked(rd):
    """-> (body, trailer); Bad when malformed; OverflowError past the limit"""
    data = b''
    while True:
        l = rd.line()
        i = l.find(b';')
        size = (l if i < 0 else l[:i]).rstrip(b' \t')
        if len(size) == 0 or not all(c in HEX for c in size):
            rd.stop = True
            raise Bad(rd.pos)
        n = 0
        for c in size:
            n = n * 16 + hexval(c)
        if n == 0:
            break
        if n + len(data) > BODY_LIMIT:
            rd.stop = True
            raise OverflowError
        data = data + rd.take(n)
        blank(rd)
    trailer = fields(rd)
    blank(rd)
    return data, trailer


HEXVAL = [int(chr(i), 16) if chr(i) in '0123456789abcdefABCDEF' else 0
          for i in range(256)]


def hexval(c):
    return HEXVAL[c]


def header_list(msg, name):
    return [v for n, v in msg['headers'] if n.lower() == name]


def codings_of(msg):
    """Transfer-codings, in order; an unparsable entry counts as '?'"""
    out = []
    for v in header_list(msg, b'transfer-encoding'):
        els = [x.strip(b' \t') for x in v.split(b',')]
        els = [x for x in els if len(x) != 0]
        if not els or not all(all(c in TCHAR for c in x) for x in els):
            out.append(b'?')
        else:
            out.extend(x.lower() for x in els)
    return out


def content_length(msg):
    """absent -> None; malformed -> -1; else the (last) number"""
    vs = header_list(msg, b'content-length')
    if not vs:
        return None
    v = vs[-1]
    if len(v) == 0 or not all(c in DIGIT for c in v):
        return -1
    n = 0
    for c in v:
        n = n * 10 + (c - 48)
    return n


def fixed_body(msg, rd, notices, n):
    if n == -1:
        rd.stop = True
        return None
    if n > BODY_LIMIT:
        rd.stop = True
        notices.append(1298)
        return None
    try:
        return rd.take(n)
    except Bad:
        notices.append(1004)
        return None


def chunked_body(msg, rd, notices):
    msg['trailer'] = []
    try:
        body, msg['trailer'] = chunked(rd)
        flush(rd, notices)
        return body
    except Bad:
        notices.append(1005)
    except OverflowError:
        notices.append(1298)
    return None


def undo(codings, body, notices, decode):
    """Undo transfer codings, last first."""
    for c in reversed(codings):
        if body is None:
            return None
        if c == b'chunked':
            notices.append(1002)
            return None
        if c in (b'gzip', b'x-gzip', b'deflate'):
            body = decode(c, body)
            if body is None:
                notices.append(1027)
        elif c == b'?':
            body = None
        else:
            notices.append(1003)
            body = None
    return body


def flush(rd, notices):
    if rd.folds:
        notices.append(1016)
    if rd.lf:
        notices.append(1224)
    rd.folds = rd.lf = 0


def body_of(msg, rd, req, notices, decode):
    te = codings_of(msg)
    if msg['kind'] == 'resp':
        st = msg['status']
        if st == 101:
            notices.append(1011)
            rd.stop = True
            return b''
        if req is not None and req['method'] == b'CONNECT' and \
                200 <= st <= 299:
            notices.append(1012)
            rd.stop = True
            return b''
        if 100 <= st <= 199 or st == 204 or st == 304 or \
                (req is not None and req['method'] == b'HEAD'):
            return b''
    if te:
        if te[-1] == b'chunked':
            te = te[:-1]
            body = chunked_body(msg, rd, notices)
        elif msg['kind'] == 'req':
            notices.append(1001)
            rd.stop = True
            return None
        else:
            body = rd.rest()
        return undo(te, body, notices, decode)
    n = content_length(msg)
    if n is not None:
        return fixed_body(msg, rd, notices, n)
    if msg['kind'] == 'req':
        return b''
    return rd.rest()


def one(rd, req, heading, decode):
    """Read one message; (msg or None, notice of a bad heading or None)"""
    try:
        msg = heading(rd)
    except Bad:
        rd.lf = rd.folds = 0 if rd.stop else rd.lf
        return None
    notices = []
    flush(rd, notices)
    msg['trailer'] = []
    msg['body'] = body_of(msg, rd, req, notices, decode)
    msg['notices'] = notices
    return msg


def no_decode(coding, body):
    raise AssertionError('decoder needed')


def responses(rd, req, decode):
    out = []
    box = None
    while rd.usable():
        msg = one(rd, req, response_heading, decode)
        if msg is None:
            box = 1009
            break
        out.append(msg)
        st = msg['status']
        if not (100 <= st <= 199) or st == 101:
            break
    return out, box


def streams(inbound, outbound, decode=no_decode):
    """List of ('exchange', req, resps) and ('box', id, offset)."""
    events = []
    i = Rd(inbound) if inbound is not None else None
    o = Rd(outbound) if outbound is not None else None
    while i is not None and i.usable():
        req = one(i, None, request_heading, decode)
        if req is None:
            events.append(('box', 1006, None))
            continue
        resps, box = [], None
        if o is not None and o.usable():
            resps, box = responses(o, req, decode)
            if resps:
                last = resps[-1]
                if last['status'] == 101:
                    i.stop = True
                if req['method'] == b'CONNECT' and \
                        200 <= last['status'] <= 299:
                    i.stop = True
        events.append(('exchange', req, resps))
        if box:
            events.append(('box', box, None))
    if i is not None and not i.at_end():
        events.append(('box', 1007, i.pos))
    if o is not None and o.usable():
        if i is not None:
            events.append(('box', 1008, None))
        while o.usable():
            resps, box = responses(o, None, decode)
            if resps:
                events.append(('exchange', None, resps))
            if box:
                events.append(('box', box, None))
    if o is not None and not o.at_end():
        events.append(('box', 1010, o.pos))
    return events
