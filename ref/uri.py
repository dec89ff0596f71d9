"""RFC 3986: splitting (appendix B) and reference resolution (5.2)."""


def cut(s, stops):
    """s up to the first of the stops, and the rest"""
    for i in range(len(s)):
        if s[i] in stops:
            return s[:i], s[i:]
    return s, s[len(s):]


def split(uri):
    """scheme, authority, path, query, fragment; None where undefined"""
    fragment = query = authority = scheme = None
    head, rest = cut(uri, ':/?#')
    if rest[:1] == ':' and head:
        scheme, uri = head, rest[1:]
    if uri[:2] == '//':
        authority, uri = cut(uri[2:], '/?#')
    path, rest = cut(uri, '?#')
    if rest[:1] == '?':
        query, rest = cut(rest[1:], '#')
    if rest[:1] == '#':
        fragment = rest[1:]
    return scheme, authority, path, query, fragment


def remove_dots(path):
    """5.2.4"""
    # leading "../" and "./" of a relative path go first
    while True:
        if path[:3] == '../':
            path = path[3:]
        elif path[:2] == './':
            path = path[2:]
        else:
            break
    if path == '.' or path == '..':
        return ''
    segs = path.split('/')
    out = [segs[0]] if path[:1] != '/' and segs[0] else []
    for i in range(1, len(segs)):
        s = segs[i]
        if s == '.' or s == '..':
            if s == '..':
                out = out[:-1]
            if i == len(segs) - 1:
                out.append('/')
        else:
            out.append('/' + s)
    return ''.join(out) if out else ''


def target(base, ref):
    """5.2.2: components of the target; an empty fragment is none"""
    bs, ba, bp, bq, _ = split(base)
    s, a, p, q, f = split(ref)
    if s is not None:
        r = (s, a, remove_dots(p), q)
    elif a is not None:
        r = (bs, a, remove_dots(p), q)
    elif p == '':
        r = (bs, ba, bp, bq if q is None else q)
    elif p[:1] == '/':
        r = (bs, ba, remove_dots(p), q)
    else:
        p = '/' + p if ba is not None and bp == '' else \
            bp[:bp.rfind('/') + 1] + p
        r = (bs, ba, remove_dots(p), q)
    return r[0].lower(), r[1], r[2], r[3], f if f else None


def same(base, ref):
    """The reference leads back to the base."""
    return target(base, ref) == target(base, '')
