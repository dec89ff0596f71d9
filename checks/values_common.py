"""Deep comparison of parsed values."""

from httpolice.structure import MultiDict, Unavailable


def text(x):
    """A string value as a plain string (not by its own equality)."""
    return ''.join([x[i:i + 1] for i in range(len(x))]) \
        if type(x) not in (str, bytes) else x


def deep(a, b):
    """Structurally the same value, without protocol-specific equality."""
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Unavailable) or isinstance(b, Unavailable):
        return isinstance(a, Unavailable) and isinstance(b, Unavailable)
    if isinstance(a, MultiDict) or isinstance(b, MultiDict):
        return isinstance(a, MultiDict) and isinstance(b, MultiDict) and \
            deep(a.sequence, b.sequence)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b) or \
                isinstance(a, list) != isinstance(b, list):
            return False
        r = True
        for x, y in zip(a, b):
            r = r & deep(x, y)
        return r
    if isinstance(a, str) and isinstance(b, str):
        if len(a) != len(b):
            return False
        return str.__eq__(a, b) if type(a) is type(b) is str \
            else codes(a) == codes(b)
    return a == b


def codes(s):
    """The same characters as a plain str, which compares exactly."""
    return u'' + s
