"""Facts about registered names, as the RFCs and IANA registries have them.

A snapshot, so that a changed table in the program shows.
Header facts: r/R for requests no/yes, s/S for responses no/yes,
c bad as connection option, t not allowed in trailers, p precondition,
n proactive negotiation, m representation metadata, d deprecated or
obsoleted, 1 single value, * list, , and ; delimiters suspect in quotes."""

HEADERS = {
    'accept': 'Rsn,;*',
    'accept-charset': 'Rsn*',
    'accept-encoding': 'RSn*',
    'accept-language': 'Rsn*',
    'accept-patch': 'rS,;*',
    'accept-post': 'rS,;*',
    'accept-ranges': 'rS*',
    'access-control': 'd',
    'access-control-allow-credentials': 'rSct1',
    'access-control-allow-headers': 'rSct*',
    'access-control-allow-methods': 'rSct*',
    'access-control-allow-origin': 'rSct1',
    'access-control-expose-headers': 'rSct*',
    'access-control-max-age': 'rSct1',
    'access-control-request-headers': 'Rsct*',
    'access-control-request-method': 'Rsct1',
    'age': 'rSct1',
    'allow': 'rS*',
    'alt-svc': 'rS*',
    'alt-used': 'Rst1',
    'authorization': 'Rsct1',
    'cache-control': 'RSct*',
    'connection': 'RS*',
    'content-base': 'd',
    'content-disposition': 'rSm1',
    'content-encoding': 'ctm*',
    'content-language': 'cm*',
    'content-length': 'RSt1',
    'content-location': 'm1',
    'content-range': 'rSct1',
    'content-type': 'tm;1',
    'cookie2': 'd',
    'cross-origin-resource-policy': 'rSc1',
    'date': 'RSt1',
    'etag': 'rScm1',
    'expect': 'Rst1',
    'expires': 'rSct1',
    'forwarded': 'Rsc,;*',
    'from': 'Rs1',
    'http2-settings': 'Rs1',
    'httpolice-silence': 'RS*',
    'host': 'Rst1',
    'if': 'tp',
    'if-match': 'Rstp*',
    'if-modified-since': 'Rstp1',
    'if-none-match': 'Rstp*',
    'if-range': 'Rst1',
    'if-schedule-tag-match': 'tp',
    'if-unmodified-since': 'Rstp1',
    'last-modified': 'rScm1',
    'link': 'S,;*',
    'location': 'rSt1',
    'max-forwards': 'Rst1',
    'method-check': 'd',
    'method-check-expires': 'd',
    'origin': 'Rsct1',
    'overwrite': 'p',
    'pragma': 'RSt*',
    'prefer': 'Rs,;*',
    'preference-applied': 'rS,*',
    'proxy-authenticate': 'rS*',
    'proxy-authorization': 'Rst1',
    'range': 'Rst1',
    'referer': 'Rs1',
    'referer-root': 'd',
    'retry-after': 'rSt1',
    'server': 'rS1',
    'set-cookie2': 'd',
    'strict-transport-security': 'rS;1',
    'te': 'Rst,;*',
    'trailer': 't*',
    'transfer-encoding': 'RSt,;*',
    'upgrade': 'RS*',
    'user-agent': 'Rs1',
    'vary': 'rSct*',
    'via': 'RSc,*',
    'www-authenticate': 'rSc*',
    'warning': 'RSct,*',
    'x-content-type-options': 'rSct1',
}

OTHER_HEADERS = frozenset("""
a-im alpn amp-cache-transform accept-additions accept-datetime
accept-features alternates apply-to-redirect-ref authentication-control
authentication-info c-ext c-man c-opt c-pep c-pep-info cdn-loop
cal-managed-id caldav-timezones close compliance content-id content-md5
content-script-type content-style-type content-transfer-encoding
content-version cookie cost dasl dav default-style delta-base depth
derived-from destination differential-id digest ediint-features early-data
ext getprofile hobareg im include-referred-token-binding-id keep-alive label
lock-token mime-version man memento-datetime message-id meter negotiate
non-compliance opt optional optional-www-authenticate ordering-type p3p pep
pics-label pep-info position profileobject protocol protocol-info
protocol-query protocol-request proxy-authentication-info proxy-features
proxy-instruction public public-key-pins public-key-pins-report-only
redirect-ref replay-nonce resolution-hint resolver-location slug safe
schedule-reply schedule-tag sec-token-binding sec-websocket-accept
sec-websocket-extensions sec-websocket-key sec-websocket-protocol
sec-websocket-version security-scheme set-cookie setprofile soapaction
status-uri subok subst sunset surrogate-capability surrogate-control tcn ttl
timeout timing-allow-origin title topic traceparent tracestate ua-color
ua-media ua-pixels ua-resolution ua-windowpixels uri urgency variant-vary
version want-digest x-att-deviceid x-aspnet-version x-csrf-token x-csrftoken
x-content-duration x-content-security-policy x-device-accept
x-device-accept-charset x-device-accept-encoding x-device-accept-language
x-device-user-agent x-firefox-spdy x-forwarded-for x-forwarded-host
x-forwarded-proto x-frame-options x-github-request-id x-http-method-override
x-powered-by x-real-ip x-requested-with x-ua-compatible x-uidh x-varnish
x-wap-profile x-webkit-csp x-xsrf-token x-xss-protection
""".split())

# safe, cacheable, defines_body: y n or -
METHODS = {
    'ACL': 'n--',
    'BASELINE-CONTROL': 'n--',
    'BIND': 'n--',
    'CHECKIN': 'n--',
    'CHECKOUT': 'n--',
    'CONNECT': 'nnn',
    'COPY': 'n--',
    'DELETE': 'nnn',
    'GET': 'yyn',
    'HEAD': 'yyn',
    'LABEL': 'n--',
    'LINK': 'n--',
    'LOCK': 'n--',
    'MERGE': 'n--',
    'MKACTIVITY': 'n--',
    'MKCALENDAR': 'n--',
    'MKCOL': 'n--',
    'MKREDIRECTREF': 'n--',
    'MKWORKSPACE': 'n--',
    'MOVE': 'n--',
    'OPTIONS': 'yn-',
    'ORDERPATCH': 'n--',
    'PATCH': 'nny',
    'POST': 'nyy',
    'PRI': 'y--',
    'PROPFIND': 'y-y',
    'PROPPATCH': 'n--',
    'PUT': 'nny',
    'REBIND': 'n--',
    'REPORT': 'y--',
    'SEARCH': 'y--',
    'TRACE': 'ynn',
    'UNBIND': 'n--',
    'UNCHECKOUT': 'n--',
    'UNLINK': 'n--',
    'UNLOCK': 'n--',
    'UPDATE': 'n--',
    'UPDATEREDIRECTREF': 'n--',
    'VERSION-CONTROL': 'n--',
}

# 2 cacheable by default, 1 not by default, 0 not at all, None unknown
STATUSES = {
    100: 1,
    101: 1,
    102: None,
    103: None,
    200: 2,
    201: 1,
    202: 1,
    203: 2,
    204: 2,
    205: 1,
    206: 2,
    207: None,
    208: None,
    226: None,
    300: 2,
    301: 2,
    302: 1,
    303: 1,
    304: None,
    305: None,
    306: None,
    307: 1,
    308: 2,
    400: 1,
    401: 1,
    402: None,
    403: 1,
    404: 2,
    405: 2,
    406: 1,
    407: 1,
    408: 1,
    409: 1,
    410: 2,
    411: 1,
    412: 1,
    413: 1,
    414: 2,
    415: 1,
    416: 1,
    417: 1,
    421: 2,
    422: 1,
    423: 1,
    424: 1,
    425: None,
    426: 1,
    428: 0,
    429: 0,
    431: 0,
    451: 2,
    500: 1,
    501: 2,
    502: 1,
    503: 1,
    504: 1,
    505: 1,
    506: None,
    507: 1,
    508: None,
    510: None,
    511: 0,
}

# argument: 0 none 1 optional 2 required; form t/q preferred; request/response
CACHE_DIRECTIVES = {
    'immutable': (0, '', False, True, None),
    'max-age': (2, 't', True, True, 'delta'),
    'max-stale': (1, 't', True, False, 'delta'),
    'min-fresh': (2, 't', True, False, 'delta'),
    'must-revalidate': (0, '', False, True, None),
    'no-cache': (1, 'q', True, True, 'fields'),
    'no-store': (0, '', True, True, None),
    'no-transform': (0, '', True, True, None),
    'only-if-cached': (0, '', True, False, None),
    'private': (1, 'q', False, True, 'fields'),
    'proxy-revalidate': (0, '', False, True, None),
    'public': (0, '', False, True, None),
    's-maxage': (2, 't', False, True, 'delta'),
    'stale-if-error': (2, '', True, True, 'delta'),
    'stale-while-revalidate': (2, '', False, True, 'delta'),
}

DEPRECATED_MEDIA = frozenset("""
application/font-sfnt application/font-woff application/smil image/x-emf
image/x-wmf message/news text/directory text/ecmascript text/javascript
""".split())

JSON_MEDIA = frozenset("""
application/json
""".split())

XML_MEDIA = frozenset("""
application/xml text/xml
""".split())

PATCH_MEDIA = frozenset("""
application/json-patch+json application/merge-patch+json
application/xml-patch+xml
""".split())

NOT_PATCH_MEDIA = frozenset("""
application/json application/x-www-form-urlencoded application/xml
text/event-stream text/html text/plain text/xml
""".split())

LIBRARIES = frozenset("""
Apache-HttpAsyncClient Apache-HttpClient CFNetwork CPython Dalvik Darwin
Go-http-client Java Linux OpenSSL PHP PyPy PycURL Python-urllib Ruby
android-async-http hyper libcurl libidn libsoup libwww-perl lua-http nghttp2
okhttp php-requests python-requests zlib
""".split())


def header(name):
    return HEADERS.get(name.lower(), '')


def known_header(name):
    n = name.lower()
    return n in HEADERS or n in OTHER_HEADERS


def method(name):
    return METHODS.get(name, '---')
