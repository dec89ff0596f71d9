"""Shapes around which the header checks explore.

Each sample is a starting point, not a test: the checks insert, replace and
delete at every position with symbolic bytes."""

DATE = 'Sun, 06 Nov 1994 08:49:37 GMT'
DATE850 = 'Sunday, 06-Nov-94 08:49:37 GMT'
ASCTIME = 'Sun Nov  6 08:49:37 1994'

SAMPLES = {
    # RFC 7230, RFC 3986
    'Transfer-Encoding': ['gzip, chunked', ',foo;a = "b";c=d,', 'gzip;a=b'],
    'TE': ['trailers, gzip;q=0.5', 'foo;a=b;q=1.00,', 'x ;q=0.123,deflate',
           'a;q="1"'],
    'Trailer': ['Foo, Bar', ',A,,B'],
    'Host': ['a.b:80', '[::1]:8', '1.2.3.4', '[fe80::1%25e]', '[v1.a:]',
             'a%41!'],
    'Connection': ['close, Foo', ',a ,'],
    'Upgrade': ['h2c, a/1', ',x/y,'],
    'Via': ['1.1 foo, HTTP/1.0 b:80 (c)', 'a b (c(d)\\e)', '1.1\t[::1]:2'],
    'Content-Length': ['10', '007'],
    # RFC 7231
    'Content-Type': ['text/plain;charset=utf-8', 'a/b ; c="d\\e"; f=g'],
    'User-Agent': ['foo/1.0 (b; c) d', 'a (b\\)c)', 'a\tb/c'],
    'Server': ['foo/1.0 (b; c) d', 'a ((b))'],
    'Date': [DATE, DATE850, ASCTIME],
    'Accept': ['text/*;q=0.5, */*', 'a/b;c="d";q=1;e=f;g', ', a/b;q=0.999,'],
    'Accept-Charset': ['utf-8;q=0.5, *', ',a;q=1.000'],
    'Accept-Encoding': ['gzip;q=0.5, *', ',identity;q=0,'],
    'Accept-Language': ['en-us;q=0.5, *', 'abcdefgh-12345678', ',de'],
    'Retry-After': ['120', DATE],
    'Allow': ['GET, PUT', ',A,,'],
    'Content-Encoding': ['gzip, br', ',a,'],
    'Content-Location': ['/a?b', 'http://a/b?c', '//u@h:1/x', 'a:b?c', '..',
                         'a/b:c'],
    'Location': ['/a?b#c', 'http://u:p@a:80/b?c#d', 'x:', '//[::1]/', '?q#f',
                 'a%2fb', 'foo:/b'],
    'Max-Forwards': ['10'],
    'Referer': ['http://a/b?c', '/x?y', 'about:blank'],
    'Vary': ['*', 'Foo, bar', ',a,'],
    'Expect': ['100-continue'],
    'Content-Language': ['en-US, de', 'zh-cmn-Hans-CN-x-a', 'sl-rozaj-biske',
                         'de-CH-1996-a-bcd', 'i-klingon', 'x-abc-d',
                         'sgn-BE-FR', 'abcd', 'abcde-419', 'zh-min'],
    # RFC 7232-7235
    'ETag': ['W/"a"', '"a\\b"', '""'],
    'Last-Modified': [DATE, ASCTIME],
    'If-Match': ['*', '"a", W/"b"', ',"a",'],
    'If-None-Match': ['*', '"a", W/"b"'],
    'If-Modified-Since': [DATE],
    'If-Unmodified-Since': [DATE850],
    'Accept-Ranges': ['bytes, foo', 'none'],
    'Range': ['bytes=0-9,-5,7-', 'foo=bar', 'bytes=,1-2 , '],
    'Content-Range': ['bytes 0-9/10', 'bytes 1-2/*', 'bytes */5', 'foo a b',
                      'x '],
    'If-Range': ['W/"a"', '"b"', DATE],
    'Age': ['10', '0'],
    'Cache-Control': ['no-store, max-age=10', ',foo="bar",x=y'],
    'Expires': [DATE, ASCTIME],
    'Pragma': ['no-cache, a=b', 'foo="x",y', 'no-cachE=1'],
    'Warning': ['199 a:8 "b"', '110 - "x\\"" "%s"' % DATE,
                '214 [::1] "",', ',299 b "c"'],
    'WWW-Authenticate': ['Basic realm="a"', 'a b=c, D e = "f",g', 'x ab+/==',
                         ',Digest a=b,c=d,'],
    'Proxy-Authenticate': ['Basic realm="a"', 'a  b~=='],
    'Authorization': ['Basic YTpi', 'a b=c, d="e"', 'x  '],
    'Proxy-Authorization': ['Basic YTpi', 'd e="f",'],
    # extensions
    'Accept-Patch': ['a/b, c/d;e=f', ',a/b,'],
    'Accept-Post': ['*/*, a/*;b=c', ',a/b;q=1'],
    'Content-Disposition': ['attachment; filename="a"',
                            "a;filename*=UTF-8'en'%41b", 'x ; y = z',
                            "b; filename*=x''"],
    'Strict-Transport-Security': ['max-age=1; includeSubDomains', ';a="b";',
                                  'max-age = "1" ;x'],
    'Forwarded': ['for=a;by=_b,host="c"', ';proto=http;', 'for="[::1]:80"'],
    'Prefer': ['wait=10, a; b=c', 'respond-async;', 'x="";y, handling=strict'],
    'Preference-Applied': ['wait=10, a', 'foo="b"'],
    'HTTP2-Settings': ['AAMAAABk==', 'a-_~+/.'],
    'Alt-Svc': ['clear', 'h2=":443"; ma=5', 'h3="a:8";persist=1, b=":1"',
                'w%3Dx=":0"'],
    'Alt-Used': ['a:80', '[::1]'],
    'Link': ['<a>; rel=b', '</x>;rel="n a:b" ;c = d, <>', '<a:b#c>; title="x"',
             "<>;title*=UTF-8''a;anchor=\"#f\";rel=x", '<a>;hreflang=en;rel=y'],
    'Origin': ['http://a:80', 'null', 'x://[::1]'],
    'Access-Control-Request-Method': ['GET'],
    'Access-Control-Request-Headers': ['Foo, bar', ',a'],
    'Access-Control-Allow-Origin': ['*', 'http://a:80', 'null'],
    'Access-Control-Allow-Credentials': ['true'],
    'Access-Control-Expose-Headers': ['Foo, bar', ',a', '*'],
    'Access-Control-Max-Age': ['600'],
    'Access-Control-Allow-Methods': ['GET, PUT', ',a'],
    'Access-Control-Allow-Headers': ['Foo, bar', ',a'],
    'X-Content-Type-Options': ['nosniff'],
    'Cross-Origin-Resource-Policy': ['same-origin', 'same-site'],
    'HTTPolice-Silence': ['1000, 1001 resp', ',1 \tresp,'],
}

G10 = ['Transfer-Encoding', 'TE', 'Trailer', 'Host', 'Connection', 'Upgrade',
       'Via', 'Content-Length']
G11 = ['Content-Type', 'User-Agent', 'Server', 'Accept', 'Accept-Charset',
       'Accept-Encoding', 'Accept-Language', 'Retry-After', 'Allow',
       'Content-Encoding', 'Max-Forwards', 'Vary', 'Expect',
       'Content-Language', 'Content-Location', 'Location', 'Referer']
G12 = ['ETag', 'If-Match', 'If-None-Match', 'Accept-Ranges', 'Range',
       'Content-Range', 'If-Range', 'Age', 'Cache-Control', 'Pragma',
       'Warning', 'WWW-Authenticate', 'Proxy-Authenticate', 'Authorization',
       'Proxy-Authorization']
G14 = ['Date', 'Last-Modified', 'If-Modified-Since', 'If-Unmodified-Since',
       'Expires']
G13 = [h for h in SAMPLES if h not in G10 + G11 + G12 + G14]
