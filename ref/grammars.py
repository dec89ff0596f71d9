"""The header grammars, transcribed from the specifications (not from
HTTPolice's syntax modules).  Where the prose of a specification gives some
names a grammar of their own, the generic alternative excludes them, written
with `!` (see ref/abnf.py)."""

from ref.abnf import Grammar

CORE = r'''
ALPHA = %x41-5A / %x61-7A
DIGIT = %x30-39
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
SP = %x20
HTAB = %x09
DQUOTE = %x22
VCHAR = %x21-7E
CHAR = %x01-7F
'''

RFC3986 = r'''
pct-encoded = "%" HEXDIG HEXDIG
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
unreserved = ALPHA / DIGIT / "-" / "." / "_" / %x7E
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
segment = *pchar
segment-nz = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT
    / "25" %x30-35
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
h16 = 1*4HEXDIG
ls32 = h16 ":" h16 / IPv4address
IPv6address = 6( h16 ":" ) ls32
    / "::" 5( h16 ":" ) ls32
    / [ h16 ] "::" 4( h16 ":" ) ls32
    / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32
    / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32
    / [ *3( h16 ":" ) h16 ] "::" h16 ":" ls32
    / [ *4( h16 ":" ) h16 ] "::" ls32
    / [ *5( h16 ":" ) h16 ] "::" h16
    / [ *6( h16 ":" ) h16 ] "::"
IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
ZoneID = 1*( unreserved / pct-encoded )
IPv6addrz = IPv6address "%25" ZoneID
IP-literal = "[" ( IPv6address / IPv6addrz / IPvFuture ) "]"
reg-name = *( unreserved / pct-encoded / sub-delims )
host = IP-literal / IPv4address / reg-name
port = *DIGIT
authority = [ userinfo "@" ] host [ ":" port ]
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
hier-part = [ "//" authority path-abempty / path-absolute / path-rootless ]
relative-part = [ "//" authority path-abempty / path-absolute
    / path-noscheme ]
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
absolute-URI = scheme ":" hier-part [ "?" query ]
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
relative-ref = relative-part [ "?" query ] [ "#" fragment ]
URI-reference = URI / relative-ref
'''

RFC7230 = r'''
obs-text = %x80-FF
tchar = "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "." / "^"
    / "_" / %x60 / "|" / %x7E / DIGIT / ALPHA
token = 1*tchar
quoted-pair = "\" ( HTAB / SP / VCHAR / obs-text )
qdtext = HTAB / SP / %x21 / %x23-5B / %x5D-7E / obs-text
quoted-string = DQUOTE *( qdtext / quoted-pair ) DQUOTE
ctext = HTAB / SP / %x21-27 / %x2A-5B / %x5D-7E / obs-text
comment = "(" *( ctext / quoted-pair / comment ) ")"
OWS = *( SP / HTAB )
RWS = 1*( SP / HTAB )
BWS = OWS
uri-host = host
absolute-path = 1*( "/" segment )
partial-URI = relative-part [ "?" query ]
origin-form = absolute-path [ "?" query ]
absolute-form = absolute-URI
authority-form = authority
asterisk-form = "*"
request-target = origin-form / absolute-form / authority-form / asterisk-form
method = token
field-name = token
reason-phrase = *( HTAB / SP / VCHAR / obs-text )
transfer-parameter = token BWS "=" BWS ( token / quoted-string )
built-in-coding = "chunked" / "compress" / "deflate" / "gzip"
transfer-coding = built-in-coding
    / token ! built-in-coding *( OWS ";" OWS transfer-parameter )
Transfer-Encoding = 1#transfer-coding
rank = "0" [ "." *3DIGIT ] / "1" [ "." *3"0" ]
t-ranking = OWS ";" OWS "q=" rank
te-parameter = token ! "q" BWS "=" BWS ( token / quoted-string )
te-coding = built-in-coding
    / token ! ( built-in-coding / "trailers" ) *( OWS ";" OWS te-parameter )
t-codings = "trailers" / te-coding [ t-ranking ]
TE = #t-codings
Trailer = 1#field-name
Host = uri-host [ ":" port ]
Connection = 1#token
protocol = token [ "/" token ]
Upgrade = 1#protocol
received-protocol = [ token "/" ] token
received-by = uri-host [ ":" port ] / token
Via = 1#( received-protocol RWS received-by [ RWS comment ] )
Content-Length = 1*DIGIT
'''

RFC7231 = r'''
parameter = token "=" ( token / quoted-string )
media-type = token "/" token *( OWS ";" OWS parameter )
Content-Type = media-type
product = token [ "/" token ]
User-Agent = product *( RWS ( product / comment ) )
Server = product *( RWS ( product / comment ) )
day-name = %s"Mon" / %s"Tue" / %s"Wed" / %s"Thu" / %s"Fri" / %s"Sat" / %s"Sun"
day-name-l = %s"Monday" / %s"Tuesday" / %s"Wednesday" / %s"Thursday"
    / %s"Friday" / %s"Saturday" / %s"Sunday"
month = %s"Jan" / %s"Feb" / %s"Mar" / %s"Apr" / %s"May" / %s"Jun" / %s"Jul"
    / %s"Aug" / %s"Sep" / %s"Oct" / %s"Nov" / %s"Dec"
GMT = %s"GMT"
time-of-day = 2DIGIT ":" 2DIGIT ":" 2DIGIT
date1 = 2DIGIT SP month SP 4DIGIT
IMF-fixdate = day-name "," SP date1 SP time-of-day SP GMT
date2 = 2DIGIT "-" month "-" 2DIGIT
rfc850-date = day-name-l "," SP date2 SP time-of-day SP GMT
date3 = month SP ( 2DIGIT / SP DIGIT )
asctime-date = day-name SP date3 SP time-of-day SP 4DIGIT
HTTP-date = IMF-fixdate / rfc850-date / asctime-date
Date = HTTP-date
qvalue = "0" [ "." *3DIGIT ] / "1" [ "." *3"0" ]
weight = OWS ";" OWS "q=" qvalue
range-type = "*/*" / token "/*" / token "/" token
media-range-q = range-type *( OWS ";" OWS ( parameter ) )
media-range = range-type
    *( OWS ";" OWS token ! "q" "=" ( token / quoted-string ) )
accept-ext = OWS ";" OWS token [ "=" ( token / quoted-string ) ]
Accept = #( media-range [ weight *accept-ext ] )
Accept-Charset = 1#( ( token / "*" ) [ weight ] )
Accept-Encoding = #( token [ weight ] )
alphanum = ALPHA / DIGIT
language-range = 1*8ALPHA *( "-" 1*8alphanum ) / "*"
Accept-Language = 1#( language-range [ weight ] )
Retry-After = HTTP-date / 1*DIGIT
Allow = #method
Content-Encoding = 1#token
Content-Location = absolute-URI / partial-URI
Location = URI-reference
Max-Forwards = 1*DIGIT
Referer = absolute-URI / partial-URI
Vary = "*" / 1#field-name
Expect = "100-continue"
'''

RFC5646 = r'''
singleton = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
extlang = 3ALPHA *2( "-" 3ALPHA )
language = 2*3ALPHA [ "-" extlang ] / 4ALPHA / 5*8ALPHA
script = 4ALPHA
region = 2ALPHA / 3DIGIT
variant = 5*8alphanum / DIGIT 3alphanum
extension = singleton 1*( "-" 2*8alphanum )
privateuse = "x" 1*( "-" 1*8alphanum )
langtag = language [ "-" script ] [ "-" region ] *( "-" variant )
    *( "-" extension ) [ "-" privateuse ]
irregular = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian"
    / "i-hak" / "i-klingon" / "i-lux" / "i-mingo" / "i-navajo" / "i-pwn"
    / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE"
regular = "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu"
    / "zh-hakka" / "zh-min" / "zh-min-nan" / "zh-xiang"
Language-Tag = langtag / privateuse / irregular / regular
Content-Language = 1#Language-Tag
'''

RFC723X = r'''
opaque-tag = DQUOTE *( %x21 / %x23-7E / obs-text ) DQUOTE
entity-tag = [ %s"W/" ] opaque-tag
ETag = entity-tag
Last-Modified = HTTP-date
If-Match = "*" / 1#entity-tag
If-None-Match = "*" / 1#entity-tag
If-Modified-Since = HTTP-date
If-Unmodified-Since = HTTP-date
Accept-Ranges = 1#token
byte-range-spec = 1*DIGIT "-" *DIGIT
suffix-byte-range-spec = "-" 1*DIGIT
Range = "bytes=" 1#( byte-range-spec / suffix-byte-range-spec )
    / token ! "bytes" "=" 1*VCHAR
Content-Range = "bytes" SP ( 1*DIGIT "-" 1*DIGIT "/" ( 1*DIGIT / "*" )
    / "*/" 1*DIGIT )
    / token ! "bytes" SP *CHAR
If-Range = entity-tag / HTTP-date
Age = 1*DIGIT
Cache-Control = 1#( token [ "=" ( token / quoted-string ) ] )
Expires = HTTP-date
Pragma = 1#( "no-cache" / token ! "no-cache" [ "=" ( token / quoted-string ) ] )
warn-agent = uri-host [ ":" port ] / token
warning-value = 3DIGIT SP warn-agent SP quoted-string
    [ SP DQUOTE HTTP-date DQUOTE ]
Warning = 1#warning-value
token68 = 1*( ALPHA / DIGIT / "-" / "." / "_" / %x7E / "+" / "/" ) *"="
auth-param = token BWS "=" BWS ( token / quoted-string )
challenge = token [ 1*SP ( token68 / #auth-param ) ]
WWW-Authenticate = 1#challenge
Proxy-Authenticate = 1#challenge
Authorization = challenge
Proxy-Authorization = challenge
'''

EXT = r'''
Accept-Patch = 1#media-type
Accept-Post = #media-range-q
attr-char = ALPHA / DIGIT / "!" / "#" / "$" / "&" / "+" / "-" / "." / "^"
    / "_" / %x60 / "|" / %x7E
mime-charset = 1*( ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "+" / "-"
    / "^" / "_" / %x60 / "{" / "}" / %x7E )
ext-value = mime-charset "'" [ Language-Tag ] "'" *( pct-encoded / attr-char )
disposition-parm = "filename" OWS "=" OWS ( token / quoted-string )
    / "filename*" OWS "=" OWS ext-value
    / token ! ( "filename" / "filename*" ) OWS "=" OWS
      ( token / quoted-string )
Content-Disposition = token *( OWS ";" OWS disposition-parm )
directive = token [ OWS "=" OWS ( token / quoted-string ) ]
Strict-Transport-Security = [ directive ] *( OWS ";" OWS [ directive ] )
forwarded-pair = token "=" ( token / quoted-string )
forwarded-element = [ forwarded-pair ] *( ";" [ forwarded-pair ] )
Forwarded = 1#forwarded-element
preference-parameter = parameter / token
preference = preference-parameter
    *( OWS ";" [ OWS preference-parameter ] )
Prefer = 1#preference
Preference-Applied = 1#preference-parameter
HTTP2-Settings = token68
alt-value = token "=" quoted-string *( OWS ";" OWS parameter )
Alt-Svc = %s"clear" / 1#alt-value
Alt-Used = uri-host [ ":" port ]
link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
link-value = "<" URI-reference ">" *( OWS ";" OWS link-param )
Link = #link-value
origin-or-null = scheme "://" host [ ":" port ] / %s"null"
Origin = origin-or-null
Access-Control-Request-Method = method
Access-Control-Request-Headers = 1#field-name
Access-Control-Allow-Origin = origin-or-null / "*"
Access-Control-Allow-Credentials = %s"true"
Access-Control-Expose-Headers = #field-name
Access-Control-Max-Age = 1*DIGIT
Access-Control-Allow-Methods = #method
Access-Control-Allow-Headers = #field-name
X-Content-Type-Options = "nosniff"
Cross-Origin-Resource-Policy = %s"same-origin" / %s"same-site"
HTTPolice-Silence = #( 1*DIGIT [ RWS "resp" ] )
forwarded-node = ( IPv4address / "[" IPv6address "]" / "unknown" / obfnode )
    [ ":" ( 1*5DIGIT / obfnode ) ]
obfnode = "_" 1*( ALPHA / DIGIT / "." / "_" / "-" )
alt-authority = [ uri-host ] ":" port
restricted-name = ( ALPHA / DIGIT ) *126( ALPHA / DIGIT / "!" / "#" / "$"
    / "&" / "-" / "^" / "_" / "." / "+" )
link-type = restricted-name "/" restricted-name
reg-rel-type = %x61-7A *( %x61-7A / DIGIT / "." / "-" )
relation-types = ( reg-rel-type / URI ) *( 1*SP ( reg-rel-type / URI ) )
'''

GRAMMAR = Grammar(CORE, RFC3986, RFC7230, RFC7231, RFC5646, RFC723X, EXT)
# RFC 7230's own text of the list rule, where erratum 5257 extends it.
GRAMMAR_ORIGINAL = Grammar(CORE, RFC3986, RFC7230, RFC7231, RFC5646, RFC723X,
                           EXT, original_lists=True)
# The list rule with whitespace after elements, which cannot be at the end of
# a field value.
GRAMMAR_SPACED = Grammar(CORE, RFC3986, RFC7230, RFC7231, RFC5646, RFC723X,
                         EXT, original_lists='spaced')
