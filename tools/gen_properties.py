"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=list(state),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


EX = ['notices on the request, response and exchange objects']

# ---------------------------------------------------------------- framing
p('F01', 'Start lines and header fields are split exactly as RFC 7230 says',
  'For every HTTP/1.x stream, each reported request line (method, target, version), status line (version, status, reason) and header field (name, value) is exactly the part of the input that RFC 7230 sections 3.1 and 3.2 delimit: optional whitespace around values removed, continuation lines joined with one space (and notice 1016), header lines ended by CRLF or by a bare LF (notice 1224). '
  'A start line that is not three parts separated by single spaces with a valid HTTP-version (and, in a response, a status code of three digits), a header line without a colon, or a heading that is not ended by an empty line produces no message, only notice 1006 (request) or 1009 (response). (Malformed methods, targets and field names inside such lines are separate notices.)',
  'inputs', 'all byte values at every position of a request or status line and of header lines, within the stated lengths',
  'The tests parse about 500 fixed files; no test varies the bytes of the start line or of a field line, so an off-by-one in whitespace handling or a wrong class of accepted bytes shows only on inputs nobody wrote down.',
  'httpolice/framing1.py httpolice/stream.py httpolice/syntax/rfc7230.py',
  [('heading parsers', 'httpolice/framing1.py _parse_request_heading, _parse_response_heading, parse_header_fields'),
   ('line reader', 'httpolice/stream.py readline')],
  ['method, target, version, status, reason, header entries of the exchanges yielded for a pair of byte streams'])
p('F02', 'Message bodies are delimited by the RFC 7230 section 3.3.3 rules',
  'For every combination of request method, status code, Transfer-Encoding and Content-Length (including absent and malformed ones; of repeated Content-Length fields the last counts, and 1013 is reported), the bytes attributed to a message body, and the position where the next message starts, are those RFC 7230 section 3.3.3 prescribes: no body for HEAD, 1xx, 204, 304 and 2xx-to-CONNECT responses, chunked before Content-Length, Content-Length bytes otherwise, and for responses everything up to the end of the stream. '
  'When the framing cannot be determined or data ends early, the body is reported as unavailable with the matching notice (1001-1005, 1298) and nothing after it on that stream is interpreted as a message.',
  'inputs', 'all status codes, method classes, Transfer-Encoding/Content-Length presence and values, and stream lengths shorter or longer than announced',
  'The combination of method, status, two headers and available bytes is a product of which the fixed test files sample a few dozen points.',
  'httpolice/framing1.py httpolice/stream.py httpolice/codings.py',
  [('request body', 'httpolice/framing1.py _parse_request_body'), ('response body', 'httpolice/framing1.py _parse_response_body'), ('_process_content_length', 'httpolice/framing1.py')],
  ['body and notices of each message; where the following message starts'])
p('F03', 'Chunked bodies decode exactly, and malformed chunks are never accepted',
  'For every byte string, a chunked body is decoded to the concatenation of its chunk data precisely when it matches the chunked-body grammar of RFC 7230 section 4.1 (chunk-size being one or more hexadecimal digits, optional chunk extensions, CRLF after the data, a trailer part and a final empty line). '
  'Any other byte string makes the body unavailable with notice 1005, never a different body, a hang or an exception.',
  'inputs', 'all byte strings in the position of a chunked body, within the stated length',
  'The tests contain a handful of well-formed and broken chunked bodies; the accepted language of chunk-size lines is only visible over all byte values.',
  'httpolice/framing1.py httpolice/syntax/rfc7230.py httpolice/stream.py',
  [('_parse_chunk', 'httpolice/framing1.py'), ('_parse_chunked', 'httpolice/framing1.py')],
  ['body, trailer entries and notices of a message with Transfer-Encoding: chunked'])
p('F04', 'Pipelined requests and responses are paired in order',
  'For every sequence of requests on one stream and responses on the other, the n-th request is paired with the n-th final response together with all interim (1xx other than 101) responses that precede that final response, and surplus responses form exchanges without a request, reported with 1008-family notices only where documented. '
  'After a 101 response, or a successful response to CONNECT, no further bytes of either stream are interpreted as HTTP/1.x messages.',
  'histories inputs', 'all sequences of up to four requests and responses with arbitrary status codes and method classes',
  'Pairing depends on the whole history of a connection; the tests fix a few histories.',
  'httpolice/framing1.py', [('parse_streams', 'httpolice/framing1.py'), ('_parse_requests / _parse_responses', 'httpolice/framing1.py')],
  ['list of exchanges for two streams'])
p('F05', 'No input byte disappears without being reported',
  'For every pair of byte streams, each byte is either part of a reported message (start line, header fields, body framing) or covered by a notice that says the rest of that stream was not understood or not expected (1006, 1007, 1009, 1010, 1011, 1012, 1298 and the body-framing notices). '
  'A stream consisting only of complete messages gets none of these notices, and a message cut off at any byte is never reported as if it were complete.',
  'inputs crash_points', 'every truncation point and every appended garbage suffix of a stream',
  'Truncation at every byte of every message is a crash-point quantifier; tests contain a few truncated files.',
  'httpolice/framing1.py httpolice/stream.py', [('parse_streams end-of-stream handling', 'httpolice/framing1.py'), ('Stream.eof / sane', 'httpolice/stream.py')],
  ['exchanges and notices for two streams'])
p('F06', 'Line and body size limits apply exactly at their documented values',
  'A heading or chunk line of more than 16 KiB (line end included) is reported as a framing error and a shorter one is not; a body announced as larger than 1 GiB is reported with 1298 without being read, and one of exactly 1 GiB or less is not refused. '
  'The limits hold for every value, including numbers with leading zeros and numbers too large for a machine word.',
  'inputs', 'all line lengths around the limit and all Content-Length or chunk-size values up to 20 digits',
  'No test places a length exactly on either side of a limit.',
  'httpolice/stream.py httpolice/framing1.py', [('max_line_length', 'httpolice/stream.py'), ('MAX_BODY_SIZE', 'httpolice/framing1.py')],
  ['notices 1005, 1006, 1009, 1298'])

# ---------------------------------------------------------------- parser engine
p('G01', 'The parser accepts exactly the strings its grammar derives',
  'For every context-free grammar written with the parser combinators (sequence, alternation, repetition with bounds, optional parts, recursion, case-insensitive literals, exclusions, ambiguity and nullable parts) and every input, parsing succeeds if and only if the grammar derives the whole input, and it terminates. '
  'The value returned is one that the grammar\'s semantic actions assign to a derivation of that input.',
  'programs inputs', 'a family of grammars covering every combinator and all byte strings up to the stated length',
  'Unit tests of the parser check a few dozen strings on fixed grammars; completeness of Earley parsing with nullable and ambiguous rules is a statement about all grammars and inputs.',
  'httpolice/parse.py', [('Earley chart', 'httpolice/parse.py _inner_parse, _add_item'), ('result reconstruction', 'httpolice/parse.py _find_results'), ('combinators', 'httpolice/parse.py')],
  ['success or failure of a parse and its value'])
p('G02', 'A syntax error points at the first byte that cannot be right',
  'When a value fails to parse, the reported position is the length of the longest prefix that some valid value starts with (or the end of data when the whole input is such a prefix), the reported found character is the one at that position, and the reported expectations are exactly the characters (and "end of data") with which a valid value could continue there.',
  'inputs', 'all invalid byte strings up to the stated length for representative grammars',
  'Tests assert notice ids, hardly ever positions or expectations.',
  'httpolice/parse.py httpolice/util/text.py', [('_build_parse_error', 'httpolice/parse.py'), ('format_chars', 'httpolice/util/text.py')],
  ['position, found and expected of syntax notices'])
p('G03', 'Parsing the same value twice gives the same result and the same notices',
  'Whatever was parsed before, in whatever order and however many times, the parsed value, the syntax error and the notices reported for a given value and grammar symbol depend only on that value and symbol. '
  'In particular the notices that parsing itself produces are reported for every occurrence of the value, not just the first.',
  'histories inputs', 'all short sequences of parse calls over symbolic values that may or may not be equal, including overflow of the cache',
  'The cache makes results depend on process history; every test starts from whatever history the previous tests left and none compares two histories.',
  'httpolice/parse.py', [('memoisation of parse results', 'httpolice/parse.py parse')], ['values and notices from repeated parses'],
  [dict(name='parse cache', meaning='results of earlier parses', where='httpolice/parse.py _memo')])
p('G04', 'Annotations re-join to exactly the annotated text',
  'For every header value, the annotated pieces shown in reports concatenate to exactly that value, and every annotated piece is the text from which the annotated element was parsed.',
  'inputs', 'all header values up to the stated length for annotated header fields',
  'HTML report tests check that generation does not fail, not what is displayed.',
  'httpolice/parse.py httpolice/reports/html.py', [('_splice_annotations', 'httpolice/parse.py')], ['annotated header entries'])

# ---------------------------------------------------------------- grammar conformance
gr_why = 'A grammar bug that accepts or rejects one extra byte class, repetition or empty list element shows only on strings nobody listed; tests try a few strings per header.'
gq = 'all byte strings up to the stated length, and templates with symbolic bytes for longer constructs'
p('G10', 'Core message syntax accepts exactly what RFC 7230 and RFC 3986 allow',
  'For every byte string, a method, request target (in each of its four forms), HTTP version, reason phrase, field name, and the Host, Connection, Content-Length, TE, Transfer-Encoding, Trailer, Upgrade and Via values are accepted if and only if the ABNF of RFC 7230 (with errata, and RFC 3986 for URIs) generates them, list headers tolerating empty elements as section 7 requires.',
  'inputs', gq, gr_why, 'httpolice/syntax/rfc7230.py httpolice/syntax/rfc3986.py httpolice/syntax/common.py httpolice/known/header.csv',
  [('grammar symbols', 'httpolice/syntax/rfc7230.py, httpolice/syntax/rfc3986.py')], ['syntax notices 1000, 1045, 1292, 1293, 1294'])
p('G11', 'Semantics and content headers accept exactly what RFC 7231 allows',
  'For every byte string, the Accept family, Allow, Content-Encoding, Content-Language, Content-Location, Content-Type, Expect, Location, Max-Forwards, Referer, Retry-After (seconds), Server, User-Agent and Vary values are accepted if and only if the ABNF of RFC 7231 (and the language-tag, language-range and URI grammars it refers to) generates them.',
  'inputs', gq, gr_why, 'httpolice/syntax/rfc7231.py httpolice/syntax/rfc5646.py httpolice/syntax/rfc4647.py httpolice/syntax/rfc5322.py',
  [('grammar symbols', 'httpolice/syntax/rfc7231.py')], ['notice 1000'])
p('G12', 'Conditional, range, cache and auth headers follow RFC 7232 to RFC 7235',
  'For every byte string, the If-Match, If-None-Match, If-Range (entity tags), ETag, Range, Content-Range, Accept-Ranges, Age, Cache-Control, Pragma, Warning, Authorization, Proxy-Authorization, WWW-Authenticate and Proxy-Authenticate values are accepted if and only if the ABNF of RFC 7232, 7233, 7234 and 7235 (with errata) generates them.',
  'inputs', gq, gr_why, 'httpolice/syntax/rfc7232.py httpolice/syntax/rfc7233.py httpolice/syntax/rfc7234.py httpolice/syntax/rfc7235.py',
  [('grammar symbols', 'httpolice/syntax/rfc7232.py ... rfc7235.py')], ['notice 1000'])
p('G13', 'Extension headers accept exactly what their own RFCs allow',
  'For every byte string, the values of Content-Disposition, Strict-Transport-Security, Link, Prefer, Preference-Applied, Forwarded, Alt-Svc, Accept-Patch, Accept-Post, HTTP2-Settings, the CORS headers and the RFC 8187 extended parameter values are accepted if and only if the grammar of the specification that defines the header generates them.',
  'inputs', gq, gr_why, 'httpolice/syntax/rfc6266.py httpolice/syntax/rfc6797.py httpolice/syntax/rfc8288.py httpolice/syntax/rfc7240.py httpolice/syntax/rfc7239.py httpolice/syntax/rfc7838.py httpolice/syntax/rfc5789.py httpolice/syntax/rfc8187.py httpolice/syntax/whatwg_fetch.py httpolice/syntax/w3c_ldp.py httpolice/syntax/rfc7540.py',
  [('grammar symbols', 'httpolice/syntax/*.py')], ['notice 1000 and header-specific syntax notices'])
p('G14', 'HTTP dates denote the right instant and bad dates are flagged',
  'For every string in one of the three HTTP-date formats, the parsed value is the instant it denotes (two-digit years meaning 19xx), an impossible calendar date gets notice 1222 and an impossible time 1223, a wrong weekday gets 1108, and an obsolete format gets 1107, each exactly when the condition holds. '
  'Strings in no format are rejected.',
  'inputs', 'all digit and name combinations of the three formats, and all strings differing from them in a few bytes',
  'Tests use a handful of dates; calendar arithmetic goes wrong at particular years, months and weekdays.',
  'httpolice/syntax/rfc7231.py', [('date actions', 'httpolice/syntax/rfc7231.py')], ['value of date headers, notices 1107, 1108, 1222, 1223'])
p('G15', 'Parsed header values carry exactly what the text says',
  'For every accepted value, the structured result contains the elements in their order of appearance with quoting and escapes removed, numbers equal to their decimal value, quality values equal to their decimal value, parameter names compared case-insensitively, and duplicate parameters preserved. '
  'The quoted and token forms of the same parameter value give equal results.',
  'inputs', 'all values with symbolic bytes in each slot of each structured header',
  'Tests assert notices caused by values, seldom the values; an action that drops or swaps an element is invisible for most inputs.',
  'httpolice/syntax/rfc7230.py httpolice/syntax/rfc7231.py httpolice/syntax/rfc7234.py httpolice/syntax/rfc7233.py httpolice/syntax/rfc7235.py httpolice/syntax/rfc8187.py httpolice/structure.py',
  [('semantic actions', 'httpolice/syntax/*.py')], ['value of each header view'])

p('G16', 'Style notices about header values are exact',
  'For every well-formed value of a structured header, the notices about how it is written are reported exactly when it is written that way: needless whitespace (1014, 1015), needlessly escaped characters (1017), backslashes in entity tags (1119), inverted or inconsistent ranges (1133, 1148), empty list elements (1151), an unquoted realm (1196), unquoted or quoted Link parameters and duplicate or missing or obsolete ones (1158, 1225, 1226, 1307-1309), charsets and characters in extended values (1253, 1254), unnormalised or malformed Alt-Svc values (1256, 1257), misnamed media types (1282), delimiters inside quoted strings (1299, 1300).',
  'inputs', 'values of 50 fields assembled from their parts with symbolic bytes',
  'Each of these notices is tested on one or two values; whether it also fires on other values, or is missing in another header that shares the rule, is only visible over all of them.',
  'httpolice/syntax/common.py httpolice/syntax/rfc7230.py httpolice/syntax/rfc7233.py httpolice/syntax/rfc7235.py httpolice/syntax/rfc7838.py httpolice/syntax/rfc8187.py httpolice/syntax/rfc8288.py httpolice/parse.py',
  [('semantic actions that complain', 'httpolice/syntax/*.py')], EX)

# ---------------------------------------------------------------- values, headers
p('V01', 'Protocol values compare by the rules of the protocol',
  'Field names, methods, tokens and structured values compare as their specification says: case-insensitive names equal whatever their letter case, case-sensitive ones only when identical, parametrized values equal to their bare item, entity tags under strong and weak comparison as in RFC 7232 section 2.3.2. '
  'Equality is reflexive and symmetric, inequality is its negation, and equal values have equal hashes.',
  'inputs', 'all pairs of short strings (all byte values) for each value class, and all pairs of structured values over them',
  'Consistency of equality, inequality and hash is a property of all pairs of values; tests compare literals.',
  'httpolice/structure.py', [('__eq__/__ne__/__hash__', 'httpolice/structure.py')], ['comparison results'])
p('V02', 'Repeated header fields are combined as their definition requires',
  'For every multiset of header entries, a list-valued header yields the elements of all its entries in order, a single-valued header that occurs more than once is reported with 1013 exactly once and yields its last entry, and unknown headers are joined with commas; presence, absence and validity of a header answer consistently with that value. '
  'Header names select entries irrespective of letter case and of other headers in between.',
  'inputs histories', 'all sequences of up to four entries with symbolic names and values',
  'The tests use fixed header blocks; interleavings of repeated, malformed and trailer entries are not enumerated.',
  'httpolice/header.py', [('HeadersView', 'httpolice/header.py'), ('SingleHeaderView/MultiHeaderView', 'httpolice/header.py')], ['headers view, notices 1000, 1013'])
p('V03', 'Directive arguments are validated and defaulted as defined',
  'For every list of directives in Cache-Control, Strict-Transport-Security, Alt-Svc, Prefer and Forwarded, an argument that is required, forbidden or malformed produces exactly notice 1156, 1157 or 1158 for that directive, and looking a directive up returns its parsed argument, "present without argument", or absence accordingly, the first occurrence winning where the specification says so.',
  'inputs', 'all directive names with and without arguments, with symbolic argument bytes, in lists of up to three',
  'Presence/argument combinations of thirty directives are not enumerated by tests.',
  'httpolice/header.py httpolice/known/__init__.py', [('DirectivesView', 'httpolice/header.py'), ('argument knowledge', 'httpolice/known')], ['notices 1156, 1157, 1158 and directive values'])
p('V04', 'Trailer fields never override framing, routing or control headers',
  'For every message with a trailer part, trailer fields contribute to header values only when the field is allowed in trailers; a forbidden one is reported with 1026 exactly once per entry and counts as absent for the value, presence and validity of that header (and for message framing), and each trailer field not announced in Trailer gets 1030.',
  'inputs', 'every known header placed in the header part, the trailer part or both',
  'Only a few headers are tried in trailers.',
  'httpolice/header.py httpolice/message.py httpolice/known/header.csv', [('trailer filtering', 'httpolice/header.py')], ['notices 1026, 1030, header values'])

# ---------------------------------------------------------------- notices & reports
p('N01', 'Silenced notices vanish and nothing else does',
  'For every set of silenced notice ids, given through the API, the command line or an HTTPolice-Silence header, exactly the notices with those ids disappear from the object they apply to and its children; with the "resp" keyword a request header silences the response only, and without it the request only. '
  'Silencing never hides, adds or reorders any other notice, whenever it is applied.',
  'inputs histories', 'all silence sets and placements over symbolic notice ids, before and after checking',
  'The tests silence a few fixed ids.',
  'httpolice/blackboard.py httpolice/exchange.py httpolice/request.py httpolice/response.py httpolice/header.py httpolice/syntax/internal.py', [('silence', 'httpolice/blackboard.py'), ('HTTPolice-Silence', 'httpolice/syntax/internal.py')], EX)
p('N02', 'Identical notices are reported once, distinct ones all, in order',
  'For every sequence of complaints on an object, the visible notices are those complaints in order of first occurrence with exact repetitions removed, regardless of context contents, and each carries the id, severity and title documented for it.',
  'histories inputs', 'all sequences of up to four complaints over symbolic ids and contexts',
  'Deduplication depends on the history of complaints and on equality of arbitrary context values.',
  'httpolice/blackboard.py httpolice/notice.py', [('complain', 'httpolice/blackboard.py')], ['notices list'])
p('N03', 'The exit status reflects the most severe visible notice',
  'For every set of reported notices, silenced ids and --fail-on threshold, the command exits with a non-zero status exactly when input could not be read or some notice that was not silenced has at least the threshold severity, and the report is complete in either case.',
  'inputs configurations', 'all severities of visible and silenced notices crossed with all thresholds and option sets',
  'Tests run the command for a few files.',
  'httpolice/cli.py httpolice/util/ordered_enum.py httpolice/reports/common.py', [('run_cli', 'httpolice/cli.py'), ('severity ordering', 'httpolice/util/ordered_enum.py')], ['exit status'])
p('N04', 'Text reports print one well-formed line per notice',
  'For every list of exchanges, the text report contains one heading line per message and exactly one line per visible notice, beginning with its severity letter and id, in a stable order, whatever bytes the methods, targets, reasons, header names and values contain. '
  'No input can make the report contain an extra line that looks like a heading or a notice.',
  'inputs', 'all characters in every string that is echoed in a report',
  'The documented use (grep on reports) relies on line structure; tests do not put control characters into echoed strings.',
  'httpolice/reports/text.py httpolice/reports/common.py httpolice/util/text.py httpolice/notice.py', [('text_report', 'httpolice/reports/text.py'), ('printable/ellipsize', 'httpolice/util/text.py')], ['text report output'])
p('N05', 'HTML reports never let input become markup',
  'For every message content, text taken from the input appears in the HTML report only as character data or quoted attribute values that a browser decodes back to the (printable form of the) input, never as markup, script or a foreign URL scheme.',
  'inputs', 'all characters in every string that is echoed in the HTML report',
  'Escaping must hold for all strings at all interpolation points; tests only check that rendering works.',
  'httpolice/reports/html.py httpolice/notice.py httpolice/citation.py', [('html_report', 'httpolice/reports/html.py')], ['HTML report output'])
p('N06', 'Text shown to the user is faithful and printable',
  'For every string, the printable form replaces exactly the control characters with U+FFFD and keeps everything else, shortening keeps a prefix within the limit and marks the cut, character descriptions list exactly the given characters, and joined lists read with the separators in the right places.',
  'inputs', 'all strings and character sets up to the stated size',
  'These helpers feed every report; tests cover single examples.',
  'httpolice/util/text.py httpolice/util/data.py', [('text utilities', 'httpolice/util/text.py')], ['helper results'])

p('N07', 'Previews of message bodies are faithful and say what was done',
  'For every message, the body shown in an HTML report is the content decoded in its charset (UTF-8 unless declared; if that is impossible, decoded as UTF-8 with each invalid sequence replaced by U+FFFD; if Content-Encoding cannot be removed, the payload as it was transferred, likewise decoded as UTF-8), or, for complete JSON content, an indented rendering of the same JSON value; at most its first 1000 characters are shown, and every non-printable character is replaced by U+FFFD. '
  'The heading over the preview names exactly the steps that were taken, in this order: removing Transfer-Encoding, removing Content-Encoding, decoding from a charset other than UTF-8, pretty-printing, cutting, replacing. An unknown body, an unavailable body and an empty body are never confused.',
  'inputs', 'all bodies of the stated lengths, also around the limit, under the listed charsets, codings and media types',
  'Previews are not asserted by the tests, which only make sure that reports render.',
  'httpolice/message.py httpolice/reports/html.py httpolice/util/text.py',
  [('displayable_body', 'httpolice/message.py'), ('_render_message', 'httpolice/reports/html.py')],
  ['Message.displayable_body', 'the body part of HTML reports'])

# ---------------------------------------------------------------- inputs
p('I01', 'HAR entries are translated faithfully',
  'For every HAR entry, the request and response carry the entry\'s method, URL (scheme and target, with its parameters), HTTP version, status, reason, headers and texts as far as HAR can represent them: HTTP/2 pseudo-headers removed, bodies unknown or unavailable unless given, no response when the status is 0, and browser-specific distortions compensated only for the browsers that have them; a file that is not JSON or not of the expected shape is reported as an input error and never ends in a traceback.',
  'inputs', 'all combinations of presence and representative values of the HAR fields that the importer reads',
  'HAR files in the tests come from a few browsers; the product of optional fields is not covered.',
  'httpolice/inputs/har.py httpolice/helpers.py', [('har_input', 'httpolice/inputs/har.py')], ['exchanges from a HAR file'])
p('I02', 'Captured connections are recombined into the right streams',
  'For every directory of tcpflow files and every tcpick-style pair, files are grouped into connections by their address/port/time naming, each connection\'s two directions are assigned by which one carries requests, none is lost or used twice, and unrecognised file names are reported as errors rather than ignored.',
  'inputs configurations', 'all sets of up to four file names built from symbolic addresses, ports, timestamps and counters',
  'Tests have a few directories.',
  'httpolice/inputs/streams.py', [('_recombine_streams', 'httpolice/inputs/streams.py')], ['stream pairs'])
p('I03', 'Ordering exchanges by time keeps every exchange and every connection order',
  'For every set of connections, ordering by time outputs each exchange exactly once, keeps the exchanges of one connection in their order, and among connections places exchanges in non-decreasing order of the time their headers state where known.',
  'inputs histories', 'all assignments of times (or no time) to up to four exchanges on up to three connections',
  'The merge order depends on all relative orders of dates; tests contain one or two.',
  'httpolice/inputs/streams.py', [('_rearrange_by_time', 'httpolice/inputs/streams.py')], ['order of exchanges'])
p('I04', 'Combined files split at their markers and nowhere else',
  'For every combined file, the preamble, the inbound bytes and the outbound bytes are exactly the parts before, between and after the two markers, and a file without proper markers is reported as an input error.',
  'inputs', 'all byte strings around the markers up to the stated length',
  'All tests use well-formed combined files.',
  'httpolice/inputs/streams.py', [('parse_combined', 'httpolice/inputs/streams.py')], ['exchanges from a combined file'])
p('I05', 'CGI variables and HTTP/2 pseudo-headers convert without loss',
  'For every CGI/WSGI environment, headers_from_cgi returns one header per HTTP_* variable (plus Content-Type and Content-Length when non-empty) with the name derived by the CGI rule and the value unchanged; pop_pseudo_headers removes exactly the entries whose names start with a colon, returns them by name, and keeps all other entries in order.',
  'inputs', 'all environments and header lists up to the stated size with symbolic names and values',
  'Doctest examples only.',
  'httpolice/helpers.py', [('headers_from_cgi, pop_pseudo_headers', 'httpolice/helpers.py')], ['helper results'])

p('I06', 'Stream files are paired in the order given and read in one direction',
  'For every list of files, the streams input reads files 1 and 2, 3 and 4, and so on, as the request and response direction of one HTTP/1.x connection each, and rejects an odd number of files as an input error before reporting anything; req-stream reads every file as requests without responses, and resp-stream every file as responses without requests, without guessing directions from the contents. '
  'Connections whose messages have no dates are reported in the order given, requests have the scheme http, notices about a stream name its own file, and a file that cannot be read makes the command fail with a message.',
  'inputs', 'all lists of up to four files (also with repetitions) of the stated contents',
  'The tests run each of these formats on one or two fixed lists of files.',
  'httpolice/inputs/streams.py httpolice/cli.py', [('streams_input, req_stream_input, resp_stream_input', 'httpolice/inputs/streams.py'), ('_path_pairs_input', 'httpolice/inputs/streams.py')],
  ['exchanges, notices and exit status for a list of files'])

# ---------------------------------------------------------------- bodies
p('B01', 'Content codings are removed in reverse order, or the body is unavailable',
  'For every Content-Encoding list and every outcome of the individual decoders, the decoded body is the result of undoing the codings from last to first; an unsupported coding gives exactly 1036 and a failing decoder exactly 1037 (unless the content is partial), after which the body is treated as unknown and no check that needs its contents reports anything.',
  'inputs fault_sequences', 'all lists of up to three codings with decoders that may succeed, fail or be unknown',
  'Failure of an inner coding after an outer one succeeded is not sampled.',
  'httpolice/message.py httpolice/codings.py', [('decoded_body', 'httpolice/message.py')], ['decoded body, notices 1036, 1037'])
p('B02', 'Body well-formedness notices appear exactly when the body is malformed',
  'For every message whose media type is JSON, XML, multipart or form-urlencoded and whose content is known and complete, notices 1038, 1039, 1275, 1040, 1139-1142 and 1281 are reported exactly when the corresponding parser rejects the body or finds the documented defect, and never for other media types, partial contents, responses to HEAD, 1xx, 204 or 304 responses, or bodies that could not be decoded.',
  'inputs fault_sequences', 'all media types of each class, statuses, methods, and outcomes of the body parsers',
  'The interplay of completeness, charset and media-type class is a product the tests sample sparsely.',
  'httpolice/message.py httpolice/response.py', [('json_data, xml_data, multipart_data, url_encoded_data', 'httpolice/message.py')], ['body notices'])

# ---------------------------------------------------------------- rules
rq = 'all request methods, status codes, versions and presence/values of the headers named, within the stated representatives'
rw = 'Each notice condition is a conjunction over methods, statuses, versions and headers; the tests contain one or two points per notice and rarely the near misses.'
p('R01', 'Body and payload-header rules for requests and responses are exact',
  'For every message, the notices about bodies that should or should not be there and about Content-Type and Content-Length (1018-1024, 1035, 1041, 1042, 1052-1054, 1056, 1057, 1059, 1061, 1062, 1066, 1076, 1098, 1099, 1239, 1240, 1280) are reported exactly when their documented condition holds.',
  'inputs', rq, rw, 'httpolice/request.py httpolice/response.py httpolice/message.py httpolice/known/method.csv', [('check_request, check_response', 'httpolice/request.py, httpolice/response.py')], EX)
p('R02', 'Status-code rules are exact for every status and method',
  'For every method and status code, the notices that tie a status code to required headers, to an explanation body, to the method or to the request (1048, 1072-1074, 1077-1084, 1086-1089, 1092, 1095-1097, 1100, 1104, 1106, 1110, 1112, 1113, 1167, 1201, 1203-1205, 1242, 1243, 1284, 1304, 1305) are reported exactly when their documented condition holds.',
  'inputs', rq, rw, 'httpolice/response.py httpolice/structure.py httpolice/known/status_code.csv', [('check_response_itself, check_response_in_context', 'httpolice/response.py')], EX)
p('R03', 'Caching rules are exact',
  'For every combination of Cache-Control directives, Age, Date, Expires, Warning and Pragma on request and response, the caching notices (1152, 1153, 1159-1166, 1168-1193, 1202, 1238, 1241, 1283, 1301-1303) are reported exactly when their documented condition holds, freshness being computed from the given numbers for every value.',
  'inputs', 'all ages, lifetimes and date differences (symbolic integers), directive subsets and statuses', rw, 'httpolice/response.py httpolice/request.py httpolice/message.py httpolice/known/cache_directive.csv', [('from_cache, heuristic_expiration, stale', 'httpolice/response.py')], EX)
p('R04', 'Conditional-request and range rules are exact',
  'For every method, status, precondition headers, entity tags and ranges, the notices about preconditions (1118, 1120-1125, 1127-1131, 1134, 1135, 1200) and ranges (1058, 1132, 1136-1138, 1143-1147, 1149, 1150) are reported exactly when their documented condition holds, entity tags being compared strongly or weakly as RFC 7232 and 7233 require.',
  'inputs', rq, rw, 'httpolice/request.py httpolice/response.py httpolice/header.py httpolice/structure.py', [('conditional and range checks', 'httpolice/response.py')], EX)
p('R05', 'Authentication and transport-security rules are exact',
  'For every authorization, challenge, Strict-Transport-Security and scheme, the notices about Basic and Bearer authentication and HSTS (1194, 1195, 1206-1212, 1218-1221, 1261-1274) are reported exactly when their documented condition holds.',
  'inputs', rq, rw, 'httpolice/request.py httpolice/response.py httpolice/syntax/rfc6749.py', [('auth checks', 'httpolice/request.py, httpolice/response.py')], EX)
p('R06', 'Connection, upgrade, proxy and version rules are exact',
  'For every version, scheme, Connection options, Upgrade protocols, TE, Host, Via and request-target form, the notices 1025, 1028, 1029, 1031-1034, 1046, 1047, 1049-1051, 1063, 1064, 1067, 1068, 1070, 1071, 1093, 1094, 1101-1103, 1105, 1109, 1197-1199, 1228, 1230-1234, 1236, 1237, 1244-1246, 1277, 1295 and 1306 are reported exactly when their documented condition holds.',
  'inputs', rq, rw, 'httpolice/request.py httpolice/response.py httpolice/message.py', [('connection-level checks', 'httpolice/message.py, httpolice/request.py, httpolice/response.py')], EX)
p('R07', 'Negotiation, preference and disposition rules are exact',
  'For every Accept-like header, Prefer, Preference-Applied, Vary, Allow, Accept-Patch, Content-Disposition and Alt-Svc, the notices 1090, 1114-1117, 1213-1217, 1227, 1235, 1247-1252, 1258, 1260, 1276, 1285-1291 and 1310 are reported exactly when their documented condition holds, a wildcard subsuming a value exactly when it matches it with the same weight.',
  'inputs', rq, rw, 'httpolice/request.py httpolice/response.py httpolice/header.py', [('negotiation checks', 'httpolice/request.py, httpolice/response.py')], EX)
p('R08', 'Location and redirect URIs are compared after resolution',
  'For every effective request URI (from any scheme, target form and Host) and every Location or Content-Location reference, the redirect-to-self and same-resource notices (1055, 1060, 1085, 1111) are reported exactly when the reference, resolved per RFC 3986 section 5.2, equals the effective request URI (or has a fragment, for 1111).',
  'inputs', 'all references and targets over a symbolic alphabet up to the stated length', rw, 'httpolice/request.py httpolice/response.py', [('effective_uri', 'httpolice/request.py'), ('location checks', 'httpolice/response.py')], EX)

# ---------------------------------------------------------------- global
p('T01', 'Checking any message terminates without an exception',
  'For every request and response that can be constructed from strings and bytes, and every pair of byte streams, checking and both kinds of reporting terminate and raise no exception; malformed content leads only to notices.',
  'inputs', 'all values of each header field with symbolic bytes, all target and start-line bytes, body parsers and decoders failing arbitrarily, numbers of any size',
  'The fuzz test draws 100 random exchanges; crashes need specific values (large numbers, unusual charsets, missing parameter values).',
  'httpolice/exchange.py httpolice/request.py httpolice/response.py httpolice/message.py httpolice/header.py httpolice/syntax/rfc8288.py httpolice/reports', [('check_exchange', 'httpolice/exchange.py')], ['absence of exceptions'])
p('T02', 'Letter case and order that the protocol ignores do not change the findings',
  'Changing the letter case of header field names or of case-insensitive tokens, and moving a header field relative to fields with other names (apart from the documented rule about Host coming first), never changes which notices are reported.',
  'inputs', 'all letter-case variants and all permutations of up to four header fields from a representative set',
  'A relation between two runs; tests check single runs.',
  'httpolice/header.py httpolice/structure.py httpolice/known/__init__.py', [('case-insensitive values', 'httpolice/structure.py')], EX)
p('K01', 'Built-in knowledge about names is looked up consistently',
  'For every name, the answers about known headers, methods, status codes, media types, cache directives, and other registered names (whether known, safe, cacheable, deprecated, JSON or XML, for requests or responses, allowed in trailers and so on) agree with the registry tables shipped with the program, honouring case-insensitivity and structured-syntax suffixes, and unknown names give "unknown", never a wrong answer.',
  'inputs', 'all names up to the stated length plus all registered names with symbolic letter case',
  'Tests query a few names.',
  'httpolice/known/__init__.py', [('Knowledge classes', 'httpolice/known/__init__.py')], ['knowledge lookups'])
p('C01', 'Compressed bodies are decompressed correctly and within bounds',
  'For every byte string, gzip, deflate and br content is decompressed to the data that the format defines, corrupt data is reported with 1037, and decompression does not exhaust memory.',
  'inputs', 'all byte strings', 'Only intact and trivially broken samples are tested.',
  'httpolice/codings.py', [('decoders', 'httpolice/codings.py')], ['decoded body'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
