From f765f605620674c8f4c8736a7db9a9ba445d33b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 01/29] fix: accept only hexadecimal digits as a chunk size

int(s, 16) also takes a sign, a 0x prefix, underscores and surrounding
whitespace, so '0x3', '+3' or '1_0' were read as chunk sizes; '-1' read
the rest of the stream as a chunk, and other negative numbers crashed.
---
 httpolice/framing1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..b71a81e 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -26,6 +26,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 
 
 MAX_BODY_SIZE = 1024 * 1024 * 1024
@@ -299,10 +300,10 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')              # RFC errata ID: 4667
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = int(size_s, 16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From 0a8c2b8b6c4aeaed08b3f0bed55cd367c95f8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 02/29] fix: do not crash on numbers of thousands of digits in
 headers

int() raises ValueError for strings of more than 4300 digits, and so does
formatting such a number, so a long enough Content-Length, Age, Max-Forwards
etc. crashed the check of the whole exchange.
---
 httpolice/syntax/common.py   |  9 +++++++++
 httpolice/syntax/internal.py |  4 ++--
 httpolice/syntax/rfc6797.py  |  4 ++--
 httpolice/syntax/rfc7230.py  |  5 +++--
 httpolice/syntax/rfc7231.py  |  6 +++---
 httpolice/syntax/rfc7233.py  | 10 +++++-----
 httpolice/syntax/rfc7234.py  |  4 ++--
 7 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/httpolice/syntax/common.py b/httpolice/syntax/common.py
index 0564949..6fedea8 100644
--- a/httpolice/syntax/common.py
+++ b/httpolice/syntax/common.py
@@ -15,6 +15,15 @@ SP = octet(0x20)                                                        > auto
 VCHAR = octet_range(0x21, 0x7E)                                         > auto
 
 
+def integer(digits, max_digits=1000):
+    # Python refuses to convert (in either direction) very long decimal
+    # numbers, so any number that long becomes the greatest one we can handle.
+    digits = digits.lstrip('0') or '0'
+    if len(digits) > max_digits:
+        digits = '9' * max_digits
+    return int(digits)
+
+
 _BAD_MEDIA_TYPES = {
     MediaType(u'application/text'): media.text_plain,
     MediaType(u'plain/text'): media.text_plain,
diff --git a/httpolice/syntax/internal.py b/httpolice/syntax/internal.py
index 3c85ad9..1642293 100644
--- a/httpolice/syntax/internal.py
+++ b/httpolice/syntax/internal.py
@@ -1,10 +1,10 @@
 from httpolice.parse import (fill_names, literal, maybe, pivot, skip, string1,
                              subst)
-from httpolice.syntax.common import DIGIT
+from httpolice.syntax.common import DIGIT, integer
 from httpolice.syntax.rfc7230 import RWS, comma_list
 
 
-notice_id = int << string1(DIGIT)                                       > pivot
+notice_id = integer << string1(DIGIT)                                   > pivot
 resp = subst(True) << literal('resp')                                   > pivot
 HTTPolice_Silence = comma_list(notice_id * maybe(skip(RWS) * resp))     > pivot
 
diff --git a/httpolice/syntax/rfc6797.py b/httpolice/syntax/rfc6797.py
index 027d850..694c627 100644
--- a/httpolice/syntax/rfc6797.py
+++ b/httpolice/syntax/rfc6797.py
@@ -1,7 +1,7 @@
 from httpolice.citation import RFC
 from httpolice.parse import auto, fill_names, many, maybe, pivot, skip, string1
 from httpolice.structure import HSTSDirective, Parametrized
-from httpolice.syntax.common import DIGIT
+from httpolice.syntax.common import DIGIT, integer
 from httpolice.syntax.rfc7230 import OWS, quoted_string, token
 
 
@@ -19,6 +19,6 @@ def _collect_elements(xs):
 Strict_Transport_Security = _collect_elements << (
     maybe(directive) % many(skip(OWS * ';' * OWS) * maybe(directive)))  > pivot
 
-max_age_value = int << string1(DIGIT)                                   > pivot
+max_age_value = integer << string1(DIGIT)                               > pivot
 
 fill_names(globals(), RFC(6797))
diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index d3f57a4..939fde8 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -6,7 +6,8 @@ from httpolice.parse import (auto, can_complain, fill_names, group, literal,
 from httpolice.structure import (CaseInsensitive, ConnectionOption, FieldName,
                                  Method, MultiDict, Parametrized,
                                  TransferCoding, UpgradeToken, Versioned)
-from httpolice.syntax.common import ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR
+from httpolice.syntax.common import (ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR,
+                                     integer)
 from httpolice.syntax.rfc3986 import (absolute_URI, authority,
                                       host as uri_host, port, query,
                                       relative_part, segment)
@@ -161,6 +162,6 @@ Via = comma_list1(received_protocol * skip(RWS) *
                   received_by *
                   maybe(skip(RWS) * comment(include_parens=False)))     > pivot
 
-Content_Length = int << string1(DIGIT)                                  > pivot
+Content_Length = integer << string1(DIGIT)                              > pivot
 
 fill_names(globals(), RFC(7230))
diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..cc813a3 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -7,7 +7,7 @@ from httpolice.parse import (auto, can_complain, fill_names, literal, many,
 from httpolice.structure import (CaseInsensitive, Charset, ContentCoding,
                                  MediaType, MultiDict, Parametrized,
                                  ProductName, Unavailable, Versioned, okay)
-from httpolice.syntax.common import DIGIT, SP, check_media_type
+from httpolice.syntax.common import DIGIT, SP, check_media_type, integer
 from httpolice.syntax.rfc3986 import URI_reference, absolute_URI
 from httpolice.syntax.rfc4647 import language_range
 from httpolice.syntax.rfc5646 import Language_Tag as language_tag
@@ -213,7 +213,7 @@ Accept_Encoding = comma_list(Parametrized << codings * maybe(weight))   > pivot
 Accept_Language = comma_list1(
     Parametrized << language_range * maybe(weight))                     > pivot
 
-delay_seconds = int << string1(DIGIT)                                   > pivot
+delay_seconds = integer << string1(DIGIT)                               > pivot
 Retry_After = HTTP_date | delay_seconds                                 > pivot
 
 Allow = comma_list(method)                                              > pivot
@@ -223,7 +223,7 @@ Content_Location = absolute_URI | partial_URI                           > pivot
 Content_Type = media_type                                               > pivot
 Date = HTTP_date                                                        > pivot
 Location = URI_reference                                                > pivot
-Max_Forwards = int << string1(DIGIT)                                    > pivot
+Max_Forwards = integer << string1(DIGIT)                                > pivot
 Referer = absolute_URI | partial_URI                                    > pivot
 Vary = '*' | comma_list1(field_name)                                    > pivot
 Expect = CaseInsensitive << literal('100-continue')                     > pivot
diff --git a/httpolice/syntax/rfc7233.py b/httpolice/syntax/rfc7233.py
index 18d1c83..b5ae7b0 100644
--- a/httpolice/syntax/rfc7233.py
+++ b/httpolice/syntax/rfc7233.py
@@ -3,7 +3,7 @@ from httpolice.parse import (auto, can_complain, fill_names, literal, maybe,
                              pivot, skip, string, string1, subst)
 from httpolice.structure import (CaseInsensitive, ContentRange, RangeSpecifier,
                                  RangeUnit)
-from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR
+from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR, integer
 from httpolice.syntax.rfc7230 import comma_list1, token__excluding
 from httpolice.syntax.rfc7231 import HTTP_date
 from httpolice.syntax.rfc7232 import entity_tag
@@ -22,12 +22,12 @@ def _well_formed1(complain, first, last):
         complain(1133)
     return (first, last)
 
-first_byte_pos = int << string1(DIGIT)                                  > auto
-last_byte_pos = int << string1(DIGIT)                                   > auto
+first_byte_pos = integer << string1(DIGIT)                              > auto
+last_byte_pos = integer << string1(DIGIT)                               > auto
 byte_range_spec = _well_formed1 << (first_byte_pos * skip('-') *
                                     maybe(last_byte_pos))               > pivot
 
-suffix_length = int << string1(DIGIT)                                   > auto
+suffix_length = integer << string1(DIGIT)                               > auto
 suffix_byte_range_spec = \
     (lambda x: (None, x)) << skip('-') * suffix_length                  > pivot
 
@@ -42,7 +42,7 @@ other_ranges_specifier = RangeSpecifier << (
 Range = byte_ranges_specifier | other_ranges_specifier                  > pivot
 
 byte_range = first_byte_pos * skip('-') * last_byte_pos                 > auto
-complete_length = int << string1(DIGIT)                                 > auto
+complete_length = integer << string1(DIGIT)                             > auto
 byte_range_resp = (
     byte_range * skip('/') *
     (complete_length | subst(None) << literal('*')))                    > pivot
diff --git a/httpolice/syntax/rfc7234.py b/httpolice/syntax/rfc7234.py
index 6e2a0a9..5023ab2 100644
--- a/httpolice/syntax/rfc7234.py
+++ b/httpolice/syntax/rfc7234.py
@@ -3,14 +3,14 @@ from httpolice.parse import (fill_names, literal, mark, maybe, maybe_str,
                              named, pivot, skip, string1, string_times)
 from httpolice.structure import (CacheDirective, CaseInsensitive, Parametrized,
                                  WarnCode, WarningValue)
-from httpolice.syntax.common import DIGIT, DQUOTE, SP
+from httpolice.syntax.common import DIGIT, DQUOTE, SP, integer
 from httpolice.syntax.rfc7230 import (comma_list, comma_list1, field_name,
                                       port, pseudonym, quoted_string, token,
                                       token__excluding, uri_host)
 from httpolice.syntax.rfc7231 import HTTP_date
 
 
-delta_seconds = int << string1(DIGIT)                                   > pivot
+delta_seconds = integer << string1(DIGIT)                               > pivot
 Age = delta_seconds                                                     > pivot
 
 cache_directive = Parametrized << (
-- 
2.43.0


From a30504ad3a07cbb798f2f8caf33524c132dbbcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 03/29] fix: do not crash on a huge Age next to a Date

Age was added to Date as a timedelta, which raises OverflowError when the
result (or the Age itself) is out of range.
---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 7 +++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..6ee15d6 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:
+                    pass
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..1023510 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,4 +1,4 @@
-from datetime import datetime, timedelta
+from datetime import datetime
 from urllib.parse import urljoin, urlparse
 
 from httpolice import known, message
@@ -114,9 +114,8 @@ class Response(message.Message):
             return False
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
-            date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            since = datetime.utcnow() - self.headers.date.value
+            if self.headers.age > since.total_seconds() + 30:
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From 8d3034bd8fee146ee72aaeab237e22afe734b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 04/29] fix: do not crash on a charset that is not a text
 encoding

---
 httpolice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..1392cb6 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,8 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` means it's not actually a text encoding.
                 return None
         return charset
 
-- 
2.43.0


From d79168f30d7ca6c681d77729b4432e8b8ab9a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 05/29] fix: do not crash on missing or malformed values of
 Link parameters

---
 httpolice/response.py       | 4 ++--
 httpolice/syntax/rfc8288.py | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 1023510..62f93e2 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -324,8 +324,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
-                   for link in headers.link):
+        rels = [link.param.get(u'rel', []) for link in headers.link]
+        if not any(u'blocked-by' in rel for rel in rels if okay(rel)):
             complain(1243)
 
     if headers.content_disposition.is_okay:
diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..d7c5deb 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,9 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        # A parameter without a value is treated like an empty value
+        # (RFC 8288 Appendix B.3).
+        (parsed_as, value) = (None, None) if value is None else value
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -34,8 +35,8 @@ def _process_params(complain, params):
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
         if symbol is not None:
-            value = parse(value, symbol, complain, 1158,
-                          name=name, value=value)
+            value = parse(value or u'', symbol, complain, 1158,
+                          name=name, value=value or u'')
         r.append((name, value))
         if name == u'rev':
             complain(1226)
-- 
2.43.0


From b4c0342ba9b62873266a60be8962d93ba013ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 06/29] fix: do not crash on XML with an unknown encoding
 declared

---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 1392cb6..2aa9726 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -155,7 +155,10 @@ class Message(Blackboard):
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
             # https://bugs.python.org/issue29896
-            except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
+            # `LookupError` or `ValueError` if the declared encoding is unknown
+            # or unsupported.
+            except (xml.etree.ElementTree.ParseError,
+                    LookupError, ValueError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
         else:
-- 
2.43.0


From 8a8484238084d311c430f5ca78a3b75aaf6877e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 07/29] fix: do not crash on multipart bodies that the email
 package cannot handle

---
 httpolice/message.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 2aa9726..3edbfb9 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -175,7 +175,12 @@ class Message(Blackboard):
             # and should be parseable as email message payloads.
             multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
                               b'\r\n\r\n' + self.decoded_body)
-            parsed = parse_email_message(multipart_code)
+            try:
+                parsed = parse_email_message(multipart_code)
+            except Exception:       # pylint: disable=broad-except
+                # The ``email`` package can choke on malformed headers
+                # in all sorts of ways.
+                return Unavailable(self.decoded_body)
             for d in parsed.defects:
                 if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
                     self.complain(1139)
-- 
2.43.0


From d9696b7ded9cbba38fefc9811412120b247f8c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 08/29] fix: do not crash on URIs that urllib.parse rejects

---
 httpolice/inputs/har.py |  2 +-
 httpolice/request.py    |  3 ++-
 httpolice/response.py   |  2 +-
 httpolice/util/uri.py   | 27 +++++++++++++++++++++++++++
 4 files changed, 31 insertions(+), 3 deletions(-)
 create mode 100644 httpolice/util/uri.py

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..ef680a9 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,7 +1,6 @@
 import base64
 import io
 import json
-from urllib.parse import urlparse
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -11,6 +10,7 @@ from httpolice.request import Request
 from httpolice.response import Response
 from httpolice.structure import FieldName, StatusCode, Unavailable
 from httpolice.util.text import decode_path
+from httpolice.util.uri import urlparse
 
 
 FIDDLER = [u'Fiddler']
diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..bcefd71 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -16,6 +16,7 @@ from httpolice.syntax.rfc7230 import (absolute_form, asterisk_form,
                                       authority_form, origin_form)
 from httpolice.util.data import duplicates, iterbytes
 from httpolice.util.text import force_unicode
+from httpolice.util.uri import urlparse
 
 
 normal_target = mark(origin_form) | mark(absolute_form)
diff --git a/httpolice/response.py b/httpolice/response.py
index 62f93e2..1b2ae7e 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,4 @@
 from datetime import datetime
-from urllib.parse import urljoin, urlparse
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -12,6 +11,7 @@ from httpolice.syntax import rfc6749, rfc7230
 from httpolice.util.data import duplicates
 from httpolice.util.text import (contains_percent_encodes, force_unicode,
                                  is_ascii)
+from httpolice.util.uri import urljoin, urlparse
 
 
 class Response(message.Message):
diff --git a/httpolice/util/uri.py b/httpolice/util/uri.py
new file mode 100644
index 0000000..ff373ba
--- /dev/null
+++ b/httpolice/util/uri.py
@@ -0,0 +1,27 @@
+"""Versions of functions from ``urllib.parse`` that can handle any URI.
+
+``urllib.parse`` raises `ValueError` on some URIs that are correct according
+to RFC 3986, such as those where the host is an ``IPvFuture``.
+"""
+
+import re
+import urllib.parse
+
+
+def urlparse(uri):
+    try:
+        return urllib.parse.urlparse(uri)
+    except ValueError:
+        # RFC 3986 Appendix B
+        match = re.match(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)'
+                         r'(?:\?([^#]*))?(?:#(.*))?', uri, re.DOTALL)
+        (scheme, netloc, path, query, fragment) = match.groups(u'')
+        return urllib.parse.ParseResult(scheme.lower(), netloc, path, u'',
+                                        query, fragment)
+
+
+def urljoin(base, uri):
+    try:
+        return urllib.parse.urljoin(base, uri)
+    except ValueError:
+        return uri
-- 
2.43.0


From c6bd73ec62dbac7e046d6f5a6270d0f0c75665ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 09/29] fix: do not crash on deeply nested JSON

---
 httpolice/message.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 3edbfb9..7ceec86 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -136,6 +136,9 @@ class Message(Blackboard):
             except ValueError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
+            except RecursionError:
+                # May be good JSON, but it's too deeply nested for us.
+                r = Unavailable(self.unicode_body)
             else:
                 if self.guessed_charset not in ['ascii', 'utf-8', None]:
                     self.complain(1281)
@@ -219,8 +222,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty_json = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty_json = json.dumps(self.json_data, indent=2,
+                                         ensure_ascii=False)
+            except RecursionError:
+                pass
+
+        if pretty_json is not None:
+            r = pretty_json
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From e6eec87616b543b1c43dbf0fe6502a7b5aa8e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 10/29] fix: do not report JSON with very long numbers as
 malformed

---
 httpolice/message.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 7ceec86..102f3a5 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -132,7 +132,7 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body)
+                r = json.loads(self.unicode_body, parse_int=_parse_json_int)
             except ValueError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
@@ -272,6 +272,14 @@ class Message(Blackboard):
         raise NotImplementedError()
 
 
+def _parse_json_int(s):
+    try:
+        return int(s)
+    except ValueError:
+        # Python refuses to convert very long numbers. It's still good JSON.
+        return float(s)
+
+
 def check_message(msg):
     """Run all checks that apply to any message (both request and response)."""
     complain = msg.complain
-- 
2.43.0


From 35fcfe05dca7074931d5d6217f0d5997887677c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 11/29] fix: do not crash on very deeply nested comments

---
 httpolice/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..495a9fe 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -112,6 +112,10 @@ def parse(data, symbol, complain=None, fail_notice_id=None,
                 raise
             complaint = (fail_notice_id, {'error': e})
             parse_result = (Unavailable(data), [complaint], [])
+        except RecursionError:
+            # This can happen on very deeply nested comments. We don't know
+            # whether they're well-formed, so we don't report anything.
+            parse_result = (Unavailable(data), [], [])
         else:
             _memo[key] = parse_result
             while len(_memo) > MEMO_LIMIT:
-- 
2.43.0


From 484116056ebbe3547c8fdb7b9176410c5bad695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 12/29] fix: compare ranges in Accept-like headers ignoring
 case and minding their parameters

---
 httpolice/request.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index bcefd71..fb71bd4 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -1,5 +1,4 @@
 import base64
-import fnmatch
 import itertools
 import string
 from urllib.parse import parse_qs
@@ -436,22 +435,37 @@ def _accept_subsumptions(items):
     """Find items in an Accept-like header that subsume one another."""
     normalized = []
     for (item, q) in items:
+        params = []
         if isinstance(item, Parametrized):          # The ``Accept`` header.
+            params = item.param.sequence
             item = item.item
         if q is None:
             q = 1.0
         elif isinstance(q, MultiDict):              # The ``Accept`` header.
             q = q.get(u'q', 1.0)
-        normalized.append((item, q))
+        normalized.append((item, params, q))
 
-    for ((item1, q1), (item2, q2)) in itertools.permutations(normalized, 2):
-        if (item1 == u'*' or item1.endswith(u'/*')) and \
-                fnmatch.fnmatch(item2, item1) and \
-                not fnmatch.fnmatch(item1, item2) and \
-                q1 == q2:
+    for ((item1, params1, q1), (item2, params2, q2)) in \
+            itertools.permutations(normalized, 2):
+        if q1 == q2 and _is_wildcard_for(item1, item2) and \
+                all(param in params2 for param in params1):
             yield (item1, item2)
 
 
+def _is_wildcard_for(wildcard, item):
+    """
+    >>> _is_wildcard_for(u'text/*', u'Text/html')
+    True
+    >>> _is_wildcard_for(u'text/*', u'text/*')
+    False
+    """
+    (wildcard, item) = (wildcard.lower(), item.lower())
+    if wildcard == item:
+        return False
+    return wildcard in [u'*', u'*/*'] or \
+        (wildcard.endswith(u'/*') and item.startswith(wildcard[:-1]))
+
+
 def _is_urlsafe_base64(s):
     alphabet = string.ascii_letters + string.digits + '-_'
     return all(c in alphabet for c in s)
-- 
2.43.0


From 1ac63bc9d1f438afb18f1debe8ea732c29fb6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 13/29] fix: resolve Location and Content-Location as RFC 3986
 requires

---
 httpolice/response.py |   9 ++--
 httpolice/util/uri.py | 101 +++++++++++++++++++++++++++++++++++++-----
 2 files changed, 95 insertions(+), 15 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 1b2ae7e..1b4946a 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -541,8 +541,9 @@ def check_response_in_context(resp, req):
         complain(1071)
 
     if resp.headers.content_location.is_okay and req.effective_uri:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.content_location.value):
+        if urljoin(req.effective_uri, u'') == \
+                urljoin(req.effective_uri,
+                        resp.headers.content_location.value):
             if method in [m.GET, m.HEAD] and \
                     status in [st.ok, st.non_authoritative_information,
                                st.no_content, st.partial_content,
@@ -552,8 +553,8 @@ def check_response_in_context(resp, req):
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.location.value):
+        if urljoin(req.effective_uri, u'') == \
+                urljoin(req.effective_uri, resp.headers.location.value):
             if status in [st.multiple_choices, st.temporary_redirect,
                           st.permanent_redirect]:
                 complain(1085)
diff --git a/httpolice/util/uri.py b/httpolice/util/uri.py
index ff373ba..a169206 100644
--- a/httpolice/util/uri.py
+++ b/httpolice/util/uri.py
@@ -1,27 +1,106 @@
 """Versions of functions from ``urllib.parse`` that can handle any URI.
 
 ``urllib.parse`` raises `ValueError` on some URIs that are correct according
-to RFC 3986, such as those where the host is an ``IPvFuture``.
+to RFC 3986, such as those where the host is an ``IPvFuture``. Its ``urljoin``
+also differs from RFC 3986 when the query is empty, when there is a scheme
+but no authority, and when an absolute reference contains dot segments.
 """
 
 import re
 import urllib.parse
 
 
+def _urisplit(uri):
+    # RFC 3986 Appendix B
+    return re.match(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)'
+                    r'(?:\?([^#]*))?(?:#(.*))?', uri, re.DOTALL).groups()
+
+
 def urlparse(uri):
     try:
         return urllib.parse.urlparse(uri)
     except ValueError:
-        # RFC 3986 Appendix B
-        match = re.match(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)'
-                         r'(?:\?([^#]*))?(?:#(.*))?', uri, re.DOTALL)
-        (scheme, netloc, path, query, fragment) = match.groups(u'')
-        return urllib.parse.ParseResult(scheme.lower(), netloc, path, u'',
-                                        query, fragment)
+        (scheme, netloc, path, query, fragment) = _urisplit(uri)
+        return urllib.parse.ParseResult((scheme or u'').lower(),
+                                        netloc or u'', path, u'',
+                                        query or u'', fragment or u'')
 
 
 def urljoin(base, uri):
-    try:
-        return urllib.parse.urljoin(base, uri)
-    except ValueError:
-        return uri
+    """Resolve a reference according to RFC 3986 Section 5.2.
+
+    The scheme is lowercased, and an empty fragment is dropped.
+
+    >>> urljoin(u'HTTP://example.com/foo/bar?baz', u'../qux#')
+    'http://example.com/qux'
+    >>> urljoin(u'http://example.com/foo/bar?baz', u'?')
+    'http://example.com/foo/bar?'
+    >>> urljoin(u'http://example.com/foo', u'http://example.com/./bar/..#baz')
+    'http://example.com/#baz'
+    >>> urljoin(u'http://example.com', u'foo')
+    'http://example.com/foo'
+    >>> urljoin(u'http://example.com/foo?bar', u'')
+    'http://example.com/foo?bar'
+    """
+    (base_scheme, base_authority, base_path, base_query, _) = _urisplit(base)
+    (scheme, authority, path, query, fragment) = _urisplit(uri)
+
+    if scheme is None:
+        scheme = base_scheme
+        if authority is None:
+            authority = base_authority
+            if path == u'':
+                path = base_path
+                if query is None:
+                    query = base_query
+            else:
+                if not path.startswith(u'/'):
+                    path = _merge_paths(base_authority, base_path, path)
+                path = _remove_dot_segments(path)
+        else:
+            path = _remove_dot_segments(path)
+    else:
+        path = _remove_dot_segments(path)
+
+    return ((u'' if scheme is None else scheme.lower() + u':') +
+            (u'' if authority is None else u'//' + authority) +
+            path +
+            (u'' if query is None else u'?' + query) +
+            (u'#' + fragment if fragment else u''))
+
+
+def _merge_paths(base_authority, base_path, path):
+    # RFC 3986 Section 5.2.3
+    if base_authority is not None and base_path == u'':
+        return u'/' + path
+    return base_path[:base_path.rfind(u'/') + 1] + path
+
+
+def _remove_dot_segments(path):
+    """
+    >>> _remove_dot_segments(u'/a/b/c/./../../g')
+    '/a/g'
+    >>> _remove_dot_segments(u'mid/content=5/../6')
+    'mid/6'
+    >>> _remove_dot_segments(u'.././a/..')
+    '/'
+    >>> _remove_dot_segments(u'..')
+    ''
+    """
+    # RFC 3986 Section 5.2.4
+    output = []
+    while path:
+        if path.startswith(u'../') or path.startswith(u'./'):
+            path = path[path.index(u'/') + 1:]
+        elif path.startswith(u'/./') or path == u'/.':
+            path = u'/' + path[3:]
+        elif path.startswith(u'/../') or path == u'/..':
+            path = u'/' + path[4:]
+            output = output[:-1]
+        elif path in [u'.', u'..']:
+            path = u''
+        else:
+            segment = re.match(r'/?[^/]*', path).group()
+            output.append(segment)
+            path = path[len(segment):]
+    return u''.join(output)
-- 
2.43.0


From 639904a0157481edfa516689b366577e5a552b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 14/29] fix: report unknown parameters of Basic challenges in
 their order

---
 httpolice/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 1b4946a..d7e452a 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -804,8 +804,9 @@ def _check_basic_challenge(resp, hdr, challenge):
     for charset in challenge.param.getall(u'charset'):
         if charset.lower() != u'utf-8':
             resp.complain(1208, header=hdr, charset=charset)
-    for name in set(challenge.param) - {u'charset', u'realm'}:
-        resp.complain(1207, header=hdr, param=name)
+    for name in challenge.param:
+        if name not in [u'charset', u'realm']:
+            resp.complain(1207, header=hdr, param=name)
 
 
 def _check_bearer_challenge(resp, hdr, challenge):
-- 
2.43.0


From ef4d3203a1434a02dee2d56b218022e11d88504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 15/29] fix: do not expect end of data inside a recursive
 symbol

---
 httpolice/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 495a9fe..9808664 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -993,7 +993,7 @@ def _build_parse_error(data, target_symbol, chart):
             expected.setdefault(chars, set()).update(
                 _find_pivots(chart, symbol, start))
 
-        if symbol is target_symbol and next_symbol is None:
+        if symbol is target_symbol and next_symbol is None and start == 0:
             # This item indicates a complete parse of `target_symbol`,
             # so if the input data just stopped there, that would work, too,
             expected[u'end of data'] = None
-- 
2.43.0


From 5a6317a4a32de64f92dc2f73f3b5c019babc52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 16/29] fix: support left-recursive grammars in the parser

---
 httpolice/parse.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 9808664..e94b6e2 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -249,7 +249,7 @@ class Symbol:
     def group(self):
         raise NotImplementedError
 
-    def is_nullable(self):
+    def is_nullable(self, stack=()):
         raise NotImplementedError
 
     def as_rule(self):
@@ -341,7 +341,7 @@ class Terminal(Symbol):
         other = as_symbol(other)
         return Terminal(bits=self.bits ^ (self.bits & other.bits))
 
-    def is_nullable(self):
+    def is_nullable(self, stack=()):
         return False
 
 
@@ -378,11 +378,18 @@ class Nonterminal(Symbol):
     def as_nonterminal(self):
         return self
 
-    def is_nullable(self):
+    def is_nullable(self, stack=()):
         if self._is_nullable is None:
-            self._is_nullable = any(all(sym.is_nullable()
-                                        for sym in rule.symbols)
-                                    for rule in self.rules)
+            if self in stack:
+                # Left recursion. If this symbol is nullable at all,
+                # it must be so by some other rule.
+                return False
+            stack += (self,)
+            r = any(all(sym.is_nullable(stack) for sym in rule.symbols)
+                    for rule in self.rules)
+            if stack == (self,) or r:
+                self._is_nullable = r
+            return r
         return self._is_nullable
 
 
-- 
2.43.0


From 5af439675f17ace57901a263aab13960b5c6a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 17/29] fix: show status and warn codes as numbers in reports

On Python 3, str() of an int subclass goes through its __repr__.
---
 httpolice/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..7283fd5 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,9 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    def __str__(self):
+        return '%d' % self
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +370,9 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    def __str__(self):
+        return '%03d' % self
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From 5d7061294efa390ea8386c65c8bcfab836ef3c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 18/29] fix: spell Saturday in notice 1108

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index cc813a3..46a8810 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -19,7 +19,7 @@ from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From 1f632c61df2293b940039be5071a5c546d18f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 19/29] fix: keep every notice of a text report on its own line

---
 httpolice/reports/text.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/reports/text.py b/httpolice/reports/text.py
index 2ce6234..7713585 100644
--- a/httpolice/reports/text.py
+++ b/httpolice/reports/text.py
@@ -1,5 +1,6 @@
 import codecs
 from functools import singledispatch
+import re
 
 from httpolice import notice
 from httpolice.reports.common import (expand_piece, find_reason_phrase,
@@ -34,11 +35,16 @@ def text_report(exchanges, buf):
                 _write_complaint_line(complaint, f2)
 
 
+def _printable_line(s):
+    # Line breaks from input data must not break up the lines of the report.
+    return re.sub(u'[\r\n]', u'\N{REPLACEMENT CHARACTER}', printable(s))
+
+
 def _exchange_marker(exchange):
     if exchange.request:
         marker = u'------------ request: %s %s' % (
-            printable(exchange.request.method),
-            printable(exchange.request.target))
+            _printable_line(exchange.request.method),
+            _printable_line(exchange.request.target))
     elif exchange.responses:
         marker = u'------------ unknown request'
     else:
@@ -50,7 +56,7 @@ def _exchange_marker(exchange):
 def _response_marker(response):
     return ellipsize(u'------------ response: %d %s' % (
                         response.status,
-                        printable(find_reason_phrase(response)))) + u'\n'
+                        _printable_line(find_reason_phrase(response)))) + u'\n'
 
 
 def _write_complaint_line(complaint, f):
@@ -66,7 +72,7 @@ def _piece_to_text(piece, ctx):
 
 @_piece_to_text.register(str)
 def _text_to_text(text, _):
-    return printable(text)
+    return _printable_line(text)
 
 @_piece_to_text.register(list)
 def _list_to_text(xs, ctx):
-- 
2.43.0


From eb5dcc667b2d079ed60bcf138f5a47e3a93b98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 20/29] fix: let silence() take any iterable of notice IDs

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..7f02b00 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)       # may be a one-time iterator
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From 53004acdddde1152e5cf1b3449cb4d485290194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 21/29] fix: report HAR files of any unexpected shape as input
 errors

---
 httpolice/inputs/har.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index ef680a9..6cdd6bc 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,13 +26,13 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (TypeError, KeyError, AttributeError, ValueError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
-- 
2.43.0


From 225650091c196d361b3ca84983149e9c9f953444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 22/29] fix: keep parameters and the root path in targets read
 from HAR files

---
 httpolice/inputs/har.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6cdd6bc..6d6133a 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,6 +1,7 @@
 import base64
 import io
 import json
+import re
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -54,9 +55,12 @@ def _process_request(data, creator, path):
     elif any(name == h.host for (name, _) in header_entries):
         # With HAR, we can't tell if the request was to a proxy or to a server.
         # So we force most requests into the "origin form" of the target,
-        target = parsed.path
-        if parsed.query:
-            target += u'?' + parsed.query
+        # This is done on the URL itself because `urlparse` strips parameters
+        # (like ``;foo=bar``) from the path.
+        target = re.sub(r'^([^:/?#]+:)?(//[^/?#]*)?', u'', data['url'])
+        target = target.split(u'#')[0]
+        if not target or target.startswith(u'?'):
+            target = u'/' + target
     else:
         # However, if the request has no ``Host`` header,
         # the user won't be able to see the target host
-- 
2.43.0


From 8dd77f3b3dce336988b75807fb79c0a21a2780a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 23/29] fix: keep both directions of loopback connections
 captured with tcpick

---
 httpolice/inputs/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 6ee15d6..9a06bd2 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -47,6 +47,9 @@ def tcpick_input(dir_paths):
                                  u'(did you use the -F2 option?)' % name)
             (counter, src, dest, direction) = match.groups()
             counter = int(counter)
+            # The addresses may be the same (as on the loopback interface),
+            # but the two directions must still be told apart.
+            (src, dest) = (u'%s (clnt)' % src, u'%s (serv)' % dest)
             if direction == 'serv':
                 (src, dest) = (dest, src)
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
-- 
2.43.0


From 734d73f046c739804987ae7d69bb548b94cf129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 24/29] fix: report impossible timestamps in tcpflow file names
 as input errors

---
 httpolice/inputs/streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 9a06bd2..281e78f 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -83,13 +83,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (ValueError, OverflowError, OSError) as exc:
+                raise InputError(u'wrong timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
+                time_hint=time_hint,
                 sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
-- 
2.43.0


From 2e4959d9260ec488f5d179deb5e76a3cc5ff06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 25/29] fix: decode all members of gzip data, and notice when
 it is cut off

---
 httpolice/codings.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..0ba74b9 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -6,8 +6,16 @@ import brotli
 
 
 def decode_gzip(data):
-    # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    # A gzip stream may consist of several members (RFC 1952 Section 2.2).
+    r = b''
+    while True:
+        decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
+        r += decompressor.decompress(data)
+        if not decompressor.eof:
+            raise EOFError(u'gzip stream is cut off')
+        data = decompressor.unused_data
+        if not data.startswith(b'\x1f\x8b'):
+            return r
 
 
 def decode_deflate(data):
-- 
2.43.0


From 3224cb3c8d3554465a3357e547552b353f53ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 26/29] fix: do not expect complete content in 1xx and 204
 responses

---
 httpolice/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index d7e452a..2cfdefa 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -97,7 +97,9 @@ class Response(message.Message):
     @derived_property
     def content_is_full(self):
         """Does this response carry a complete instance of its Content-Type?"""
-        if self.status in [st.not_modified, st.early_hints]:
+        # Any ``Content-Type`` in these describes some other representation.
+        if self.status in [st.no_content, st.not_modified] or \
+                self.status.informational:
             return False
         if self.status == st.partial_content and \
                 self.headers.content_type != media.multipart_byteranges:
-- 
2.43.0


From 1f88bfe435a036af7ae0189576fad0aef320ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 27/29] fix: do not report partial contents that cannot be
 decoded by themselves

---
 httpolice/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 102f3a5..ac53237 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -83,7 +83,9 @@ class Message(Blackboard):
                 try:
                     r = decoder(r)
                 except Exception as e:
-                    self.complain(1037, coding=coding, error=e)
+                    # A range of encoded data cannot be decoded by itself.
+                    if self.content_is_full:
+                        self.complain(1037, coding=coding, error=e)
                     r = Unavailable(r)
             elif okay(coding):
                 self.complain(1036, coding=coding)
-- 
2.43.0


From 9a343f6b1c987160b1d3013ae7d4e1e04037b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 28/29] fix: report NaN and Infinity in JSON bodies as
 malformed

---
 httpolice/message.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index ac53237..8fe2dbf 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -134,7 +134,8 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body, parse_int=_parse_json_int)
+                r = json.loads(self.unicode_body, parse_int=_parse_json_int,
+                               parse_constant=_reject_json_constant)
             except ValueError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
@@ -274,6 +275,10 @@ class Message(Blackboard):
         raise NotImplementedError()
 
 
+def _reject_json_constant(s):
+    raise ValueError(u'%s is not allowed in JSON' % s)
+
+
 def _parse_json_int(s):
     try:
         return int(s)
-- 
2.43.0


From c337635ef6e024484f93334caab712ddcd696cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 29/29] fix: go on treating empty gzip data as empty

---
 httpolice/codings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index 0ba74b9..8da83a3 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -8,14 +8,15 @@ import brotli
 def decode_gzip(data):
     # A gzip stream may consist of several members (RFC 1952 Section 2.2).
     r = b''
-    while True:
+    while data:
         decompressor = zlib.decompressobj(16 + zlib.MAX_WBITS)
         r += decompressor.decompress(data)
         if not decompressor.eof:
             raise EOFError(u'gzip stream is cut off')
         data = decompressor.unused_data
         if not data.startswith(b'\x1f\x8b'):
-            return r
+            break
+    return r
 
 
 def decode_deflate(data):
-- 
2.43.0

