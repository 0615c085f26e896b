From 368c8c234a1cfa5e4c9de7fca8eca3ec0ef32947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 01/57] fix: intern empty field names in the binary writer

dumps({'': 1}) raised AttributeError because the empty text is falsy.
---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From d187232d802b27145c4b5e2f54aa7d94081386a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 02/57] fix: convert decimals exactly between binary Ion and
 Decimal

Both directions used scaleb(), which is subject to the exponent limits of the
current decimal context: 1E-2000000 was read back as 0E-999999, 1E+2000000 as
an error, and timestamp fractions of more than 28 digits were rounded on
writing.
---
 amazon/ion/reader_binary.py     | 18 ++++--------------
 amazon/ion/writer_binary_raw.py | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..cd77a9a 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -186,22 +186,12 @@ def _parse_signed_int_components(buf):
 
 def _parse_decimal(buf):
     """Parses the remainder of a file-like object as a decimal."""
-    from decimal import localcontext
     exponent = _parse_var_int(buf, signed=True)
     sign_bit, coefficient = _parse_signed_int_components(buf)
 
-    if coefficient == 0:
-        # Handle the zero cases--especially negative zero
-        value = Decimal((sign_bit, (0,), exponent))
-    else:
-        coefficient *= sign_bit and -1 or 1
-        with localcontext() as context:
-            # Adjusting precision for taking into account arbitrarily
-            # large/small numbers
-            context.prec = len(str(coefficient))
-            value = Decimal(coefficient).scaleb(exponent)
-
-    return value
+    # Construction from the components is exact (including negative zero), i.e. it never depends on the precision and
+    # the exponent limits of the current decimal context.
+    return Decimal((sign_bit, Decimal(coefficient).as_tuple().digits, exponent))
 
 
 def _parse_sid_iter(data):
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..80345df 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 
 import six
@@ -170,9 +170,14 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
     return length
 
 
+def _decimal_coefficient(sign, digits):
+    # Both conversions are exact, unlike arithmetic, which is subject to the current decimal context.
+    return int(Decimal((sign, digits, 0)))
+
+
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _decimal_coefficient(sign, digits)
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
@@ -184,12 +189,10 @@ def _serialize_decimal(ion_event):
     buf = bytearray()
     value = ion_event.value
     validate_scalar_value(value, Decimal)
+    if not value.is_finite():
+        raise ValueError('Only finite decimals can be represented in Ion, found: %r' % (value,))
     sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily large/small
-        # numbers
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _decimal_coefficient(sign, digits)
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
         buf.append(_Zeros.DECIMAL)
-- 
2.43.0


From 6605764da799476c3c1463591e7309cb0b5e4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 03/57] fix: keep fractional seconds exact whatever the decimal
 context

The text reader rounded fractions to the context's precision (28 digits by
default), and the Timestamp constructor could round 0.999... up to a whole
second and raise, or round microseconds in a low precision context.
---
 amazon/ion/core.py        | 13 ++++++++++---
 amazon/ion/reader_text.py |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..6a4ef10 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -496,8 +496,14 @@ class Timestamp(datetime):
                 fractional_seconds_exponent = 0
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
-            # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            # Scale to microseconds and truncate to an integer. Note: decimal arithmetic would be subject to the current
+            # decimal context, e.g. might round up to a whole second.
+            _, digits, _ = fractional_seconds.as_tuple()
+            exponent = MICROSECOND_PRECISION + fractional_seconds_exponent
+            if exponent < 0:
+                digits = digits[:max(0, len(digits) + exponent)]
+                exponent = 0
+            args = replace_microsecond(int(Decimal((0, digits, exponent))))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
@@ -506,7 +512,8 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             else:
                 try:
-                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION)\
+                    sign, digits, _ = Decimal(datetime_microseconds).as_tuple()
+                    fractional_seconds = Decimal((sign, digits, -MICROSECOND_PRECISION))\
                         .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
                 except Inexact:
                     raise ValueError('microsecond value %d cannot be expressed exactly in %d digits.'
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..8702158 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -925,7 +925,8 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                # Note: this conversion is exact, i.e. it isn't subject to the current decimal context.
+                fraction = Decimal((0, Decimal(int(fraction)).as_tuple().digits, -1 * len(fraction)))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
-- 
2.43.0


From 856d4a06df9fc70981c09dec6204c7ae01f58e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 04/57] fix: quote text symbols which would denote a symbol ID
 or a version marker

The text writer wrote symbols such as '$10' and '$ion_2_0' without quotes; they
were read back as symbol IDs, or refused as unsupported version markers.
---
 amazon/ion/writer_text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..639e819 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -248,9 +248,12 @@ _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
 _UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
+# without quotes, these denote symbol IDs and Ion version markers, respectively
+_SYSTEM_SYMBOL_REGEX = re.compile(r'\A\$(?:[0-9]+|ion_[0-9]+_[0-9]+)\Z')
 
 def _symbol_needs_quotes(text):
-    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None
+    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None \
+        or _SYSTEM_SYMBOL_REGEX.search(text) is not None
 
 def _serialize_symbol_value(value, suffix=b''):
     # TODO Support not quoting operators in s-expressions: http://amzn.github.io/ion-docs/docs/symbols.html
-- 
2.43.0


From d349f4410364070849b884a447cc6b1a5aab9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 05/57] fix: write numbers of sub-classes as numbers in text
 Ion

Sub-classes of int, float and Decimal with their own string representation
(e.g. IntEnum) were written using that representation.
---
 amazon/ion/writer_text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 639e819..803d76d 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -86,8 +86,10 @@ def _serialize_scalar_from_string_representation_factory(type_name, types, str_f
     return serialize
 
 
+# Note: sub-classes (e.g. enumerations) may define an arbitrary string representation of their own.
 _serialize_int = _serialize_scalar_from_string_representation_factory(
-    'int', six.integer_types
+    'int', six.integer_types,
+    str_func=lambda val: '%d' % val
 )
 
 
@@ -103,7 +105,7 @@ def _float_str(val):
             return '+inf'
         else:
             return '-inf'
-    text = repr(val)
+    text = float.__repr__(val)
     if _EXPONENT_PAT.search(text) is None:
         text += 'e0'
     return text
@@ -116,7 +118,7 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
-    text = str(val)
+    text = Decimal.__str__(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
         new_text += 'd0'
-- 
2.43.0


From 767b5413fb6f252049e84ded007dcf3bbc801960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 06/57] fix: refuse to write non-finite decimals in text Ion

They were written as symbols, e.g. NaNd0; the binary writer already raises.
---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 803d76d..2400c2e 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -118,6 +118,8 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
+    if not val.is_finite():
+        raise ValueError('Only finite decimals can be represented in Ion, found: %r' % (val,))
     text = Decimal.__str__(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
-- 
2.43.0


From 446ceb5b2a6858fcc28c623afa02bdbda5be4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 07/57] fix: write timestamps without precision in text Ion

As in binary Ion, the precision defaults to seconds; it raised AttributeError.
---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 2400c2e..1440048 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -147,6 +147,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From 652635b0172344f693504babbba9051c5ff9dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 08/57] fix: derive the offset of text timestamps from the
 timestamp itself

Before 1900, the offset was derived from a copy in the year 2008, i.e. was wrong
if it depends on the date. Offsets with seconds were written as invalid Ion.
---
 amazon/ion/writer_text.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 1440048..40367e4 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -139,9 +139,14 @@ def _bytes_utc_offset(dt):
         return '-00:00'
     elif offset == _ZERO_DELTA:
         return 'Z'
-    offset_str = dt.strftime('%z')
-    offset_str = offset_str[:3] + ':' + offset_str[3:]
-    return offset_str
+    minutes, remainder = divmod(offset.days * 86400 + offset.seconds, 60)
+    if remainder or offset.microseconds:
+        raise ValueError('The offset of an Ion timestamp is a whole number of minutes, found: %s' % (offset,))
+    sign = '+'
+    if minutes < 0:
+        sign = '-'
+        minutes = -minutes
+    return '%s%02d:%02d' % (sign, minutes // 60, minutes % 60)
 
 
 def _bytes_datetime(dt):
@@ -177,7 +182,7 @@ def _bytes_datetime(dt):
     if precision.includes_second:
         tz_string += dt.strftime(':%S')
     else:
-        return tz_string + _bytes_utc_offset(dt)
+        return tz_string + _bytes_utc_offset(original_dt)
 
     if isinstance(original_dt, Timestamp):
         fractional_seconds = getattr(original_dt, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, None)
@@ -192,7 +197,7 @@ def _bytes_datetime(dt):
     else:
         # This must be a normal datetime, which always has a range-validated microsecond value.
         tz_string += '.' + dt.strftime('%f')
-    return tz_string + _bytes_utc_offset(dt)
+    return tz_string + _bytes_utc_offset(original_dt)
 
 
 _serialize_timestamp = _serialize_scalar_from_string_representation_factory(
-- 
2.43.0


From 1ffcd67d751cdd8e97842abea591645a36131510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 09/57] fix: only accept Ion whitespace as indentation

Other Unicode whitespace (e.g. U+001C or U+00A0) resulted in invalid text Ion.
---
 amazon/ion/writer_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 40367e4..4324e53 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -458,7 +458,7 @@ def raw_writer(indent=None):
         ``HAS_PENDING`` :class:`WriteEventType` events.
     """
 
-    is_whitespace_str = isinstance(indent, str) and re.search(r'\A\s*\Z', indent, re.M) is not None
+    is_whitespace_str = isinstance(indent, str) and re.search(r'\A[ \t\n\r\v\f]*\Z', indent, re.M) is not None
     if not (indent is None or is_whitespace_str):
         raise ValueError('The indent parameter must either be None or a string containing only whitespace')
 
-- 
2.43.0


From 281ee34700a20f78f92de4cd64e46c07435ad708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 10/57] fix: let vertical tabs and form feeds end values in
 text Ion

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 8702158..2749cc5 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From 7b8d3752605945977dd3b074226e98dc83619b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 11/57] fix: skip the current container in text Ion, not a
 sibling of a finished child

---
 amazon/ion/reader_text.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 2749cc5..534d0f0 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2155,14 +2155,17 @@ def _skip_trampoline(handler):
                 trans, delegate, event = pass_through()
                 if event is not None:
                     if event.event_type is IonEventType.CONTAINER_END and event.depth <= depth:
+                        depth = event.depth - 1  # The container that contains the skipped one is now current.
                         break
                 if event is None or event.event_type is IonEventType.INCOMPLETE:
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
-                depth = event.depth
+            if event is not None:
+                if event.event_type is IonEventType.CONTAINER_START:
+                    depth = event.depth
+                elif event.event_type is IonEventType.CONTAINER_END:
+                    depth = event.depth - 1  # The parent container is now current.
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From 83841df3d335ccad26d0ea612cd38cb90e135bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 12/57] fix: decode UTF-8 in quoted text when text Ion is read
 from bytes

---
 amazon/ion/reader_text.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 534d0f0..626d8b0 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2172,6 +2172,15 @@ def _skip_trampoline(handler):
 _next_code_point_iter = partial(_next_code_point, yield_char=_NARROW_BUILD)
 
 
+def _num_utf8_continuation_bytes(first):
+    """Returns the number of bytes that follow the given first byte of a multi-byte UTF-8 sequence."""
+    if first >= 0xf0:
+        return 3
+    if first >= 0xe0:
+        return 2
+    return 1
+
+
 @coroutine
 def _next_code_point_handler(whence, ctx):
     """Retrieves the next code point from within a quoted string or symbol."""
@@ -2255,6 +2264,18 @@ def _next_code_point_handler(whence, ctx):
             code_point = CodePoint(code_point)
             code_point.char = _ESCAPED_NEWLINE
             code_point.is_escaped = True
+        elif not queue.is_unicode and unicode_escapes_allowed and code_point > _MAX_CLOB_CHAR:
+            # The input is binary, i.e. UTF-8. Gather the rest of this multi-byte sequence.
+            octets = bytearray((code_point,))
+            for _ in range(_num_utf8_continuation_bytes(code_point)):
+                if len(queue) == 0:
+                    yield ctx.read_data_event(self)
+                octets.append(next(queue_iter))
+            try:
+                char = octets.decode(_ENCODING)
+            except UnicodeDecodeError:
+                _illegal_character(code_point, ctx, 'Invalid UTF-8 sequence %r.' % (bytes(octets),))
+            code_point = next(_next_code_point_iter(char, iter(char), to_int=ord))
         ctx.set_code_point(code_point)
         yield Transition(None, whence)
 
-- 
2.43.0


From 363efed8c56f99893e83f0488d9ffab91a2dc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 13/57] fix: load from the current position of the file

---
 amazon/ion/simpleion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..314ceee 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -355,8 +355,9 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
     if isinstance(fp, _TEXT_TYPES):
         raw_reader = text_reader(is_unicode=True)
     else:
+        position = fp.tell()
         maybe_ivm = fp.read(4)
-        fp.seek(0)
+        fp.seek(position)
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
         else:
-- 
2.43.0


From d8f15432cfbee1a2c32fb2baa65cebbe4bbbb885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 14/57] fix: keep precision, fraction and Ion properties when
 timestamps are copied

---
 amazon/ion/core.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 6a4ef10..db5b2b6 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -539,6 +539,18 @@ class Timestamp(datetime):
                 self.tzinfo, self.precision,
                 TIMESTAMP_FRACTION_PRECISION_FIELD, self.fractional_precision)
 
+    def __reduce_ex__(self, protocol):
+        # The superclass's support for copying and pickling only retains the fields of datetime.
+        fields = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
+        args = (self.__class__, fields, self.precision, self.fractional_seconds)
+        state = getattr(self, '__dict__', None)
+        if state:
+            return _new_timestamp, args, state
+        return _new_timestamp, args
+
+    def __reduce__(self):
+        return self.__reduce_ex__(2)
+
     @staticmethod
     def adjust_from_utc_fields(*args, **kwargs):
         """Constructs a timestamp from UTC fields adjusted to the local offset if given."""
@@ -568,6 +580,11 @@ class Timestamp(datetime):
         )
 
 
+def _new_timestamp(cls, fields, precision, fractional_seconds):
+    """Reconstructs a copied or pickled :class:`Timestamp`."""
+    return cls(*fields, precision=precision, fractional_seconds=fractional_seconds)
+
+
 def timestamp(year, month=1, day=1,
               hour=0, minute=0, second=0, microsecond=None,
               off_hours=None, off_minutes=None,
-- 
2.43.0


From dee8fbac2609b7c16a0cfca2478c4b326ec5f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 15/57] fix: keep Ion type and annotations when decimals are
 copied

---
 amazon/ion/simple_types.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 9db902d..e945c48 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -151,11 +151,26 @@ else:
 
 IonPyBool = IonPyInt
 IonPyFloat = _ion_type_for('IonPyFloat', float)
-IonPyDecimal = _ion_type_for('IonPyDecimal', Decimal)
 IonPyText = _ion_type_for('IonPyText', six.text_type)
 IonPyBytes = _ion_type_for('IonPyBytes', six.binary_type)
 
 
+class IonPyDecimal(Decimal, _IonNature):
+    def __init__(self, *args, **kwargs):
+        super(IonPyDecimal, self).__init__(*args, **kwargs)
+
+    # The superclass's support for copying and pickling only retains the number.
+
+    def __reduce__(self):
+        return self.__class__, (self.as_tuple(),), self.__dict__
+
+    def __copy__(self):
+        return self._copy()
+
+    def __deepcopy__(self, memo):
+        return self._copy()
+
+
 class IonPySymbol(SymbolToken, _IonNature):
     def __init__(self, *args, **kwargs):
         super(IonPySymbol, self).__init__(*args, **kwargs)
-- 
2.43.0


From 66d86bdfd3bebaeec15ee3eee295e7caca2e4d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 16/57] fix: keep repeated fields when a Multimap is
 constructed from another

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index db5b2b6..050f279 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -636,7 +636,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From ca00a626e9f5145041518d2d748a121643dc8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 17/57] fix: compare structs with repeated fields as bags

---
 amazon/ion/equivalence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..f252a64 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -148,8 +148,14 @@ def _structs_eq(a, b, comparison_func):
                 values_b = b.get_all_values(key)
                 if len(values_a) != len(values_b):
                     return False
+                # Fields are unordered. Each value has to be matched by a distinct value from the other struct.
+                unmatched = list(values_b)
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    for i, value_b in enumerate(unmatched):
+                        if comparison_func(value_a, value_b):
+                            del unmatched[i]
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From 833bd3042f9487bd18190e14c2d174f2af9787d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 18/57] fix: distinguish bool, int and the other numeric types
 in ion_equals

---
 amazon/ion/equivalence.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index f252a64..df5dcee 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -90,6 +90,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                     return _decimals_eq(a, b)
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
+                elif isinstance(a, six.integer_types):
+                    return _ints_eq(a, b)
                 else:
                     return a == b
             return False
@@ -107,6 +109,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
+        elif isinstance(a, six.integer_types):
+            return _ints_eq(a, b)
     return a == b
 
 
@@ -245,6 +249,20 @@ def _decimals_eq(a, b):
     return a.canonical().compare_total(b.canonical()) == 0
 
 
+def _is_bool(x):
+    if isinstance(x, _IonNature):
+        return x.ion_type is IonType.BOOL
+    return isinstance(x, bool)
+
+
+def _ints_eq(a, b):
+    """Compares two int or bool operands. These are never equivalent to each other, nor to any other numeric type."""
+    assert isinstance(a, six.integer_types)
+    if not isinstance(b, six.integer_types):
+        return False
+    return _is_bool(a) == _is_bool(b) and a == b
+
+
 def _is_float_negative_zero(x):
     return struct.pack('>d', x) == b'\x80\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From 780fa49860a6b7d6b84b01c7024f728e5738c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 19/57] fix: consider all fractional digits of timestamps, and
 elements of tuples, in ion_equals

---
 amazon/ion/equivalence.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index df5dcee..d129c21 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -97,7 +97,7 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
-        if isinstance(a, list):
+        if isinstance(a, (list, tuple)) and not isinstance(a, SymbolToken):
             return _sequences_eq(a, b, recursive_comparison_func)
         elif isinstance(a, dict):
             return _structs_eq(a, b, recursive_comparison_func)
@@ -182,30 +182,39 @@ def _timestamps_eq(a, b):
         if isinstance(a, Timestamp):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
-                if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
-                        and a.fractional_seconds == b.fractional_seconds:
+                if a.precision is b.precision and a.fractional_precision == b.fractional_precision \
+                        and _decimals_eq(a.fractional_seconds, b.fractional_seconds):
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif a.precision is not TimestampPrecision.SECOND \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
                 # if it has full microseconds precision.
                 return False
     return a == b
 
 
+def _fractional_seconds(ts):
+    if isinstance(ts, Timestamp):
+        return ts.fractional_seconds
+    return Decimal((0, Decimal(ts.microsecond).as_tuple().digits, -MICROSECOND_PRECISION))
+
+
 def _timestamp_instants_eq(a, b):
     """Compares two timestamp operands for point-in-time equivalence only."""
     assert isinstance(a, datetime)
     if not isinstance(b, datetime):
         return False
+    a_fraction, b_fraction = _fractional_seconds(a), _fractional_seconds(b)
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
     # offset (unknown local offset) is treated equivalently to a +00:00.
     if a.tzinfo is None:
         a = a.replace(tzinfo=OffsetTZInfo())
     if b.tzinfo is None:
         b = b.replace(tzinfo=OffsetTZInfo())
-    # datetime's __eq__ implementation compares instants; offsets and precision need not be equal.
-    return a == b
+    # datetime's __eq__ implementation compares instants; offsets and precision need not be equal. It does not see
+    # fractional seconds beyond microseconds. Note: offsets do not affect those.
+    return a == b and a_fraction == b_fraction
 
 
 def _symbols_eq(a, b):
-- 
2.43.0


From 2d646e958e949350a38726c0d9e0a370be11cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 20/57] fix: let elements of a symbols list that are not
 strings occupy a symbol ID

---
 amazon/ion/reader_managed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..eadf602 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -138,9 +138,8 @@ def _symbols_handler(symbols, whence):
             # We need to skip past this container (ignoring the end container event).
             ion_event, _ = yield Transition(SKIP_EVENT, self)
 
-        if ion_type is IonType.STRING:
-            # Add the potentially null text.
-            symbols.append(ion_event.value)
+        # Add the potentially null text. Anything that is not a string takes the place of a symbol with unknown text.
+        symbols.append(ion_event.value if ion_type is IonType.STRING else None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 99908b8b25925350bbdfd0844efcabf57ac452af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 21/57] fix: apply the defaults of malformed imports in local
 symbol tables

---
 amazon/ion/reader_managed.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index eadf602..33792c8 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -166,7 +166,13 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # Imports without a name, and (implicit) imports of the system table, are ignored.
+            if desc.name and desc.name != TEXT_ION:
+                # A version or max_id which is null or out of range is treated as if it was not given.
+                if desc.version is None or desc.version < 1:
+                    desc.version = 1
+                if desc.max_id is not None and desc.max_id < 0:
+                    desc.max_id = None
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
@@ -241,6 +247,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From 5829d54982e862c7a36c04c3773c32736dc059c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 22/57] fix: return the given default when a symbol table has
 no such text

---
 amazon/ion/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5b3a3e5 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -282,7 +282,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__mapping.get(key, default)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0


From 9d0d3c20c6a10a990eb70ed55882cab198431130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 23/57] fix: detect the under-run of variable length integers

---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index cd77a9a..85d9f24 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -135,7 +135,7 @@ def _parse_var_int_components(buf, signed):
     sign = 1
     while True:
         ch = buf.read(1)
-        if ch == '':
+        if ch == b'':
             raise IonException('Variable integer under-run')
         octet = ord(ch)
         if signed:
-- 
2.43.0


From c34575879f93ea2376e46f350e8065d1df99b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 24/57] fix: accept NOP pads in structs with any field name,
 and neither them nor IVMs in annotation wrappers

---
 amazon/ion/reader_binary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 85d9f24..f5c1f73 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -415,7 +415,7 @@ def _var_uint_field_handler(handler, ctx):
 def _ivm_handler(ctx):
     _, self = yield
 
-    if ctx.depth != 0:
+    if ctx.depth != 0 or ctx.annotations is not None:
         raise IonException('IVM encountered below top-level')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
@@ -429,9 +429,9 @@ def _ivm_handler(ctx):
 def _nop_pad_handler(ion_type, length, ctx):
     yield
 
-    if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
-        raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+    # Note: the field name of a NOP pad (if any) is of no significance.
+    if ctx.annotations is not None:
+        raise IonException('Cannot have NOP pad in an annotation wrapper.')
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From 828c53c3497a401b1433153c954c663bd7236a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 25/57] fix: refuse negative zero ints in binary Ion

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index f5c1f73..eaec02f 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -633,6 +633,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Negative zero is not an int.')
         return sign * value
     return parse_int
 
-- 
2.43.0


From 6644d0c4f5ef1e40d886897c5429022324af4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 26/57] fix: keep != the negation of == for events

---
 amazon/ion/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 050f279..bdd008c 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -168,6 +168,10 @@ class IonEvent(record(
             and self.depth == other.depth
         )
 
+    def __ne__(self, other):
+        # The superclass's operator compares the fields, and thunks, of the tuple.
+        return not self == other
+
     def derive_field_name(self, field_name):
         """Derives a new event from this one setting the ``field_name`` attribute.
 
-- 
2.43.0


From dde459d05ea43b1c6ba86262bbb63ba6ac109e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 27/57] fix: keep the delimiter of a value when a comment
 separates it from its field name or annotations

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 626d8b0..a2f99ae 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2044,6 +2044,8 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                # A comment between the field name or annotations and the value does not delimit the value.
+                child_context.set_self_delimiting(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From 676cf6d2395d9ffa200faf52ef64ef77272a12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 28/57] fix: let a line comment at the end of the stream follow
 an annotated symbol

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a2f99ae..9a5bb5d 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1961,7 +1961,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (not is_value_decorated() or has_pending_symbol())
                    )
                )
 
-- 
2.43.0


From 1bff595515f1aca3a43d824fe5f95b2cac34fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 29/57] fix: end the quoted text of empty symbols before what
 follows them

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 9a5bb5d..d7187fb 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1628,7 +1628,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        # Empty symbol. Its text ended before this character.
+        ctx.set_quoted_text(False).set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From 0c6e7c0a2dd87b650a6182a3146437dcea905e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 30/57] fix: let an annotation without text follow a long
 string

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index d7187fb..1de037e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2077,7 +2077,8 @@ def _container_handler(c, ctx):
                         # This is a composite transition, i.e. it is an event transition followed by an immediate
                         # transition to the handler coroutine for the next token.
                         next_transition = trans.next_transition
-                        child_context = trans.next_context
+                        # Note: this is the same context if an empty symbol followed.
+                        child_context = trans.next_context.set_composite(False)
                         assert next_transition is None or next_transition.event is None
                     else:
                         next_transition = None
-- 
2.43.0


From e54e1a4877cd2f7546a0c1584e8ab6a88ba82790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 31/57] fix: require a major version in version markers

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 1de037e..990ac20 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1471,7 +1471,7 @@ def _symbol_identifier_or_unquoted_symbol_handler(c, ctx, is_field_name=False):
                     if c in _DIGITS:
                         if ivm_post_underscore:
                             complete_ivm = True
-                    elif c == _UNDERSCORE and not ivm_post_underscore:
+                    elif c == _UNDERSCORE and not ivm_post_underscore and prev in _DIGITS:
                         ivm_post_underscore = True
                     else:
                         maybe_ivm = False
-- 
2.43.0


From 0b692526715cc715aadc7fe6610c0852a735dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 32/57] fix: only accept a time after a complete date in text
 timestamps

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 990ac20..aa33386 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -954,7 +954,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -975,7 +975,10 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    # Only a complete date may be followed by a time.
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From d2da20eb182ce836398729c1ca46d6aa7f7fd53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 33/57] fix: refuse text streams which end within a block
 comment

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index aa33386..bdf574b 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1043,6 +1043,8 @@ def _comment_handler(c, ctx, whence):
     while not done:
         c, _ = yield trans
         if block_comment:
+            if BufferQueue.is_eof(c):
+                _illegal_character(c, ctx, 'Unexpected EOF.')
             if prev == _ASTERISK and c == _SLASH:
                 done = True
             prev = c
-- 
2.43.0


From c1c8f4131567d7ca89c754b24b1c8cbd57f4286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 34/57] fix: require a colon after unquoted field names of a
 single character

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index bdf574b..673fef7 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1291,6 +1291,8 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
             elif _ends_value(c) or (in_sexp and c in _OPERATORS):
+                if is_field_name:
+                    _illegal_character(c, ctx, 'Illegal character after field name %s.' % (val,))
                 trans = ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, val.as_symbol())
             else:
                 trans = ctx.immediate_transition(_unquoted_symbol_handler(c, ctx, is_field_name=is_field_name))
-- 
2.43.0


From c83811dd81d8a86d5ed97f8ee49bccc3b2ca2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 35/57] fix: do not end the stream within an unfinished
 container in text Ion

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 673fef7..9d00b2e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2058,7 +2058,7 @@ def _container_handler(c, ctx):
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
                     handler = _VALUE_START_TABLE[c](c, child_context)  # Initialize the new handler
-                    can_flush = _IMMEDIATE_FLUSH_TABLE[c]
+                    can_flush = ctx.depth == 0 and _IMMEDIATE_FLUSH_TABLE[c]
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
-- 
2.43.0


From 7fa9a547efad46f7876e7ce6cba8b85a3a28cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 36/57] fix: emit an empty symbol which ends the stream after a
 long string

---
 amazon/ion/reader_text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 9d00b2e..dc17e5c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2104,8 +2104,9 @@ def _container_handler(c, ctx):
                             None,
                             _container_handler(c, ctx.derive_container_context(trans.event.ion_type, self))
                         )
-                    complete = ctx.depth == 0
-                    can_flush = False
+                    # An empty symbol which followed a long string is still pending; it may end the stream.
+                    can_flush = ctx.depth == 0 and bool(has_pending_symbol())
+                    complete = ctx.depth == 0 and not can_flush
                     if is_container or is_self_delimiting:
                         # The end of the value has been reached, and c needs to be updated
                         assert not ctx.quoted_text
-- 
2.43.0


From 6c6a0f209acab09f94a9440391174aa398e63aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 37/57] fix: only accept unescaped quotes at the start of long
 clobs

---
 amazon/ion/reader_text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dc17e5c..301bf4e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1687,13 +1687,15 @@ def _lob_start_handler(c, ctx):
                 _illegal_character(c, ctx)
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
-        elif c == _SINGLE_QUOTE:
+        elif c == _SINGLE_QUOTE and not _is_escaped(c):
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
             if quotes == 3:
                 yield ctx.immediate_transition(_long_string_handler(c, ctx))
         else:
+            if quotes > 0:
+                _illegal_character(c, ctx)
             yield ctx.immediate_transition(_blob_end_handler(c, ctx))
         c, _ = yield trans
 
-- 
2.43.0


From 702bdde4c4d4bed59f33feb98f3f34c70e0f3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 38/57] fix: refuse base64 digits after padding

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 301bf4e..cfede01 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1753,7 +1753,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
-- 
2.43.0


From 8f036e97a488863aa7478bd80149b2a8031ce393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 39/57] fix: do not lose the character after an operator which
 follows a comment

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index cfede01..913c07f 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1071,6 +1071,8 @@ def _sexp_slash_handler(c, ctx, whence=None, pending_event=None):
             # Since this is the start of a new value and not a comment, the pending event must be emitted.
             assert pending_event.event is not None
             yield _CompositeTransition(pending_event, ctx, partial(_operator_symbol_handler, _SLASH))
+        # A comment before the operator does not delimit it.
+        ctx.set_self_delimiting(False)
         yield ctx.immediate_transition(_operator_symbol_handler(_SLASH, ctx))
 
 
-- 
2.43.0


From 9ff7d2d6a82b597a2d9845d04aef879a8bf3892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 40/57] fix: do not take an octet 0x04 which arrives on its own
 for the end of the stream

---
 amazon/ion/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..76145c3 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,11 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(bytes):
+    """Equal octets are not necessarily distinct objects, unlike an instance of this class."""
+
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From 79896e358cb5f9c53cdec22f90811080b6ae3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 41/57] fix: refuse symbols whose text is not text in the
 binary writer

dumps({1: IonPyList()}) looked the int up as a symbol ID and wrote the field name $ion.
---
 amazon/ion/writer_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 0e8a450..7c658fa 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -114,6 +114,9 @@ def _symbol_table_coroutine(writer_buffer, imports):
             assert isinstance(symbol, six.text_type)
             key = symbol
             symbol_text = symbol
+        if symbol_text is not None and not isinstance(symbol_text, six.text_type):
+            # Otherwise, an int would be looked up as a symbol ID.
+            raise TypeError('The text of a symbol must be a Unicode sequence, found: %r' % (symbol_text,))
         token = local_symbols.get(key)
         if token is None:
             assert symbol_text is not None
-- 
2.43.0


From 427a50a51ba9d224cde73a66f1d3bcb5fd7522a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 42/57] fix: replace, not insert, on item assignment to the
 values of a repeated field

---
 amazon/ion/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index bdd008c..5b41bb6 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -688,7 +688,7 @@ class MultimapValue(MutableSequence):
             self.__store = []
 
     def insert(self, index, value):
-        self.__setitem__(index, value)
+        self.__store.insert(index, value)
 
     def __len__(self):
         return len(self.__store)
@@ -697,7 +697,7 @@ class MultimapValue(MutableSequence):
         return self.__store[index]
 
     def __setitem__(self, index, value):
-        self.__store.insert(index, value)
+        self.__store[index] = value
 
     def __delitem__(self, index):
         del self.__store[index]
-- 
2.43.0


From 417e93bd7cdfe4a2da367a144608a9daf15ca9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 43/57] fix: keep the identity of enumeration members when they
 are copied

---
 amazon/ion/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/util.py b/amazon/ion/util.py
index 475a5d7..9efc4ff 100644
--- a/amazon/ion/util.py
+++ b/amazon/ion/util.py
@@ -91,8 +91,9 @@ class Enum(int):
         self.name = name
         self.value = value
     
-    def __getnewargs__(self):
-        return (self.name, self.value)
+    def __reduce__(self):
+        # Members are compared by identity; copies and pickles have to denote the member itself.
+        return getattr, (type(self), self.name)
 
     def __str__(self):
         return '<%s.%s: %s>' % (type(self).__name__, self.name, self.value)
-- 
2.43.0


From 34453d6746f751b3501c792889b459975dc0ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 44/57] fix: keep the fraction of timestamps derived by
 replacement or arithmetic

---
 amazon/ion/core.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 5b41bb6..15416ae 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -460,6 +460,9 @@ class Timestamp(datetime):
             datetime_microseconds = args[DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX]
         elif TIMESTAMP_MICROSECOND_FIELD in kwargs:
             datetime_microseconds = kwargs.get(TIMESTAMP_MICROSECOND_FIELD)
+        elif len(args) == 1 and isinstance(args[0], tuple):
+            # PyPy's datetime constructs the results of its arithmetic from a single tuple with all of the fields.
+            datetime_microseconds = args[0][DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX]
         if TIMESTAMP_PRECISION_FIELD in kwargs:
             precision = kwargs.get(TIMESTAMP_PRECISION_FIELD)
             # Make sure we mask this before we construct the datetime.
@@ -543,6 +546,21 @@ class Timestamp(datetime):
                 self.tzinfo, self.precision,
                 TIMESTAMP_FRACTION_PRECISION_FIELD, self.fractional_precision)
 
+    def replace(self, *args, **kwargs):
+        """Replaces fields as the superclass does, keeping the precision, and the fraction unless it is replaced."""
+        replaced = super(Timestamp, self).replace(*args, **kwargs)
+        fields = {TIMESTAMP_PRECISION_FIELD: self.precision}
+        microsecond = kwargs.get(TIMESTAMP_MICROSECOND_FIELD)
+        if len(args) > DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX:
+            microsecond = args[DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX]
+        if microsecond is None:
+            fields[TIMESTAMP_FRACTIONAL_SECONDS_FIELD] = self.fractional_seconds
+        if getattr(replaced, 'fold', 0):
+            fields['fold'] = replaced.fold
+        return type(self)(replaced.year, replaced.month, replaced.day,
+                          replaced.hour, replaced.minute, replaced.second, microsecond,
+                          replaced.tzinfo, **fields)
+
     def __reduce_ex__(self, protocol):
         # The superclass's support for copying and pickling only retains the fields of datetime.
         fields = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
-- 
2.43.0


From c4c83d02333449747ac74e9e74165a41b1b53eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 45/57] fix: write a symbol token as one value when sequences
 are streams

---
 amazon/ion/simpleion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 314ceee..e5f3f44 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -149,7 +149,7 @@ def dump(obj, fp, imports=None, binary=True, sequence_as_stream=False, skipkeys=
     from_type = _FROM_TYPE_TUPLE_AS_SEXP if tuple_as_sexp else _FROM_TYPE
     if binary or not omit_version_marker:
         writer.send(ION_VERSION_MARKER_EVENT)  # The IVM is emitted automatically in binary; it's optional in text.
-    if sequence_as_stream and isinstance(obj, (list, tuple)):
+    if sequence_as_stream and isinstance(obj, (list, tuple)) and not isinstance(obj, SymbolToken):
         # Treat this top-level sequence as a stream; serialize its elements as top-level values, but don't serialize the
         # sequence itself.
         for top_level in obj:
-- 
2.43.0


From cedc3a4e64712253dae031aa7737d9ee3007efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 46/57] fix: write values of Ion classes which were not given
 an Ion type

---
 amazon/ion/simpleion.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index e5f3f44..bbd2a68 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -28,7 +28,7 @@ import six
 
 from amazon.ion.reader_text import text_reader
 from amazon.ion.writer_text import text_writer
-from .core import IonEvent, IonEventType, IonType, ION_STREAM_END_EVENT, Timestamp, ION_VERSION_MARKER_EVENT
+from .core import IonEvent, IonEventType, IonType, ION_STREAM_END_EVENT, Multimap, Timestamp, ION_VERSION_MARKER_EVENT
 from .exceptions import IonException
 from .reader import blocking_reader, NEXT_EVENT
 from .reader_binary import binary_reader
@@ -173,7 +173,8 @@ _FROM_TYPE = dict(chain(
         SymbolToken: IonType.SYMBOL,
         list: IonType.LIST,
         tuple: IonType.LIST,
-        dict: IonType.STRUCT
+        dict: IonType.STRUCT,
+        Multimap: IonType.STRUCT
     }),
     six.iteritems(
         dict(zip(six.integer_types, [IonType.INT] * len(six.integer_types)))
@@ -203,17 +204,18 @@ def _ion_type(obj, from_type):
 
 def _dump(obj, writer, from_type, field=None, in_struct=False, depth=0):
     null = is_null(obj)
-    try:
-        ion_type = obj.ion_type
-        ion_nature = True
-    except AttributeError:
-        ion_type = _ion_type(obj, from_type)
-        ion_nature = False
+    ion_type = getattr(obj, 'ion_type', None)
+    ion_nature = ion_type is not None
+    if not ion_nature:
+        # This includes instances of e.g. IonPyInt which were not given an Ion type, but may have annotations.
+        ion_type = IonType.NULL if null else _ion_type(obj, from_type)
+        annotations = getattr(obj, 'ion_annotations', ())
     if not null and ion_type.is_container:
         if ion_nature:
             event = obj.to_event(IonEventType.CONTAINER_START, field_name=field, in_struct=in_struct, depth=depth)
         else:
-            event = IonEvent(IonEventType.CONTAINER_START, ion_type, field_name=field, depth=depth)
+            event = IonEvent(IonEventType.CONTAINER_START, ion_type, field_name=field, annotations=annotations,
+                             depth=depth)
         writer.send(event)
         if ion_type is IonType.STRUCT:
             for field, val in six.iteritems(obj):
@@ -227,7 +229,8 @@ def _dump(obj, writer, from_type, field=None, in_struct=False, depth=0):
         if ion_nature:
             event = obj.to_event(IonEventType.SCALAR, field_name=field, in_struct=in_struct, depth=depth)
         else:
-            event = IonEvent(IonEventType.SCALAR, ion_type, obj, field_name=field, depth=depth)
+            event = IonEvent(IonEventType.SCALAR, ion_type, None if null else obj, field_name=field,
+                             annotations=annotations, depth=depth)
     writer.send(event)
 
 
-- 
2.43.0


From b88a877d5ff3801f96d856845646c9108c1ef46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 47/57] fix: let copies of shared symbol tables be imported by
 the binary writer

---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 7c658fa..916a25b 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -87,7 +87,7 @@ def _symbol_table_coroutine(writer_buffer, imports):
             write(_ION_EVENT_RAW_IMPORTS_LIST_START)
             for imported in imports:
                 # TODO The system table could be allowed as the first import.
-                if imported.table_type is not SHARED_TABLE_TYPE:
+                if imported.table_type != SHARED_TABLE_TYPE:
                     # TODO This should probably fail at creation of the managed writer coroutine,
                     # but that currently requires two imports iterations.
                     raise IonException('Only shared tables may be imported.')
-- 
2.43.0


From e49dadf8b33296e9f04cbfaffe449b8e88f315f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 48/57] fix: do not share the fields of a struct with its copy

---
 amazon/ion/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 15416ae..4a86385 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -676,6 +676,13 @@ class Multimap(MutableMapping):
         for key in six.iterkeys(self.__store):
             yield key
 
+    def __copy__(self):
+        # A shallow copy shares the values, but not the mapping.
+        copied = self.__class__.__new__(self.__class__)
+        copied.__dict__.update(self.__dict__)
+        copied.__store = OrderedDict((key, MultimapValue(*values)) for key, values in six.iteritems(self.__store))
+        return copied
+
     def add_item(self, key, value):
         if key in self.__store:
             self.__store[key].append(value)
-- 
2.43.0


From 65fcb325f7d3c9dd4707a5dbd31bba0d2cc57f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 49/57] fix: return the value of a lob as bytes however its
 data arrives

---
 amazon/ion/reader_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index eaec02f..9c47d03 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -729,8 +729,8 @@ def _string_factory(data):
 
 
 def _lob_factory(data):
-    # Lobs are a trivial return of the byte data.
-    return data
+    # Lobs are a trivial return of the byte data. Note: data which arrived in parts is accumulated in a bytearray.
+    return six.binary_type(data)
 
 
 #
-- 
2.43.0


From 4d500e4b45351ccdb818fe4bcb28d070f095a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 50/57] fix: datetimes whose tzinfo does not know the offset
 could not be written in binary

---
 amazon/ion/writer_binary_raw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 80345df..ff50885 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -249,12 +249,12 @@ def _serialize_timestamp(ion_event):
         precision = TimestampPrecision.SECOND
     validate_scalar_value(dt, datetime)
     value_buf = bytearray()
-    if dt.tzinfo is None:
+    offset = dt.utcoffset()  # None without a tzinfo, or if the tzinfo does not know.
+    if offset is None:
         value_buf.append(_VARINT_NEG_ZERO)  # This signifies an unknown local offset.
         length = 1
     else:
         # Normalize to UTC and write the offset field.
-        offset = dt.utcoffset()
         dt -= offset
         length = _write_varint(value_buf, int(total_seconds(offset) // 60))
     length += _write_varuint(value_buf, dt.year)
-- 
2.43.0


From afcfed0f946e7db3124fc84f2ffba8ec87555d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:38 +0000
Subject: [PATCH 51/57] fix: symbols like i or in directly after + or - in an
 S-expression were refused

---
 amazon/ion/reader_text.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 913c07f..80bee71 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1342,10 +1342,6 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
                 match_index += 1
             else:
                 ctx.set_unicode()
-                if match_index > 0:
-                    next_ctx = ctx.derive_child_context(ctx.whence)
-                    for ch in _INF_SUFFIX[0:match_index]:
-                        next_ctx.value.append(ch)
                 break
             c, self = yield trans
         if ctx.container is not _C_SEXP:
@@ -1355,11 +1351,14 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
             if c in _OPERATORS:
                 yield ctx.immediate_transition(_operator_symbol_handler(c, ctx))
             yield ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol())
+        # The operator is followed by another symbol. It has to be read from its start, because it may have ended already.
+        ctx.queue.unread(c)
+        for ch in reversed(_INF_SUFFIX[1:match_index]):
+            ctx.queue.unread(ch)
         yield _CompositeTransition(
             ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol()),
             ctx,
-            partial(_unquoted_symbol_handler, c),
-            next_ctx
+            partial(_symbol_or_keyword_handler, _INF_SUFFIX[0])
         )
     return inf_or_operator_handler
 
-- 
2.43.0


From e09eee1d914829358eb7c26b54917c0c1ba91d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 52/57] fix: the time of ion_equals doubled with each level of
 nested structs

---
 amazon/ion/equivalence.py | 51 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index d129c21..c12cb24 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -138,32 +138,35 @@ def _structs_eq(a, b, comparison_func):
     dict_len = len(a)
     if dict_len != len(b):
         return False
-    for a, b in ((a, b), (b, a)):
-        key_iter = six.iterkeys(a)
-        while True:
-            try:
-                key = next(key_iter)
-            except StopIteration:
-                break
-            if key not in b:
+    # Note: the values are compared in one direction only, so that the cost does not double with each level of nesting.
+    for key in six.iterkeys(b):
+        if key not in a:
+            return False
+    key_iter = six.iterkeys(a)
+    while True:
+        try:
+            key = next(key_iter)
+        except StopIteration:
+            break
+        if key not in b:
+            return False
+        if isinstance(a, Multimap) and isinstance(b, Multimap):
+            values_a = a.get_all_values(key)
+            values_b = b.get_all_values(key)
+            if len(values_a) != len(values_b):
                 return False
-            if isinstance(a, Multimap) and isinstance(b, Multimap):
-                values_a = a.get_all_values(key)
-                values_b = b.get_all_values(key)
-                if len(values_a) != len(values_b):
-                    return False
-                # Fields are unordered. Each value has to be matched by a distinct value from the other struct.
-                unmatched = list(values_b)
-                for value_a in values_a:
-                    for i, value_b in enumerate(unmatched):
-                        if comparison_func(value_a, value_b):
-                            del unmatched[i]
-                            break
-                    else:
-                        return False
-            else:
-                if not comparison_func(a[key], b[key]):
+            # Fields are unordered. Each value has to be matched by a distinct value from the other struct.
+            unmatched = list(values_b)
+            for value_a in values_a:
+                for i, value_b in enumerate(unmatched):
+                    if comparison_func(value_a, value_b):
+                        del unmatched[i]
+                        break
+                else:
                     return False
+        else:
+            if not comparison_func(a[key], b[key]):
+                return False
 
     return True
 
-- 
2.43.0


From 4a39841140d1918d2e5ec1ed50bba87717a45b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:44 +0000
Subject: [PATCH 53/57] fix: ion_equals compared plain Multimaps by the last
 value of each field only

---
 amazon/ion/equivalence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index c12cb24..64c3149 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -99,7 +99,7 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
         if isinstance(a, (list, tuple)) and not isinstance(a, SymbolToken):
             return _sequences_eq(a, b, recursive_comparison_func)
-        elif isinstance(a, dict):
+        elif isinstance(a, (dict, Multimap)):
             return _structs_eq(a, b, recursive_comparison_func)
         elif isinstance(a, datetime):
             return timestamp_comparison_func(a, b)
-- 
2.43.0


From eb0fa4b54c031a4fc3849a16603a988229ce73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:07 +0000
Subject: [PATCH 54/57] fix: ion_equals equates equal offsets whatever the
 tzinfo

Local times which are ambiguous in their time zone never equalled what was read back from them, nor did datetimes with
a tzinfo that does not know the offset.
---
 amazon/ion/equivalence.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 64c3149..2f80629 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -20,7 +20,7 @@ from __future__ import division
 from __future__ import print_function
 
 import struct
-from datetime import datetime
+from datetime import datetime, timedelta
 from decimal import Decimal
 from math import isnan
 
@@ -176,9 +176,7 @@ def _timestamps_eq(a, b):
     assert isinstance(a, datetime)
     if not isinstance(b, datetime):
         return False
-    # Local offsets must be equivalent.
-    if (a.tzinfo is None) ^ (b.tzinfo is None):
-        return False
+    # Local offsets must be equivalent. Note: a tzinfo may not know the offset.
     if a.utcoffset() != b.utcoffset():
         return False
     for a, b in ((a, b), (b, a)):
@@ -194,7 +192,9 @@ def _timestamps_eq(a, b):
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
                 # if it has full microseconds precision.
                 return False
-    return a == b
+    # The offsets are the same. datetime's __eq__ would not equate a time which is ambiguous in its time zone, e.g. at the
+    # end of daylight saving time, with any time from another time zone.
+    return a.replace(tzinfo=None) == b.replace(tzinfo=None)
 
 
 def _fractional_seconds(ts):
@@ -210,11 +210,10 @@ def _timestamp_instants_eq(a, b):
         return False
     a_fraction, b_fraction = _fractional_seconds(a), _fractional_seconds(b)
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
-    # offset (unknown local offset) is treated equivalently to a +00:00.
-    if a.tzinfo is None:
-        a = a.replace(tzinfo=OffsetTZInfo())
-    if b.tzinfo is None:
-        b = b.replace(tzinfo=OffsetTZInfo())
+    # offset (unknown local offset) is treated equivalently to a +00:00. Nor does it equate a time which is ambiguous in
+    # its time zone with any time from another time zone, unlike one whose offset is fixed.
+    a = a.replace(tzinfo=OffsetTZInfo(a.utcoffset() or timedelta()))
+    b = b.replace(tzinfo=OffsetTZInfo(b.utcoffset() or timedelta()))
     # datetime's __eq__ implementation compares instants; offsets and precision need not be equal. It does not see
     # fractional seconds beyond microseconds. Note: offsets do not affect those.
     return a == b and a_fraction == b_fraction
-- 
2.43.0


From 8a2e18bbd6adafe2e5c6c6ba00701b7bc03d7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 55/57] fix: Timestamps keep fold when they are copied, pickled
 or given an Ion type

---
 amazon/ion/core.py         | 7 ++++---
 amazon/ion/simple_types.py | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 4a86385..0e33764 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -564,7 +564,7 @@ class Timestamp(datetime):
     def __reduce_ex__(self, protocol):
         # The superclass's support for copying and pickling only retains the fields of datetime.
         fields = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
-        args = (self.__class__, fields, self.precision, self.fractional_seconds)
+        args = (self.__class__, fields, self.precision, self.fractional_seconds, getattr(self, 'fold', 0))
         state = getattr(self, '__dict__', None)
         if state:
             return _new_timestamp, args, state
@@ -602,9 +602,10 @@ class Timestamp(datetime):
         )
 
 
-def _new_timestamp(cls, fields, precision, fractional_seconds):
+def _new_timestamp(cls, fields, precision, fractional_seconds, fold=0):
     """Reconstructs a copied or pickled :class:`Timestamp`."""
-    return cls(*fields, precision=precision, fractional_seconds=fractional_seconds)
+    kwargs = {'fold': fold} if fold else {}
+    return cls(*fields, precision=precision, fractional_seconds=fractional_seconds, **kwargs)
 
 
 def timestamp(year, month=1, day=1,
diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index e945c48..38b6fa3 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -199,6 +199,9 @@ class IonPyTimestamp(Timestamp, _IonNature):
         else:
             args = (ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, ts.microsecond, ts.tzinfo)
             kwargs = {TIMESTAMP_PRECISION_FIELD: TimestampPrecision.SECOND}
+        if getattr(ts, 'fold', 0):
+            # The offset of an ambiguous local time depends on it.
+            kwargs['fold'] = ts.fold
         return args, kwargs
 
 
-- 
2.43.0


From 744d7653e262b68fa5e392c468b308a6bac4a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:18 +0000
Subject: [PATCH 56/57] fix: fields without a name of values without an Ion
 type are written as symbol zero

dump() wrote {None: IonPyInt(...)} as {$0: ...} but failed for {None: 1}, e.g. after setting the field of a loaded struct.
---
 amazon/ion/simpleion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index bbd2a68..84bbdca 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -210,6 +210,9 @@ def _dump(obj, writer, from_type, field=None, in_struct=False, depth=0):
         # This includes instances of e.g. IonPyInt which were not given an Ion type, but may have annotations.
         ion_type = IonType.NULL if null else _ion_type(obj, from_type)
         annotations = getattr(obj, 'ion_annotations', ())
+        if in_struct and field is None:
+            # As for values with an Ion type, this represents symbol zero.
+            field = SymbolToken(None, 0)
     if not null and ion_type.is_container:
         if ion_nature:
             event = obj.to_event(IonEventType.CONTAINER_START, field_name=field, in_struct=in_struct, depth=depth)
-- 
2.43.0


From c56d79781bc39764bc8bf0f55a66bc380a07bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:20 +0000
Subject: [PATCH 57/57] fix: an IonPyList that was not given an Ion type has
 the attributes of Ion values

list's initializer does not call that of _IonNature: ion_equals(IonPyList([1]), [1]) raised AttributeError.
---
 amazon/ion/simple_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 38b6fa3..c8f2c61 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -49,6 +49,10 @@ class _IonNature(object):
         The ``ion_event`` field is only provided if the value was derived from a low-level event.
         User constructed values will generally not set this field.
     """
+    # The initializers of some native types, e.g. list, do not call the one below.
+    ion_type = None
+    ion_annotations = ()
+
     def __init__(self, *args, **kwargs):
         self.ion_type = None
         self.ion_annotations = ()
-- 
2.43.0

