From 816cb55de7d1b3adfb12799197707131fda9486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 001/126] fix: derive Dialect formatting parameters from
 current attribute values

escape_character, line_terminators and trimmer were cached on first use, so
changing quoteChar, doubleQuote, lineTerminators or trim afterwards had no effect.
---
 src/csvw/dsv_dialects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index e35f391..c6cb95d 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -121,16 +121,16 @@ class Dialect(object):
             setattr(res, k, v)
         return res
 
-    @functools.cached_property
+    @property
     def escape_character(self):
         return None if self.quoteChar is None else ('"' if self.doubleQuote else '\\')
 
-    @functools.cached_property
+    @property
     def line_terminators(self):
         return [self.lineTerminators] \
             if isinstance(self.lineTerminators, str) else self.lineTerminators
 
-    @functools.cached_property
+    @property
     def trimmer(self):
         return {
             'true': lambda s: s.strip(),
-- 
2.43.0


From 3ab01dc5910787a76b458388c746bcd941c27747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 002/126] fix: skipRows counts rows, not physical lines

A multi-line row at the start of a file was not skipped, because the number of
its last line was compared to skipRows.
---
 src/csvw/dsv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..6402071 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -208,10 +208,12 @@ class UnicodeReader:
             self.f = lines
         self.reader = csv.reader(self.f, **self.kw)
         self.lineno = -1
+        self._rowno = -1
         return self
 
     def _next_row(self):
         self.lineno += 1
+        self._rowno += 1
         row = [
             s if isinstance(s, str) else s.decode(self._reader_encoding)
             for s in next(self.reader)]
@@ -224,10 +226,10 @@ class UnicodeReader:
             while (row and self.dialect.commentPrefix and  # noqa: W504
                    row[0].startswith(self.dialect.commentPrefix)) or \
                     ((not row or set(row) == {''}) and self.dialect.skipBlankRows) or \
-                    (self.lineno < self.dialect.skipRows):
+                    (self._rowno < self.dialect.skipRows):
                 if (row and self.dialect.commentPrefix and  # noqa: W504
                         row[0].startswith(self.dialect.commentPrefix)) or \
-                        (row and self.lineno < self.dialect.skipRows):
+                        (row and self._rowno < self.dialect.skipRows):
                     self.comments.append((
                         self.lineno,
                         self.dialect.delimiter.join(row).lstrip(self.dialect.commentPrefix).strip(),
-- 
2.43.0


From dd5cbdc55670d97ac6fbbc0aa8ea63a67c0175ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 003/126] fix: write decimals in positional notation with the
 declared separators

Decimals and floats whose repr uses scientific notation were written a power
of ten too small, and declaring only one of decimalChar and groupChar, or both
together with a pattern, produced the wrong separators.
---
 src/csvw/datatypes.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..5e2ddfc 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -476,6 +476,15 @@ class yearMonthDuration(duration):
     name = 'yearMonthDuration'
 
 
+def localize(v, decimalChar=None, groupChar=None):
+    """
+    Replace the decimal and group separators of a formatted number - both at once, because each one
+    may be the replacement for the other.
+    """
+    chars = {'.': decimalChar or '.', ',': groupChar or ','}
+    return ''.join(chars.get(c, c) for c in v)
+
+
 @register
 class decimal(anyAtomicType):
     """
@@ -566,18 +575,17 @@ class decimal(anyAtomicType):
 
     @staticmethod
     def to_string(v, pattern=None, decimalChar=None, groupChar=None):
+        if isinstance(v, float):
+            v = _decimal.Decimal(repr(v))
         if '{}'.format(v) in decimal._reverse_special:
             return decimal._reverse_special['{}'.format(v)]
 
         if pattern:
-            v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return localize(babel.numbers.format_decimal(v, pattern, 'en'), decimalChar, groupChar)
 
-        fmt = '{}' if groupChar is None else '{:,}'
+        fmt = '{:,}' if groupChar else '{}'
+        if isinstance(v, _decimal.Decimal):  # there is no scientific notation for decimals
+            fmt = '{:,f}' if groupChar else '{:f}'
         try:
             neg = v < 0
         except TypeError:
@@ -592,15 +600,7 @@ class decimal(anyAtomicType):
             return '{}{}{}.0'.format(sign, digits, zero_padding) if exp > 0 else (
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
-        if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
-        return v
+        return localize(v, decimalChar, groupChar)
 
 
 @register
-- 
2.43.0


From b9bdb96e32e76fba6ab0bab751709a732ba2e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 004/126] fix: read numbers with swapped decimalChar and
 groupChar

The separators were replaced one after the other when matching a pattern, so
'1.234,5' was rejected (or '1.5' accepted although the decimal separator is ',').
---
 src/csvw/datatypes.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 5e2ddfc..70b061c 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -485,6 +485,24 @@ def localize(v, decimalChar=None, groupChar=None):
     return ''.join(chars.get(c, c) for c in v)
 
 
+def delocalize(v, decimalChar=None, groupChar=None):
+    """
+    Replace the specified separators with the default ones - both at once, because each one may be
+    the default of the other.
+    """
+    chars = {}
+    if groupChar:
+        chars[groupChar] = ','
+    if decimalChar:
+        chars[decimalChar] = '.'
+    for c, specified in [(',', groupChar), ('.', decimalChar)]:
+        if specified and c not in chars and c in v:
+            raise ValueError('Invalid separator in number: {}'.format(v))
+    if not chars:
+        return v
+    return re.sub('|'.join(map(re.escape, chars)), lambda m: chars[m.group()], v)
+
+
 @register
 class decimal(anyAtomicType):
     """
@@ -548,8 +566,8 @@ class decimal(anyAtomicType):
             groupChar = ','
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
-        if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
+        plain = delocalize(v, decimalChar, groupChar) if isinstance(v, str) else v
+        if pattern and isinstance(v, str) and not NumberPattern(pattern).is_valid(plain):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
@@ -558,10 +576,7 @@ class decimal(anyAtomicType):
             if v in decimal._special:
                 warnings.warn('Invalid special value for decimal')
                 return _decimal.Decimal(decimal._special[v])
-            if groupChar:
-                v = v.replace(groupChar, '')
-            if decimalChar and decimalChar != '.':
-                v = v.replace(decimalChar, '.')
+            v = plain.replace(',', '') if groupChar else plain
             for c, factor in [('%', _decimal.Decimal('0.01')), ('‰', _decimal.Decimal('0.001'))]:
                 if c in v:
                     v = v.replace(c, '')
-- 
2.43.0


From ba5f7eb189b8836ca4769a7af4949751faa23e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 005/126] fix: do not round integers and decimals to 28 digits
 when reading

---
 src/csvw/datatypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 70b061c..26af077 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -584,7 +584,12 @@ class decimal(anyAtomicType):
             else:
                 factor = 1
         try:
-            return _decimal.Decimal(v) * factor
+            res = _decimal.Decimal(v)
+            if factor != 1:
+                with _decimal.localcontext() as ctx:  # must not round to 28 digits
+                    ctx.prec = max(ctx.prec, len(v) + 3)
+                    res *= factor
+            return res
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From 642a0b6efb5395f2bd326469484d1f0640eaaa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 006/126] fix: leading zeros count as digits when matching
 number patterns

'007' was rejected for the pattern '000', i.e. cells could not be read back.
---
 src/csvw/datatypes.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 26af077..55af139 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1210,8 +1210,8 @@ class NumberPattern:
 
     @property
     def min_digits_before_decimal_point(self):
-        integral_part = self.positive.split('.')[0]
-        match = re.search('([0]+)$', integral_part)
+        integral_part = self.positive.split('.')[0].replace(',', '')
+        match = re.search('([0]+)[%‰]?$', integral_part)
         if match:
             return len(match.groups()[0])
 
@@ -1257,21 +1257,8 @@ class NumberPattern:
         integral_part, _, decimal_part = s.partition('.')
         decimal_part, _, exponent = decimal_part.lower().partition('e')
         groups = integral_part.split(',')
-        significant, leadingzero, skip = [], False, True
-        for c in ''.join(groups):
-            if c in ['+', '-', '%',  # fixme: permil
-                     ]:
-                continue
-            if c == '0' and skip:
-                leadingzero = True
-                continue
-            if c != '0':
-                skip = False
-            significant.append(c)
-        if not significant and leadingzero:
-            significant = ['0']
         if self.min_digits_before_decimal_point and \
-                len(significant) < self.min_digits_before_decimal_point:
+                len(digits(''.join(groups))) < self.min_digits_before_decimal_point:
             return False
         if self.primary_grouping_size and groups:
             if len(digits(groups[-1])) > self.primary_grouping_size:
-- 
2.43.0


From e33aad1977a3945fa60a9b5dc6c9ee9050f6cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 007/126] fix: unreadable values are reported as ValueError

'INF' as integer and huge durations raised OverflowError, dates with timezone
compared with bounds without (or vice versa) TypeError, NaN compared with bounds
decimal.InvalidOperation - all of which escape the handling of invalid cells.
---
 src/csvw/datatypes.py | 7 ++++++-
 src/csvw/metadata.py  | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 55af139..29644c0 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -453,7 +453,10 @@ class duration(anyAtomicType):
     def to_python(v, format=None, **kw):
         if format and not re.match(format, v):
             raise ValueError
-        return isodate.parse_duration(v)
+        try:
+            return isodate.parse_duration(v)
+        except OverflowError:
+            duration.value_error(v)
 
     @staticmethod
     def to_string(v, format=None, **kw):
@@ -634,6 +637,8 @@ class integer(decimal):
     @classmethod
     def to_python(cls, v, **kw):
         res = decimal.to_python(v, **kw)
+        if not res.is_finite():
+            cls.value_error(v)
         numerator, denominator = res.as_integer_ratio()
         if denominator == 1:
             if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..96e0748 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -659,6 +659,11 @@ class Datatype(DescriptionBase):
         except TypeError:
             pass
         if self.basetype.minmax:
+            self._validate_bounds(v)
+        return v
+
+    def _validate_bounds(self, v):
+        try:
             if self.minimum is not None and v < self.minimum:
                 raise ValueError('value must be >= {}'.format(self.minimum))
             if self.minInclusive is not None and v < self.minInclusive:
@@ -671,7 +676,9 @@ class Datatype(DescriptionBase):
                 raise ValueError('value must be <= {}'.format(self.maxInclusive))
             if self.maxExclusive is not None and v >= self.maxExclusive:
                 raise ValueError('value must be < {}'.format(self.maxExclusive))
-        return v
+        except (TypeError, decimal.InvalidOperation):
+            # dates with and without timezone are not comparable, and neither is NaN
+            raise ValueError('value is not comparable with the specified bounds')
 
     def read(self, v):
         return self.validate(self.parse(v))
-- 
2.43.0


From 44605bd8f583bab8c53ebf9d52215cfff157c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 008/126] fix: NaN is not within any bounds

---
 src/csvw/metadata.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 96e0748..5bf8085 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -664,17 +664,17 @@ class Datatype(DescriptionBase):
 
     def _validate_bounds(self, v):
         try:
-            if self.minimum is not None and v < self.minimum:
+            if self.minimum is not None and not v >= self.minimum:
                 raise ValueError('value must be >= {}'.format(self.minimum))
-            if self.minInclusive is not None and v < self.minInclusive:
+            if self.minInclusive is not None and not v >= self.minInclusive:
                 raise ValueError('value must be >= {}'.format(self.minInclusive))
-            if self.minExclusive is not None and v <= self.minExclusive:
+            if self.minExclusive is not None and not v > self.minExclusive:
                 raise ValueError('value must be > {}'.format(self.minExclusive))
-            if self.maximum is not None and v > self.maximum:
+            if self.maximum is not None and not v <= self.maximum:
                 raise ValueError('value must be <= {}'.format(self.maximum))
-            if self.maxInclusive is not None and v > self.maxInclusive:
+            if self.maxInclusive is not None and not v <= self.maxInclusive:
                 raise ValueError('value must be <= {}'.format(self.maxInclusive))
-            if self.maxExclusive is not None and v >= self.maxExclusive:
+            if self.maxExclusive is not None and not v < self.maxExclusive:
                 raise ValueError('value must be < {}'.format(self.maxExclusive))
         except (TypeError, decimal.InvalidOperation):
             # dates with and without timezone are not comparable, and neither is NaN
-- 
2.43.0


From 9cb9a0934d614abe4d82f650cdcb46f1966feddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 009/126] fix: regex formats constrain the whole cell

A trailing line feed was accepted for strings, normalizedString ignored the format,
durations only had to start with a match (and an invalid regex failed on reading).
---
 src/csvw/datatypes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 29644c0..58f03a2 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -95,10 +95,10 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
+            # We wrap a regex specified as `format` property into a group and add `\Z` to
             # make sure the whole string is matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile(r'({})\Z'.format(datatype.format))}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
@@ -447,12 +447,16 @@ class duration(anyAtomicType):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        return {'format': datatype.format}
+        try:
+            return {'format': re.compile(datatype.format) if datatype.format else None}
+        except re.error:
+            warnings.warn('Invalid regex pattern as datatype format')
+        return {}
 
     @staticmethod
     def to_python(v, format=None, **kw):
-        if format and not re.match(format, v):
-            raise ValueError
+        if format and not format.fullmatch(v):
+            raise ValueError('invalid lexical value for duration: {}'.format(v))
         try:
             return isodate.parse_duration(v)
         except OverflowError:
@@ -911,7 +915,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From ea08f10d4a270db0d36160d2a011788c40141f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 010/126] fix: date and time values must match their format
 completely

Anything could follow the part described by the format ('2012-12-01junk'),
timezone offsets other than +hh:mm were dropped silently and surplus fractional digits
accepted.
---
 src/csvw/datatypes.py | 53 +++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 58f03a2..ff5372d 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -280,19 +280,17 @@ class boolean(anyAtomicType):
         return (true if v else false)[0]
 
 
-def with_tz(v, func, args, kw):
-    tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
-    tz = tz_pattern.search(v)
-    if tz:
-        v = v[:tz.start()]
-        tz = tz.groups()[0]
-    res = func(v, *args, **kw)
-    if tz:
-        dt = dateutil.parser.parse('{}{}'.format(datetime.datetime.now(), tz))
-        res = datetime.datetime(
-            res.year, res.month, res.day, res.hour, res.minute, res.second, res.microsecond,
-            dt.tzinfo)
-    return res
+def split_tz(v, regex, pattern):
+    """
+    Split optional timezone information off a value, making sure the rest is what `regex` specifies.
+    """
+    match = regex.match(v)
+    tz = v[match.end():] if match else ''
+    if not match or match.groupdict().get('extramicroseconds') or \
+            not re.fullmatch('( ?(Z|[+-][0-9]{2}(:?[0-9]{2})?))?', tz):
+        raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))
+    return v[:match.end()], \
+        dateutil.parser.isoparse('2000-01-01T00:00:00{}'.format(tz.strip())).tzinfo
 
 
 @register
@@ -309,14 +307,12 @@ class dateTime(anyAtomicType):
         return dt_format_and_regex(datatype.format)
 
     @staticmethod
-    def _parse(v, cls, regex, tz_marker=None):
+    def _parse(v, cls, regex, tzinfo=None):
         v = v.strip()
         try:
             comps = regex.match(v).groupdict()
         except AttributeError:  # pragma: no cover
             dateTime.value_error(v)
-        if comps.get('extramicroseconds'):
-            raise ValueError('Extra microseconds')
         if comps.get('microsecond'):
             # We have to convert decimal fractions of seconds to microseconds.
             # This is done by first chopping off anything under 6 decimal places,
@@ -327,22 +323,18 @@ class dateTime(anyAtomicType):
             d = datetime.date.today()
             for a in ['year', 'month', 'day']:
                 comps[a] = getattr(d, a)
-        res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
-        if tz_marker:
-            # Let dateutils take care of parsing the timezone info:
-            res = res.replace(tzinfo=dateutil.parser.parse(v).tzinfo)
-        return res
+        return cls(**{k: int(v) for k, v in comps.items() if v is not None}, tzinfo=tzinfo)
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
+        v, tzinfo = v.strip(), None
         if pattern and regex:
-            match = regex.match(v)
-            if not match:
-                raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))  # pragma:
+            v, tzinfo = split_tz(v, regex, pattern)
         try:
-            return dateutil.parser.isoparse(v)
+            res = dateutil.parser.isoparse(v)
+            return res.replace(tzinfo=tzinfo) if tzinfo else res
         except ValueError:
-            return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+            return dateTime._parse(v, datetime.datetime, regex, tzinfo=tzinfo)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -377,8 +369,7 @@ class date(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return with_tz(
-            v.strip(), dateTime.to_python, [], dict(regex=regex, fmt=fmt, pattern=pattern))
+        return dateTime.to_python(v, regex=regex, fmt=fmt, pattern=pattern)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -418,10 +409,8 @@ class _time(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        if pattern and 'x' in pattern.lower():
-            return dateutil.parser.parse('{}T{}'.format(datetime.date.today().isoformat(), v))
-        assert regex is not None
-        return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
+        v, tzinfo = split_tz(v.strip(), regex, pattern)
+        return dateTime._parse(v, datetime.datetime, regex, tzinfo=tzinfo)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-- 
2.43.0


From 8888b98f3d526c063dc92cc08f1553e0788029df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 011/126] fix: write the timezone of dates if the format asks
 for it

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ff5372d..57bebee 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -374,6 +374,8 @@ class date(dateTime):
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         from babel.dates import format_date
+        if tz_marker and isinstance(v, datetime.datetime):
+            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern, locale='en')
         if pattern:
             return format_date(v, format=pattern, locale='en')
         return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
-- 
2.43.0


From 7ad34b759db33c3f855faf859b5ebc7425d5f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 012/126] fix: zero is a bound when looking for contradictory
 datatype descriptions

---
 src/csvw/metadata.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5bf8085..7b6c223 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -579,7 +579,7 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 tuple((DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']))):
-            if any([getattr(self, at) for at in
+            if any([getattr(self, at) is not None for at in
                     'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()]):
                 raise ValueError(
                     'Applications MUST raise an error if minimum, minInclusive, maximum, '
@@ -589,23 +589,28 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 (DATATYPES['string'], DATATYPES['base64Binary'], DATATYPES['hexBinary'])):
-            if self.length or self.minLength or self.maxLength:
+            if any(at is not None for at in (self.length, self.minLength, self.maxLength)):
                 raise ValueError(
                     'Applications MUST raise an error if length, maxLength, or minLength are '
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        def contradicts(at1, at2, test=lambda v1, v2: True):
+            v1, v2 = getattr(self, at1), getattr(self, at2)
+            return v1 is not None and v2 is not None and test(v1, v2)
+
+        if contradicts('minInclusive', 'minExclusive') or \
+                contradicts('maxInclusive', 'maxExclusive'):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
+        if contradicts('minInclusive', 'maxExclusive', lambda min, max: max <= min) or \
+                contradicts('minInclusive', 'maxInclusive', lambda min, max: max < min):
             raise ValueError('')
 
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
+        if contradicts('minExclusive', 'maxExclusive', lambda min, max: max <= min) or \
+                contradicts('minExclusive', 'maxInclusive', lambda min, max: max <= min):
             raise ValueError('')
 
         if 'id' in self.at_props and any(
-- 
2.43.0


From 2c7abaf55b57c5cb9b5b268aa04c8a5d5222c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 013/126] fix: measure the length of anyURI values in
 characters

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7b6c223..c95c276 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -654,7 +654,8 @@ class Datatype(DescriptionBase):
         if v is None:
             return v
         try:
-            l_ = len(v or '')
+            # The length of a URI is the length of the text, not the number of its components:
+            l_ = len((v.unsplit() if hasattr(v, 'unsplit') else v) or '')
             if self.length is not None and l_ != self.length:
                 raise ValueError('value must have length {}'.format(self.length))
             if self.minLength is not None and l_ < self.minLength:
-- 
2.43.0


From 4d48d8359eb0cce10e25e976b0731704b6c2dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 014/126] fix: write None as empty cell if there are no null
 strings

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c95c276..ab35c61 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -855,7 +855,7 @@ class Column(Description):
 
         def fmt(v):
             if v is None:
-                return null[0]
+                return null[0] if null else ''
             if datatype:
                 return datatype.formatted(v)
             return v
-- 
2.43.0


From d9c34cc15bf9207a3f36856a55f0b014d964b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 015/126] fix: the default property is inherited

---
 src/csvw/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ab35c61..6a6d1c7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -759,6 +759,12 @@ class Description(DescriptionBase):
                 return self._parent.inherit_null()
         return self.null
 
+    def inherit_default(self):
+        if self.default == "":
+            if self._parent and hasattr(self._parent, 'inherit_default'):
+                return self._parent.inherit_default()
+        return self.default
+
 
 def converter_titles(v):
     try:
@@ -813,7 +819,7 @@ class Column(Description):
     def read(self, v, strict=True):
         required = self.inherit('required')
         null = self.inherit_null()
-        default = self.inherit('default')
+        default = self.inherit_default()
         separator = self.inherit('separator')
         datatype = self.inherit('datatype')
 
-- 
2.43.0


From a1d61d080fd0e63a2f1047c594c814f1453569c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 016/126] fix: write fractions of seconds exactly

babel computes them with floating point arithmetic: .29 was written as '.28' for
the format 'ss.SS', .9996 as '.1000' for 'ss.SSS', and 1.4 % of all microseconds
were off by one with the default format of dateTimeStamp.
---
 src/csvw/datatypes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 57bebee..439aa3b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -293,6 +293,18 @@ def split_tz(v, regex, pattern):
         dateutil.parser.isoparse('2000-01-01T00:00:00{}'.format(tz.strip())).tzinfo
 
 
+def fill_fraction(pattern, v):
+    """
+    Replace the marker for fractions of seconds in `pattern` with the (quoted) digits. (babel uses
+    floating point arithmetic and rounding, so may be off by one or yield too many digits.)
+    """
+    return re.sub(
+        'S+',
+        lambda m: "'{}'".format('{:06d}'.format(v.microsecond)[:len(m.group())].ljust(
+            len(m.group()), '0')),
+        pattern)
+
+
 @register
 class dateTime(anyAtomicType):
     """
@@ -339,7 +351,8 @@ class dateTime(anyAtomicType):
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
+            return babel.dates.format_datetime(
+                v, tzinfo=v.tzinfo, format=fill_fraction(pattern, v))
         return v.isoformat()
 
 
@@ -416,7 +429,7 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
+        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=fill_fraction(pattern, v))
 
 
 @register
-- 
2.43.0


From a4ad0ff786de676e85808ad14fbec3c01b910ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 017/126] fix: write negative timezone offsets with minutes
 correctly

-03:30 was written as -04:30.
---
 src/csvw/datatypes.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 439aa3b..8620e57 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -293,16 +293,29 @@ def split_tz(v, regex, pattern):
         dateutil.parser.isoparse('2000-01-01T00:00:00{}'.format(tz.strip())).tzinfo
 
 
-def fill_fraction(pattern, v):
+def fill_pattern(pattern, v):
     """
-    Replace the marker for fractions of seconds in `pattern` with the (quoted) digits. (babel uses
-    floating point arithmetic and rounding, so may be off by one or yield too many digits.)
+    Replace the markers for fractions of seconds and timezone in `pattern` with literal text.
+
+    babel uses floating point arithmetic and rounding for fractions of seconds, so may be off by one
+    or yield too many digits, and computes wrong hours for timezones such as -03:30.
     """
-    return re.sub(
-        'S+',
-        lambda m: "'{}'".format('{:06d}'.format(v.microsecond)[:len(m.group())].ljust(
-            len(m.group()), '0')),
-        pattern)
+    def fraction(m):
+        n = len(m.group())
+        return '{:06d}'.format(v.microsecond)[:n].ljust(n, '0')
+
+    def timezone(m):
+        minutes = int((v.utcoffset() or datetime.timedelta(0)).total_seconds() // 60)
+        if minutes == 0 and m.group().startswith('X'):
+            return "'Z'"
+        hours, mins = divmod(abs(minutes), 60)
+        return '{}{:02d}{}'.format(
+            '-' if minutes < 0 else '+',
+            hours,
+            '' if len(m.group()) == 1 and mins == 0 else
+            '{}{:02d}'.format(':' if len(m.group()) == 3 else '', mins))
+
+    return re.sub('[xX]+', timezone, re.sub('S+', fraction, pattern))
 
 
 @register
@@ -352,7 +365,7 @@ class dateTime(anyAtomicType):
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
             return babel.dates.format_datetime(
-                v, tzinfo=v.tzinfo, format=fill_fraction(pattern, v))
+                v, tzinfo=v.tzinfo, format=fill_pattern(pattern, v))
         return v.isoformat()
 
 
@@ -388,7 +401,8 @@ class date(dateTime):
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         from babel.dates import format_date
         if tz_marker and isinstance(v, datetime.datetime):
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern, locale='en')
+            return babel.dates.format_datetime(
+                v, tzinfo=v.tzinfo, format=fill_pattern(pattern, v), locale='en')
         if pattern:
             return format_date(v, format=pattern, locale='en')
         return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
@@ -429,7 +443,7 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=fill_fraction(pattern, v))
+        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=fill_pattern(pattern, v))
 
 
 @register
-- 
2.43.0


From c47016c5855d607215c608d882c10d5fcd300e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 018/126] fix: apply number formats to float, double and number

---
 src/csvw/datatypes.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 8620e57..58814fc 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -878,18 +878,31 @@ class _float(anyAtomicType):
         return {}
 
     @staticmethod
-    def to_python(v, pattern=None, **kw):
-        if pattern and not NumberPattern(pattern).is_valid(v):
+    def to_python(v, pattern=None, decimalChar=None, groupChar=None):
+        plain, factor = v, None
+        if isinstance(v, str):
+            if groupChar is None and pattern and ',' in pattern:
+                groupChar = ','
+            plain = delocalize(v, decimalChar, groupChar)
+        if pattern and not NumberPattern(pattern).is_valid(plain):
             raise ValueError(
                 'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
 
         try:
-            return float(v)
+            if isinstance(v, str) and (pattern or groupChar):
+                plain = plain.replace(',', '') if groupChar else plain
+                if plain[-1:] in ['%', '‰']:
+                    plain, factor = plain[:-1], {'%': '0.01', '‰': '0.001'}[plain[-1]]
+            res = float(plain)
+            return float(_decimal.Decimal(plain) * _decimal.Decimal(factor)) if factor else res
         except (TypeError, ValueError):
             _float.value_error(v)
 
     @staticmethod
-    def to_string(v, **kw):
+    def to_string(v, pattern=None, decimalChar=None, groupChar=None):
+        if (pattern or decimalChar or groupChar) and isinstance(v, float) and math.isfinite(v):
+            return decimal.to_string(
+                v, pattern=pattern, decimalChar=decimalChar, groupChar=groupChar)
         return '{}'.format(v)
 
 
-- 
2.43.0


From 18bef02fd8d0f78dc33c549e2f5bd02493603b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 019/126] fix: write numbers with more than 28 digits under a
 pattern

---
 src/csvw/datatypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 58814fc..abd0ce7 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -626,7 +626,12 @@ class decimal(anyAtomicType):
             return decimal._reverse_special['{}'.format(v)]
 
         if pattern:
-            return localize(babel.numbers.format_decimal(v, pattern, 'en'), decimalChar, groupChar)
+            d = _decimal.Decimal(v)
+            with _decimal.localcontext() as ctx:  # babel must be able to round to any pattern
+                ctx.prec = max(
+                    ctx.prec, len(d.as_tuple().digits) + abs(d.adjusted()) + len(pattern))
+                v = babel.numbers.format_decimal(v, pattern, 'en')
+            return localize(v, decimalChar, groupChar)
 
         fmt = '{:,}' if groupChar else '{}'
         if isinstance(v, _decimal.Decimal):  # there is no scientific notation for decimals
-- 
2.43.0


From 3f06b088094fea7e6a3844e5cfa5cab932afba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 020/126] fix: write special float values as XML Schema defines
 them

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index abd0ce7..91c2247 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -908,7 +908,8 @@ class _float(anyAtomicType):
         if (pattern or decimalChar or groupChar) and isinstance(v, float) and math.isfinite(v):
             return decimal.to_string(
                 v, pattern=pattern, decimalChar=decimalChar, groupChar=groupChar)
-        return '{}'.format(v)
+        res = '{}'.format(v)
+        return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(res, res)
 
 
 @register
-- 
2.43.0


From 377baa4f17e96fe48aeb37e85f06b34a4bf7a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 021/126] fix: minimum and maximum may contradict other bounds,
 too

---
 src/csvw/metadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6a6d1c7..bb15674 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -595,9 +595,12 @@ class Datatype(DescriptionBase):
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
+        def bounds(at):  # minimum and maximum are aliases of minInclusive and maxInclusive
+            alias = {'minInclusive': 'minimum', 'maxInclusive': 'maximum'}.get(at, at)
+            return [v for v in [getattr(self, at), getattr(self, alias)] if v is not None]
+
         def contradicts(at1, at2, test=lambda v1, v2: True):
-            v1, v2 = getattr(self, at1), getattr(self, at2)
-            return v1 is not None and v2 is not None and test(v1, v2)
+            return any(test(v1, v2) for v1 in bounds(at1) for v2 in bounds(at2))
 
         if contradicts('minInclusive', 'minExclusive') or \
                 contradicts('maxInclusive', 'maxExclusive'):
-- 
2.43.0


From e3c167d8e3a9655b9ca49f5d314edf761e4e6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 022/126] fix: durations have bounds, and bounds need not be
 comparable

---
 src/csvw/datatypes.py | 36 ++++++++++++++++++++++++++++++++++++
 src/csvw/metadata.py  | 30 ++++++++++++++++++++++--------
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 91c2247..ac71949 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -66,6 +66,13 @@ class anyAtomicType:
     def value_error(cls, v):
         raise ValueError('invalid lexical value for {}: {}'.format(cls.name, v))
 
+    @staticmethod
+    def comparable(v):
+        """
+        :return: An object representing `v` when comparing values with each other.
+        """
+        return v
+
     def __str__(self) -> str:
         return self.name
 
@@ -446,6 +453,30 @@ class _time(dateTime):
         return babel.dates.format_time(v, tzinfo=v.tzinfo, format=fill_pattern(pattern, v))
 
 
+class ComparableDuration:
+    """
+    Durations are only ordered if adding them to each of four points in time gives the same order.
+
+    .. seealso:: https://www.w3.org/TR/xmlschema11-2/#duration
+    """
+    def __init__(self, v):
+        self.ends = [
+            datetime.datetime(year, month, 1) + v
+            for year, month in [(1696, 9), (1697, 2), (1903, 3), (1903, 7)]]
+
+    def __lt__(self, other):
+        return all(e1 < e2 for e1, e2 in zip(self.ends, other.ends))
+
+    def __le__(self, other):
+        return self.ends == other.ends or self < other
+
+    def __gt__(self, other):
+        return other < self
+
+    def __ge__(self, other):
+        return other <= self
+
+
 @register
 class duration(anyAtomicType):
     """
@@ -461,8 +492,13 @@ class duration(anyAtomicType):
 
     """
     name = 'duration'
+    minmax = True
     example = 'P3Y6M4DT12H30M5S'
 
+    @staticmethod
+    def comparable(v):
+        return ComparableDuration(v)
+
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         try:
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index bb15674..4f7076c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -597,10 +597,15 @@ class Datatype(DescriptionBase):
 
         def bounds(at):  # minimum and maximum are aliases of minInclusive and maxInclusive
             alias = {'minInclusive': 'minimum', 'maxInclusive': 'maximum'}.get(at, at)
-            return [v for v in [getattr(self, at), getattr(self, alias)] if v is not None]
+            return [
+                self._comparable(v) for v in [getattr(self, at), getattr(self, alias)]
+                if v is not None]
 
         def contradicts(at1, at2, test=lambda v1, v2: True):
-            return any(test(v1, v2) for v1 in bounds(at1) for v2 in bounds(at2))
+            try:
+                return any(test(v1, v2) for v1 in bounds(at1) for v2 in bounds(at2))
+            except (TypeError, decimal.InvalidOperation):
+                raise ValueError('{} and {} are not comparable'.format(at1, at2))
 
         if contradicts('minInclusive', 'minExclusive') or \
                 contradicts('maxInclusive', 'maxExclusive'):
@@ -671,19 +676,28 @@ class Datatype(DescriptionBase):
             self._validate_bounds(v)
         return v
 
+    def _comparable(self, v):
+        try:
+            return self.basetype.comparable(v)
+        except OverflowError:
+            raise ValueError('value is out of range')
+
     def _validate_bounds(self, v):
+        def test(bound, op):
+            return bound is None or op(self._comparable(v), self._comparable(bound))
+
         try:
-            if self.minimum is not None and not v >= self.minimum:
+            if not test(self.minimum, operator.ge):
                 raise ValueError('value must be >= {}'.format(self.minimum))
-            if self.minInclusive is not None and not v >= self.minInclusive:
+            if not test(self.minInclusive, operator.ge):
                 raise ValueError('value must be >= {}'.format(self.minInclusive))
-            if self.minExclusive is not None and not v > self.minExclusive:
+            if not test(self.minExclusive, operator.gt):
                 raise ValueError('value must be > {}'.format(self.minExclusive))
-            if self.maximum is not None and not v <= self.maximum:
+            if not test(self.maximum, operator.le):
                 raise ValueError('value must be <= {}'.format(self.maximum))
-            if self.maxInclusive is not None and not v <= self.maxInclusive:
+            if not test(self.maxInclusive, operator.le):
                 raise ValueError('value must be <= {}'.format(self.maxInclusive))
-            if self.maxExclusive is not None and not v < self.maxExclusive:
+            if not test(self.maxExclusive, operator.lt):
                 raise ValueError('value must be < {}'.format(self.maxExclusive))
         except (TypeError, decimal.InvalidOperation):
             # dates with and without timezone are not comparable, and neither is NaN
-- 
2.43.0


From 3ab443be102184d6573e2bbf9f35aa6d8414e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 023/126] fix: columns with an empty list of titles have a
 default name

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4f7076c..a9f53c0 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -369,7 +369,7 @@ class NaturalLanguage(collections.OrderedDict):
         return self.getfirst() or next(iter(self.values()))[0]
 
     def getfirst(self, lang=None):
-        return self.get(lang, [None])[0]
+        return (self.get(lang) or [None])[0]
 
 
 def valid_id_property(v):
-- 
2.43.0


From d36830d1a1294862855734ab360e76392656ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 024/126] fix: titles in language und are titles without
 language

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a9f53c0..cebc44f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -347,7 +347,7 @@ class NaturalLanguage(collections.OrderedDict):
                         titles.append(vv)
                     else:
                         warnings.warn('Title with value which is not a string is ignored')
-                self[k] = titles
+                self[None if k == 'und' else k] = titles
         else:
             raise ValueError('invalid value type for NaturalLanguage')
 
-- 
2.43.0


From b8659b347a58e3b0d2d165ae7ef1f08f9b744808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 025/126] fix: missing required cells are reported according to
 inheritance and strictness

---
 src/csvw/metadata.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index cebc44f..9bcb3c8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1373,8 +1373,8 @@ class Table(TableLike):
                     virtualcols.append((col.header, col.valueUrl))
             else:
                 colnames.append(col.header)
-            if col.required:
-                requiredcols.add(col.header)
+                if col.inherit('required'):
+                    requiredcols.add(col.header)
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
@@ -1437,10 +1437,12 @@ class Table(TableLike):
             header_cols = [(j, h, c) for j, (h, c) in enumerate(header_cols)]
             missing = requiredcols - set(c.header for j, h, c in header_cols if c)
             if missing:
-                raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
+                if strict:
+                    raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
+                warnings.warn('{0} is missing required columns {1}'.format(fname, missing))
 
             for lineno, row in reader:
-                required = {h: j for j, h, c in header_cols if c and c.required}
+                required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
                 if (not header_cols) and row:
@@ -1474,11 +1476,13 @@ class Table(TableLike):
 
                 for k, j in required.items():
                     if k not in res:
-                        log_or_raise(
-                            '{0}:{1}:{2} {3}: {4}'.format(
-                                fname, lineno, j + 1, k, 'required column value is missing'),
-                            log=log)
-                        error = True
+                        msg = '{0}:{1}:{2} {3}: {4}'.format(
+                            fname, lineno, j + 1, k, 'required column value is missing')
+                        if strict:
+                            log_or_raise(msg, log=log)
+                            error = True
+                        else:
+                            warnings.warn(msg)
 
                 # Augment result with regular columns not provided in the data:
                 for key in colnames:
-- 
2.43.0


From 2d988d2c4358861fd592f950818c05735b9cce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 026/126] fix: tables can be read from file-like objects

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9bcb3c8..5781d97 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1380,6 +1380,8 @@ class Table(TableLike):
             if is_url(fname):
                 handle = io.TextIOWrapper(
                     io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+            elif hasattr(fname, 'read'):
+                handle = fname
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
-- 
2.43.0


From f312f87a22f9a4f6359467ca7194f6984baaedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 027/126] fix: read zipped and remote tables just as files

---
 src/csvw/metadata.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5781d97..b141abf 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -215,6 +215,15 @@ def json_open(filename, mode='r', encoding='utf-8'):
     return io.open(filename, mode, encoding=encoding)
 
 
+def text_handle(binary, dialect):
+    """
+    Decode data just as `UnicodeReader` does when opening a file.
+    """
+    encoding = dialect.python_encoding
+    return io.TextIOWrapper(
+        binary, encoding='utf-8-sig' if encoding == 'utf-8' else encoding, newline='')
+
+
 def get_json(fname) -> typing.Union[list, dict]:
     fname = str(fname)
     if is_url(fname):
@@ -1378,8 +1387,7 @@ class Table(TableLike):
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
-                handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+                handle = text_handle(io.BytesIO(requests.get(str(fname)).content), dialect)
             elif hasattr(fname, 'read'):
                 handle = fname
             else:
@@ -1389,9 +1397,10 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = io.TextIOWrapper(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
-                            encoding=dialect.encoding)
+                        handle = text_handle(
+                            zipf.open([
+                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),
+                            dialect)
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From 52a57973566f272e3fa5f4d04951cd3f75c5488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 028/126] fix: list-valued columns can be part of a primary key

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b141abf..8be52a5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1332,7 +1332,8 @@ class Table(TableLike):
             seen = set()
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
-                pk = get_pk(row)
+                # The values of list-valued columns are lists, thus not hashable.
+                pk = get_pk({k: tuple(v) if isinstance(v, list) else v for k, v in row.items()})
                 if pk in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
-- 
2.43.0


From 67c91b854006d958f4e252cebfca83d0ccc36c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 029/126] fix: do not look for keys if the foreign keys
 themselves are invalid

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8be52a5..a0adb10 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1637,8 +1637,8 @@ class TableGroup(TableLike):
             self.validate_schema()
             success = True
         except ValueError as e:
-            success = False
             log_or_raise(str(e), log=log, level='error')
+            return False
         fkeys = self.foreign_keys()
         # FIXME: We only support Foreign Key references between tables!
         fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))
-- 
2.43.0


From 6f3c1a92bd5c189eace4e03df6372a9f40f900c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 030/126] fix: log null foreign keys in strict mode if there is
 a log

---
 src/csvw/metadata.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a0adb10..29b9677 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1626,16 +1626,20 @@ class TableGroup(TableLike):
         if data is not None:
             warnings.warn('the data argument of check_referential_integrity '
                           'is deprecated (its content will be ignored)')  # pragma: no cover
+        success = True
         if strict:
             for t in self.tables:
                 for fk in t.tableSchema.foreignKeys:
-                    for row in t:
+                    for row in t.iterdicts(log=nolog() if log else None):
                         if any(row.get(col) is None for col in fk.columnReference):
-                            raise ValueError('Foreign key column is null: {} {}'.format(
-                                [row.get(col) for col in fk.columnReference], fk.columnReference))
+                            log_or_raise(
+                                'Foreign key column is null: {} {}'.format(
+                                    [row.get(col) for col in fk.columnReference],
+                                    fk.columnReference),
+                                log=log)
+                            success = False
         try:
             self.validate_schema()
-            success = True
         except ValueError as e:
             log_or_raise(str(e), log=log, level='error')
             return False
-- 
2.43.0


From 3a4c070acc29751b85656d9474c4fd25ca015100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 031/126] fix: columns of any name can be used along with URI
 templates

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 29b9677..936c3d8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1208,9 +1208,9 @@ class TableLike(Description):
         else:
             res = Link(
                 tmpl.expand(
+                    {_k: _v for _k, _v in row.items() if isinstance(_k, str)},
                     _row=_row,
                     _name=_name,
-                    **{_k: _v for _k, _v in row.items() if isinstance(_k, str)}
                 )).resolve(self.url.resolve(self.base) if self.url else self.base)
         if not isinstance(res, pathlib.Path):
             if qname:
@@ -1502,7 +1502,7 @@ class Table(TableLike):
 
                 # Augment result with virtual columns:
                 for key, valueUrl in virtualcols:
-                    res[key] = valueUrl.expand(**res)
+                    res[key] = valueUrl.expand(res)
 
                 if not error:
                     if with_metadata:
-- 
2.43.0


From 8f30b6b03e5a7cecb25926f39bf382df13b86ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 032/126] fix: integers are expanded as text in URI templates,
 zero included

---
 src/csvw/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 936c3d8..9aed12b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -259,6 +259,12 @@ class URITemplate(uritemplate.URITemplate):
             return False
         return super(URITemplate, self).__eq__(other)
 
+    def expand(self, var_dict=None, **kwargs):
+        # Make sure 0 is not regarded as empty value, and prefixes of numbers can be computed.
+        return super(URITemplate, self).expand({
+            k: '{}'.format(v) if isinstance(v, int) else v
+            for k, v in dict(var_dict or {}, **kwargs).items()})
+
     def asdict(self, **kw):
         return '{}'.format(self)
 
-- 
2.43.0


From fbb7c097757d1baf65e24fad8f198a0f1ef7a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 033/126] fix: URIs can be part of composite foreign keys

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9aed12b..812261f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1684,7 +1684,7 @@ class TableGroup(TableLike):
                         else:
                             colrefs = [colref]
                         for colref in colrefs:
-                            if not single_column and None in colref:  # pragma: no cover
+                            if not single_column and any(c is None for c in colref):
                                 # TODO: raise if any(c is not None for c in colref)?
                                 continue
                             elif colref not in seen:
-- 
2.43.0


From 47b711a872ec89ace6d9cfaf9a9392a0a084960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 034/126] fix: URI templates of local tables expand to strings

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 812261f..d6803fe 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1224,7 +1224,7 @@ class TableLike(Description):
                     if res.startswith(url):
                         res = res.replace(url, prefix + ':')
                         break
-        return res
+        return str(res)
 
 
 @attr.s
-- 
2.43.0


From acaf1e4c1fe6a6f6ea0c41e18838c0126f14cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 035/126] fix: expand URI templates which are prefixed names,
 too

---
 src/csvw/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d6803fe..e35cb48 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1209,7 +1209,13 @@ class TableLike(Description):
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
                 # from turning it into a local path.
-                res = '{}{}'.format(url, tmpl.uri.split(':')[1])
+                res = '{}{}'.format(
+                    url,
+                    tmpl.expand(
+                        {_k: _v for _k, _v in row.items() if isinstance(_k, str)},
+                        _row=_row,
+                        _name=_name,
+                    ).split(':', maxsplit=1)[1])
                 break
         else:
             res = Link(
-- 
2.43.0


From d15b8258f752ef5f9a3ee821f6f9003d723fb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 036/126] fix: convert the items of list-valued cells to JSON

---
 src/csvw/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..d4b1def 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -21,6 +21,8 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    if isinstance(value, list):
+        return [format_value(v, col) for v in value]
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
         if col and col.datatype.base == 'time':
-- 
2.43.0


From bc5a5cfd8b401696c98df8fd91b31a474a0c4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 037/126] fix: convert values with inherited datatypes to JSON

---
 src/csvw/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index d4b1def..d1f752a 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -23,11 +23,12 @@ def format_value(value, col):
     """
     if isinstance(value, list):
         return [format_value(v, col) for v in value]
+    datatype = col.inherit('datatype') if col else None
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
             stamp, _, milliseconds = res.partition('.')
@@ -35,15 +36,15 @@ def format_value(value, col):
                 else stamp.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
-- 
2.43.0


From 54ac9793622b067964b13623a40a4355087202e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 038/126] fix: convert times with fractions of seconds and
 timezone to JSON

---
 src/csvw/jsonld.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index d1f752a..0aaa562 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -31,9 +31,8 @@ def format_value(value, col):
         if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            # Strip trailing zeros of fractions of seconds, but leave the timezone alone:
+            return re.sub(r'(\.[0-9]*?)0+(?![0-9])', r'\1', res).replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
         return datatype.formatted(value)
-- 
2.43.0


From 55718475a4e4f1439a45434bac601456e3eca470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 039/126] fix: minimal mode JSON contains all objects described
 by a row

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e35cb48..3d06769 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1861,7 +1861,7 @@ class CSVW:
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
             return list(
-                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))
+                itertools.chain(*[r['describes'] for t in res['tables'] for r in t['row']]))
 
         return res
 
-- 
2.43.0


From c03049c27fe09e069dfce115a312f6f335c08d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 040/126] fix: simplify JSON-LD values which are not strings

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 0aaa562..eddb003 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -119,7 +119,7 @@ def to_json(obj, flatten_list=False):
     """
     if isinstance(obj, dict):
         if '@value' in obj:
-            obj = obj['@value']
+            return obj['@value']
         if len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
-- 
2.43.0


From 6caaff833186c9ecadc5ed0244e46372f4f4d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 041/126] fix: only merge lists which are values of the same
 property of the same object

---
 src/csvw/jsonld.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index eddb003..a737796 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -141,8 +141,9 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     for triple in triples:
         if isinstance(triple.value, list):
             for t in merged:
-                if t.property == triple.property and isinstance(t.value, list):
-                    t.value.extend(triple.value)
+                if t.about == triple.about and t.property == triple.property \
+                        and isinstance(t.value, list):
+                    t.value = t.value + triple.value
                     break
             else:
                 merged.append(triple)
-- 
2.43.0


From b16588b0890fb73d2f15357cd422e409de456b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 042/126] fix: list values of objects with aboutUrl are
 converted to one triple per item

---
 src/csvw/jsonld.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index a737796..4f37667 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -61,11 +61,12 @@ class Triple:
     property = attr.ib()
     value = attr.ib()
 
-    def as_rdflib_triple(self):
-        return (
-            URIRef(self.about),
-            URIRef(self.property),
-            URIRef(self.value) if is_url(self.value) else Literal(self.value))
+    def as_rdflib_triples(self):
+        for value in self.value if isinstance(self.value, list) else [self.value]:
+            yield (
+                URIRef(self.about),
+                URIRef(self.property),
+                URIRef(value) if isinstance(value, str) and is_url(value) else Literal(value))
 
     @classmethod
     def from_col(cls, table, col, row, prop, val, rownum):
@@ -172,11 +173,14 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
 
     g = Graph()
     for triple in triples:
-        g.add(triple.as_rdflib_triple())
+        for t in triple.as_rdflib_triples():
+            g.add(t)
     if '@id' in grouped:
         for prop, val in grouped.items():
             if prop != '@id':
-                g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
+                for t in Triple(
+                        about=grouped['@id'], property=prop, value=val).as_rdflib_triples():
+                    g.add(t)
     res = g.serialize(format='json-ld')
     # Frame and simplify the resulting objects, augment with list index:
     res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
-- 
2.43.0


From a38c51483d22903085471a5152c4ba50fe2af0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 043/126] fix: properties of rows without aboutUrl must not get
 lost in JSON

---
 src/csvw/jsonld.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 4f37667..6586ac4 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -193,4 +193,7 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
         grouped.update(res[0])
         return [grouped]
 
+    if grouped and '@id' not in grouped:
+        # Properties of the row without aboutUrl describe an object of their own.
+        return [grouped] + res
     return res
-- 
2.43.0


From 2d970c87611006eb612e621a98018061f0c20a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 044/126] fix: empty list values are omitted in JSON if the
 separator is inherited

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3d06769..b28314a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1923,7 +1923,7 @@ class CSVW:
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
             if (null and v in null) or v == "" or (v is None) or \
-                    (col and col.separator and v == []):
+                    (col and col.inherit('separator') and v == []):
                 continue
 
             triples.append(jsonld.Triple.from_col(
-- 
2.43.0


From c351bb2221946bbb045eff9f4d329693eb77f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 045/126] fix: row titles are formatted as JSON values

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b28314a..40d2b7e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1898,7 +1898,8 @@ class CSVW:
         res['rownum'] = rownum
         if table.tableSchema.rowTitles:
             res['titles'] = [
-                t for t in [row.get(name) for name in table.tableSchema.rowTitles] if t]
+                jsonld.format_value(t, cols.get(name)) for name, t in [
+                    (name, row.get(name)) for name in table.tableSchema.rowTitles] if t]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From 836671407bb046f6d1525316d7b6be674e9264fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 046/126] fix: conversion to JSON must not alter the metadata

---
 src/csvw/jsonld.py   | 4 ++--
 src/csvw/metadata.py | 3 ---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 6586ac4..13d96fb 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -75,12 +75,12 @@ class Triple:
         """
         _name = col.header if col else None
 
-        propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
+        propertyUrl = col.inherit('propertyUrl') if col else table.inherit('propertyUrl')
         if propertyUrl:
             prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)
 
         is_type = prop == 'rdf:type'
-        valueUrl = col.valueUrl if col else table.inherit('valueUrl')
+        valueUrl = col.inherit('valueUrl') if col else table.inherit('valueUrl')
         if valueUrl:
             val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)
         val = format_value(val, col)
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 40d2b7e..e75136b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1878,9 +1878,6 @@ class CSVW:
         res.update(jsonld.to_json(table.common_props))
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
-        for col in cols.values():
-            col.propertyUrl = col.inherit('propertyUrl')
-            col.valueUrl = col.inherit('valueUrl')
 
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
-- 
2.43.0


From f6c1b8218f61393f05f0ba7d8566d4a2d66c95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 047/126] fix: validity must not depend on the active warning
 filters

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e75136b..60f6cf7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1715,6 +1715,7 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                warnings.simplefilter('always')
 
             no_header = False
             try:
@@ -1768,6 +1769,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('always')
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-- 
2.43.0


From 8332d7383d8b7401827b966df8ea8e8731eee50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 048/126] fix: objects referencing themselves must not get lost
 in JSON

---
 src/csvw/jsonld.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 13d96fb..60c5439 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -108,9 +108,16 @@ def frame(data: list) -> list:
                     refid = v.get('@id')
                     if refid:
                         refs.setdefault(refid, (v, []))[1].append(item)
+    inlined = {}
     for ref, subjects in refs.values():
         if len(subjects) == 1 and ref['@id'] in items:
-            ref.update(items.pop(ref['@id']))
+            # Objects (transitively) referencing themselves can't be inlined.
+            root = subjects[0].get('@id')
+            while root in inlined:
+                root = inlined[root]
+            if root != ref['@id']:
+                inlined[ref['@id']] = subjects[0].get('@id')
+                ref.update(items.pop(ref['@id']))
     return list(items.values())
 
 
-- 
2.43.0


From feb9ef9373af895c9fa14cb5842dd735ad45632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 049/126] fix: rdf:type is converted to @type for objects with
 and without aboutUrl

---
 src/csvw/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 60c5439..543332d 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -176,7 +176,8 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
             else:
                 triples.append(triple)
     if not triples:
-        return [grouped]
+        return [collections.OrderedDict(
+            ('@type' if k == 'rdf:type' else k, v) for k, v in grouped.items())]
 
     g = Graph()
     for triple in triples:
-- 
2.43.0


From aaa5a81f7331c3abac7ad33a2e87d7ddc9079f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 050/126] fix: virtual columns without value or with output
 suppressed are not converted to JSON

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 60f6cf7..2f32af1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1936,6 +1936,6 @@ class CSVW:
                 rownum))
 
         for col in table.tableSchema.columns:
-            if col.virtual:
+            if col.virtual and col.inherit('valueUrl') and not col.suppressOutput:
                 triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From a00ca02e59fa6e3b2c6a6eb10b0239f5a533d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 051/126] fix: CSV files which happen to be JSON or are not
 UTF-8 encoded are no metadata

---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2f32af1..bac02f8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1722,7 +1722,9 @@ class CSVW:
                 md = get_json(md_url or url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
+                md = None
+            if not isinstance(md, dict):
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-- 
2.43.0


From 26243bad19367715ac4a123394860b79e84b3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 052/126] fix: keep the column names of local files without
 metadata when converting to JSON

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index bac02f8..8b03e7e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1728,7 +1728,8 @@ class CSVW:
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-            self.no_metadata = set(md.keys()) == {'@context', 'url'}
+            # The description of local files without metadata specifies a @base, too.
+            self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
-- 
2.43.0


From 84e842091389a3e4f61fc7282f810daa0b9f884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 053/126] fix: null in lists is not converted to a string in
 JSON

---
 src/csvw/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 543332d..47788b5 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -63,6 +63,8 @@ class Triple:
 
     def as_rdflib_triples(self):
         for value in self.value if isinstance(self.value, list) else [self.value]:
+            if value is None:  # There are no triples for null.
+                continue
             yield (
                 URIRef(self.about),
                 URIRef(self.property),
-- 
2.43.0


From a2ed05d8706d1bc09dcaabab2228bf8254efbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 054/126] fix: values of rows without aboutUrl are not lost
 when merged with the only other object

---
 src/csvw/jsonld.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 47788b5..9d123c5 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -177,9 +177,10 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
                     grouped[triple.property] = triple.value
             else:
                 triples.append(triple)
+    row = collections.OrderedDict(
+        ('@type' if k == 'rdf:type' else k, v) for k, v in grouped.items())
     if not triples:
-        return [collections.OrderedDict(
-            ('@type' if k == 'rdf:type' else k, v) for k, v in grouped.items())]
+        return [row]
 
     g = Graph()
     for triple in triples:
@@ -200,10 +201,15 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
     if grouped and ('@id' not in grouped) and len(res) == 1:
-        grouped.update(res[0])
-        return [grouped]
+        for prop, val in res[0].items():
+            if prop in row:
+                row[prop] = [
+                    v for vs in (row[prop], val) for v in (vs if isinstance(vs, list) else [vs])]
+            else:
+                row[prop] = val
+        return [row]
 
     if grouped and '@id' not in grouped:
         # Properties of the row without aboutUrl describe an object of their own.
-        return [grouped] + res
+        return [row] + res
     return res
-- 
2.43.0


From 2fc75606fa367c2ec3d01882f85fbf22f1b90e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 055/126] fix: lists along with other values of a property are
 not converted to a string in JSON

---
 src/csvw/jsonld.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 9d123c5..6542318 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -189,9 +189,10 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     if '@id' in grouped:
         for prop, val in grouped.items():
             if prop != '@id':
-                for t in Triple(
-                        about=grouped['@id'], property=prop, value=val).as_rdflib_triples():
-                    g.add(t)
+                for v in val if isinstance(val, list) else [val]:
+                    for t in Triple(
+                            about=grouped['@id'], property=prop, value=v).as_rdflib_triples():
+                        g.add(t)
     res = g.serialize(format='json-ld')
     # Frame and simplify the resulting objects, augment with list index:
     res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
-- 
2.43.0


From 721624b3dcf56a50c14e0d2a030969ec88ba7c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 056/126] fix: several columns with neither name nor title are
 no duplicates

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8b03e7e..688ec68 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -984,6 +984,7 @@ class Schema(Description):
     def __attrs_post_init__(self):
         virtual, seen, names = False, set(), set()
         for i, col in enumerate(self.columns):
+            col._number = i + 1
             if col.name and (col.name.startswith('_') or re.search(r'\s', col.name)):
                 warnings.warn('Invalid column name')
             if col.virtual:  # first virtual column sets the flag
@@ -999,7 +1000,6 @@ class Schema(Description):
                     names.add(col.name)
                 seen.add(col.header)
             col._parent = self
-            col._number = i + 1
         for colref in self.primaryKey or []:
             col = self.columndict.get(colref)
             if col and not col.name:
-- 
2.43.0


From 3180d16b31c98ae258db85da2711584a5fcdd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 057/126] fix: match database values to columns by name, not by
 the key order of the first row

---
 src/csvw/db.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..09e06cf 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -536,12 +536,12 @@ FROM {2} {3} GROUP BY {0}""".format(
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], []
+                rows, keys = [], {}  # keys is used as ordered set of column names.
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
-                    pk = row[t.primary_key[0]] \
+                for row in items[t.name]:
+                    pk = row.get(t.primary_key[0]) \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
                             assert pk
@@ -569,11 +569,11 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = json.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
-                insert(db, self.translate, t.name, keys, *rows)
+                            keys[col.name] = values[col.name] = v
+                    rows.append(values)
+                insert(
+                    db, self.translate, t.name, list(keys),
+                    *[tuple(row.get(k) for k in keys) for row in rows])
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From b763d97a2aafba1bd6dcac4014f2fb527d3007ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 058/126] fix: accept 0 and the empty string as primary key of
 rows with list-valued foreign keys

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 09e06cf..b774226 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -544,7 +544,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                     values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None or not v
                             at = t.many_to_many[k]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
-- 
2.43.0


From 3bde9fd8005ee4309be0bd285fb7cb65f0cdb201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 059/126] fix: translate the names of list-valued foreign key
 columns without items, too

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index b774226..21e9c91 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -485,7 +485,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
+                    d.update({self.translate(tname, k): [] for k in table.many_to_many})
                     d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
-- 
2.43.0


From 3c06481116236d46822b9401666c7e843fc9c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 060/126] fix: do not limit the number of tables of a database
 to 100

---
 src/csvw/db.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 21e9c91..0b9c076 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -326,16 +326,17 @@ def schema(tg: csvw.TableGroup,
 
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
-    i = 0
+    progress = True
 
     # We loop through the tables repeatedly, and whenever we find one, which has all
     # referenced tables already in ordered, we move it from tables to ordered.
-    while tables and i < 100:
-        i += 1
+    while tables and progress:
+        progress = False
         for table in list(tables.keys()):
             if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                 # All referenced tables are already created (or self-referential).
                 ordered[table] = tables.pop(table)
+                progress = True
                 break
     if tables:  # pragma: no cover
         raise ValueError('there seem to be cyclic dependencies between the tables')
-- 
2.43.0


From 66bd899749375d53f6d2ea5dd72ad746eeff7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 061/126] fix: keep the pairing of columns in composite foreign
 keys

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 0b9c076..0d6db03 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -246,9 +246,9 @@ class TableSpec(object):
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        fk.columnReference,
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        fk.reference.columnReference,
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From 490d5e1bce6c98e633ed296fc0d5ac49e31a7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 062/126] fix: read decimals from the database as written, not
 as binary fraction

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 0d6db03..3e66270 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -61,7 +61,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(repr(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From a935c7deecda10aad256ca2c2b5ec1da89b3b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 063/126] fix: regard columns with inherited separator as
 list-valued foreign keys

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 3e66270..7e0637a 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -225,7 +225,7 @@ class TableSpec(object):
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
-        list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
-- 
2.43.0


From eb1736933d197d77d40d39a7995b11f4e98fa003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 064/126] fix: store lists of values which have no JSON
 representation in the database

---
 src/csvw/db.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 7e0637a..2af331c 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -447,7 +447,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 # FIXME: how much do we want to use DB types? Probably as much as possible!
                 # Thus we need to convert on write **and** read!
                 #
-                convert, seps, refs = {}, {}, collections.defaultdict(dict)
+                convert, seps, dts, refs = {}, {}, {}, collections.defaultdict(dict)
                 table = self.tdict[tname]  # The TableSpec object.
 
                 # Assemble the conversion dictionary:
@@ -463,6 +463,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             seps[self.translate(tname, col.name)] = col.separator
                         else:
                             seps[self.translate(tname, col.name)] = 'json'
+                            dts[self.translate(tname, col.name)] = DATATYPES[col.csvw_type]
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
@@ -479,7 +480,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif not v:
                                 d[k] = []
                             elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                                d[k] = [
+                                    dts[k].to_python(v_) if isinstance(v_, str) else v_
+                                    for v_ in json.loads(v)]
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
@@ -561,13 +564,16 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     raise ValueError(
                                         'unspecified column {0} found in data'.format(k))
                             col = cols[k]
-                            if isinstance(v, list):
+                            if isinstance(v, list) and (col.separator or col.csvw_type != 'json'):
                                 # Note: This assumes list-valued columns are of datatype string!
                                 if col.csvw_type == 'string':
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    # Values which JSON can't represent are stored as strings.
+                                    v = json.dumps([
+                                        vv if isinstance(vv, (type(None), bool, int, float))
+                                        else DATATYPES[col.csvw_type].to_string(vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
                             keys[col.name] = values[col.name] = v
-- 
2.43.0


From d553fd85ab299926cad271f2dd4c49e42b9592c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 065/126] fix: write and read values of datatype time to and
 from the database

---
 src/csvw/db.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 2af331c..a378a5d 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -28,6 +28,7 @@ SQLite support has the following limitations:
 import json
 import typing
 import decimal
+import datetime
 import pathlib
 import sqlite3
 import functools
@@ -66,9 +67,26 @@ TYPE_MAP = {
         'BLOB',
         identity,
         identity),
+    'time': (
+        'TEXT',
+        lambda s: s if s is None else s.timetz().isoformat(),
+        lambda s: s if s is None else datetime.datetime.combine(
+            datetime.date.today(), datetime.time.fromisoformat(s))),
 }
 
 
+def to_string(csvw_type: str, value) -> str:
+    if csvw_type == 'time':
+        return TYPE_MAP['time'][1](value)
+    return DATATYPES[csvw_type].to_string(value)
+
+
+def to_python(csvw_type: str, value: str):
+    if csvw_type == 'time':
+        return TYPE_MAP['time'][2](value)
+    return DATATYPES[csvw_type].to_python(value)
+
+
 class SchemaTranslator(typing.Protocol):
     def __call__(self, table: str, column: typing.Optional[str] = None) -> str:
         ...  # pragma: no cover
@@ -463,7 +481,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             seps[self.translate(tname, col.name)] = col.separator
                         else:
                             seps[self.translate(tname, col.name)] = 'json'
-                            dts[self.translate(tname, col.name)] = DATATYPES[col.csvw_type]
+                            dts[self.translate(tname, col.name)] = col.csvw_type
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
@@ -481,7 +499,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                                 d[k] = []
                             elif seps[k] == 'json':
                                 d[k] = [
-                                    dts[k].to_python(v_) if isinstance(v_, str) else v_
+                                    to_python(dts[k], v_) if isinstance(v_, str) else v_
                                     for v_ in json.loads(v)]
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
@@ -573,7 +591,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     # Values which JSON can't represent are stored as strings.
                                     v = json.dumps([
                                         vv if isinstance(vv, (type(None), bool, int, float))
-                                        else DATATYPES[col.csvw_type].to_string(vv) for vv in v])
+                                        else to_string(col.csvw_type, vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
                             keys[col.name] = values[col.name] = v
-- 
2.43.0


From 8b508540c052f31bffd990ec50daa75e2131a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 066/126] fix: make database constraints compare values
 according to their datatype

---
 src/csvw/db.py | 63 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index a378a5d..b3e136a 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -172,32 +172,47 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:  # The items of a list cannot be checked.
             return
-        c, cname = self.csvw, translate(self.name)
+        c, cname = self.csvw, '`{0}`'.format(translate(self.name))
+        datatype = DATATYPES[self.csvw_type]
         constraints = []
-        if (c.minimum is not None) or (c.maximum is not None):
-            func = {
-                'date': 'date',
-                'datetime': 'datetime',
-            }.get(self.csvw_type)
-            if c.minimum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
-            if c.maximum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
-        elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
-            if c.length:
-                constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
-            if c.minLength:
-                constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
-            if c.maxLength:
-                constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
+
+        # Determine how to compare values of the datatype in SQL - considering how these are stored.
+        if self.db_type in ('INTEGER', 'REAL'):
+            value, bound = '{0}', '{0}'
+        elif issubclass(datatype, DATATYPES['integer']):
+            value, bound = 'CAST({0} AS INTEGER)', '{0}'
+        elif issubclass(datatype, DATATYPES['float']):
+            value = bound = "CASE {0} WHEN 'INF' THEN 9e999 WHEN '-INF' THEN -9e999 " \
+                "ELSE CAST({0} AS REAL) END"
+        elif issubclass(datatype, DATATYPES['time']):
+            value = bound = "strftime('%H:%M:%f', {0})"
+        elif issubclass(datatype, DATATYPES['datetime']):
+            value = bound = "strftime('%Y-%m-%d %H:%M:%f', {0})"
+        else:  # The order of values (e.g. of durations) is not available in SQL.
+            value = bound = None
+
+        if value:
+            for op, limits in [
+                ('>=', (c.minimum, c.minInclusive)),
+                ('>', (c.minExclusive,)),
+                ('<=', (c.maximum, c.maxInclusive)),
+                ('<', (c.maxExclusive,)),
+            ]:
+                for limit in limits:
+                    if limit is not None:
+                        if value == bound and self.db_type == 'TEXT':
+                            limit = "'{0}'".format(to_string(self.csvw_type, limit))
+                        constraints.append('{0} {1} {2}'.format(
+                            value.format(cname), op, bound.format(limit)))
+
+        if self.db_type == 'BLOB' or (
+                issubclass(datatype, DATATYPES['string'])
+                and not issubclass(datatype, DATATYPES['json'])):
+            for op, limit in [('=', c.length), ('>=', c.minLength), ('<=', c.maxLength)]:
+                if limit is not None:
+                    constraints.append('length({0}) {1} {2}'.format(cname, op, limit))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
-- 
2.43.0


From f51105bbd45a58a8075bd20673169d592397cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 067/126] fix: keep datatype, whitespace and order of the items
 of list-valued foreign keys

---
 src/csvw/db.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index b3e136a..f16c07b 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -259,6 +259,9 @@ class TableSpec(object):
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
         list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
+        datatypes = {
+            c.header: c.inherit('datatype').base
+            for c in table.tableSchema.columns if c.inherit('datatype')}
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
@@ -276,6 +279,8 @@ class TableSpec(object):
                         spec.primary_key[0],
                         fk.reference.resource.string,
                         fk.reference.columnReference[0],
+                        datatypes.get(spec.primary_key[0]),
+                        datatypes.get(fk.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
@@ -296,7 +301,8 @@ class TableSpec(object):
         return spec
 
     @classmethod
-    def association_table(cls, atable, apk, btable, bpk) -> 'TableSpec':
+    def association_table(
+            cls, atable, apk, btable, bpk, atype=None, btype=None) -> 'TableSpec':
         """
         List-valued foreignKeys are supported as follows: For each pair of tables related through a
         list-valued foreign key, an association table is created. To make it possible to distinguish
@@ -304,8 +310,8 @@ class TableSpec(object):
         a column `context`, which stores the name of the foreign key column from which a row in the
         assocation table was created.
         """
-        afk = ColSpec('{0}_{1}'.format(atable, apk))
-        bfk = ColSpec('{0}_{1}'.format(btable, bpk))
+        afk = ColSpec('{0}_{1}'.format(atable, apk), csvw_type=atype)
+        bfk = ColSpec('{0}_{1}'.format(btable, bpk), csvw_type=btype)
         if afk.name == bfk.name:
             afk.name += '_1'
             bfk.name += '_2'
@@ -439,20 +445,18 @@ class Database(object):
 
     def select_many_to_many(self, db, table, context) -> dict:
         if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
+            context_sql, params = "WHERE {0} = ?", (context,)
         else:
-            context_sql = ''
-        sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
-                quoted(self.translate(table.name, table.columns[0].name)),
-                quoted(self.translate(table.name, table.columns[1].name)),
-                quoted(self.translate(table.name)),
-                context_sql)
-        cu = db.execute(sql)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+            context_sql, params = '', ()
+        pk, fk, context_col = [
+            quoted(self.translate(table.name, col.name)) for col in table.columns]
+        sql = "SELECT {0}, {1}, COALESCE({2}, '') FROM {3} {4} ORDER BY rowid".format(
+            pk, fk, context_col, quoted(self.translate(table.name)), context_sql.format(context_col))
+        res = collections.defaultdict(list)
+        for k, v, ctx in db.execute(sql, params).fetchall():
+            v = table.columns[1].read(v)
+            res[table.columns[0].read(k)].append((v, ctx) if context is None else v)
+        return dict(res)
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
@@ -588,7 +592,10 @@ FROM {2} {3} GROUP BY {0}""".format(
                             # values of list-valued columns.
                             for vv in (v or []):
                                 fkey, context = self.association_table_context(t, k, vv)
-                                refs[atkey].append((pk, fkey, context))
+                                refs[atkey].append((
+                                    at.columns[0].convert(pk),
+                                    at.columns[1].convert(fkey),
+                                    context))
                         else:
                             if k not in cols:
                                 if _skip_extra:
-- 
2.43.0


From cc8ebf939520f7b62b85f4bfef29cac22593a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 068/126] fix: write rows to the database which have no values
 at all

---
 src/csvw/db.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index f16c07b..e1f13f2 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -577,7 +577,7 @@ class Database(object):
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], {}  # keys is used as ordered set of column names.
+                rows = []
                 cols = {c.name: c for c in t.columns}
                 for row in items[t.name]:
                     pk = row.get(t.primary_key[0]) \
@@ -616,11 +616,11 @@ class Database(object):
                                         else to_string(col.csvw_type, vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
-                            keys[col.name] = values[col.name] = v
+                            values[col.name] = v
                     rows.append(values)
                 insert(
-                    db, self.translate, t.name, list(keys),
-                    *[tuple(row.get(k) for k in keys) for row in rows])
+                    db, self.translate, t.name, list(cols),
+                    *[tuple(row.get(k) for k in cols) for row in rows])
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From abc8f6b761c34b2d9690781f0e6f0ea3a8589e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 069/126] fix: ignore JSON documents which are no descriptions
 when locating metadata

---
 src/csvw/metadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 688ec68..be8d3c6 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1796,10 +1796,13 @@ class CSVW:
         `§5. Locating Metadata <https://w3c.github.io/csvw/syntax/#locating-metadata>`_
         """
         def describes(md, url):
-            for table in md.get('tables', [md]):
+            # Not every JSON document is a description of tables.
+            tables = md.get('tables', [md]) if isinstance(md, dict) else None
+            for table in tables if isinstance(tables, list) else []:
                 # FIXME: We check whether the metadata describes a CSV file just superficially,
                 # by comparing the last path components of the respective URLs.
-                if url.split('/')[-1] == table['url'].split('/')[-1]:
+                if isinstance(table, dict) and isinstance(table.get('url'), str) \
+                        and url.split('/')[-1] == table['url'].split('/')[-1]:
                     return True
             return False
 
-- 
2.43.0


From ec419ba53b792e642afa227da4c6ff336e6ed499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 070/126] fix: ignore describedby links without a type

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index be8d3c6..43cfb18 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1813,7 +1813,7 @@ class CSVW:
             res = requests.head(url)
             no_header = bool(re.search(r'header\s*=\s*absent', res.headers.get('content-type', '')))
             desc = res.links.get('describedby')
-            if desc and desc['type'] in [
+            if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
                 md = get_json(Link(desc['url']).resolve(url))
                 if describes(md, url):
-- 
2.43.0


From 6266b523a77d425425421c5bc59953250df0f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 071/126] fix: resolve links in metadata located on the web
 against the URL of the metadata

---
 src/csvw/metadata.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 43cfb18..20b3041 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1727,6 +1727,8 @@ class CSVW:
             if not isinstance(md, dict):
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
+            elif md_url and is_url(md_url) and is_url(url):
+                md.setdefault('@base', urljoin(str(md_url), urlparse(str(md_url)).path))
 
             # The description of local files without metadata specifies a @base, too.
             self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
@@ -1806,6 +1808,11 @@ class CSVW:
                     return True
             return False
 
+        def located(md, md_url):
+            # Links in metadata are relative to the location of the metadata, not of the data.
+            md.setdefault('@base', urljoin(md_url, urlparse(md_url).path))
+            return md
+
         no_header = False
         if url and is_url(url):
             # §5.2 Link Header
@@ -1815,9 +1822,10 @@ class CSVW:
             desc = res.links.get('describedby')
             if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
-                md = get_json(Link(desc['url']).resolve(url))
+                md_url = Link(desc['url']).resolve(url)
+                md = get_json(md_url)
                 if describes(md, url):
-                    return md, no_header
+                    return located(md, md_url), no_header
                 else:
                     warnings.warn('Ignoring linked metadata because it does not reference the data')
 
@@ -1827,12 +1835,13 @@ class CSVW:
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in locs.split('\n'):
-                res = requests.get(Link(URITemplate(line).expand(url=url)).resolve(url))
+                md_url = Link(URITemplate(line).expand(url=url)).resolve(url)
+                res = requests.get(md_url)
                 if res.status_code == 200:
                     try:
                         md = res.json()
                         if describes(md, url):
-                            return md, no_header
+                            return located(md, md_url), no_header
                         warnings.warn('Ignoring metadata because it does not reference the data')
                     except json.JSONDecodeError:
                         pass
-- 
2.43.0


From c36529da5e80c85cf62bd3558a431354adfa1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 072/126] fix: ignore links to metadata which cannot be read
 when locating metadata

---
 src/csvw/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 20b3041..9091f8c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1823,7 +1823,10 @@ class CSVW:
             if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
                 md_url = Link(desc['url']).resolve(url)
-                md = get_json(md_url)
+                try:
+                    md = get_json(md_url)
+                except json.JSONDecodeError:
+                    md = None
                 if describes(md, url):
                     return located(md, md_url), no_header
                 else:
-- 
2.43.0


From 73d49ec250ca6ac8acdb3efcfc1965e174fcdd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 073/126] fix: accept all line endings in site-wide location
 configurations

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9091f8c..afc8ce3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1837,7 +1837,7 @@ class CSVW:
             # #default-locations-and-site-wide-location-configuration
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
-            for line in locs.split('\n'):
+            for line in filter(None, locs.splitlines()):
                 md_url = Link(URITemplate(line).expand(url=url)).resolve(url)
                 res = requests.get(md_url)
                 if res.status_code == 200:
-- 
2.43.0


From 506129a12bf1e6aa6a356e5a09bb1b5ec6153594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 074/126] fix: do not accept lists as values of atomic
 properties

---
 src/csvw/metadata.py | 8 ++++----
 src/csvw/utils.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index afc8ce3..d433bdb 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -756,7 +756,7 @@ class Description(DescriptionBase):
         converter=lambda v: v if not v else Datatype.fromvalue(v))
     default = attr.ib(
         default="",
-        converter=functools.partial(utils.converter, str, "", allow_list=False),
+        converter=functools.partial(utils.converter, str, ""),
     )
     lang = attr.ib(default="und", converter=converter_lang)
     null = attr.ib(default=attr.Factory(lambda: [""]), converter=converter_null)
@@ -948,7 +948,7 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
-    for d in functools.partial(utils.converter, dict, None)(v):
+    for d in utils.converter(dict, None, utils.converter(list, [], v), allow_list=True):
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
@@ -970,8 +970,8 @@ class Schema(Description):
     columns = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [
-            Column.fromvalue(c) for c in functools.partial(utils.converter, dict, None)(
-                functools.partial(utils.converter, list, [])(v))])
+            Column.fromvalue(c) for c in utils.converter(
+                dict, None, utils.converter(list, [], v), allow_list=True)])
     foreignKeys = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [] if v is None else converter_foreignKeys(v))
diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..c0ca9b7 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -16,8 +16,8 @@ def is_url(s):
     return re.match(r'https?://', str(s))
 
 
-def converter(type_, default, s, allow_none=False, cond=None, allow_list=True):
-    if allow_list and type_ != list and isinstance(s, list):
+def converter(type_, default, s, allow_none=False, cond=None, allow_list=False):
+    if allow_list and isinstance(s, list):
         return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]
 
     if allow_none and s is None:
-- 
2.43.0


From cb61169515df692a19a42056ee2e9341084870f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 075/126] fix: replace invalid values of required and
 suppressOutput by the default

---
 src/csvw/metadata.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d433bdb..3a78dfe 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -730,6 +730,12 @@ def converter_null(v):
     return res
 
 
+def converter_required(v):
+    if isinstance(v, str) and v.lower() in ('true', 'false'):  # We accept booleans as strings, too.
+        return v.lower() == 'true'
+    return utils.converter(bool, None, v, allow_none=True)
+
+
 def converter_lang(v):
     if not tags.check(v):
         warnings.warn('Invalid language tag')
@@ -765,7 +771,10 @@ class Description(DescriptionBase):
         converter=functools.partial(utils.converter, bool, False, allow_none=True),
     )
     propertyUrl = uri_template_property()
-    required = attr.ib(default=None)
+    required = attr.ib(
+        default=None,
+        converter=converter_required,
+    )
     separator = attr.ib(
         converter=functools.partial(utils.converter, str, None, allow_none=True),
         default=None,
@@ -1248,7 +1257,9 @@ class Table(TableLike):
 
     .. seealso:: `<https://www.w3.org/TR/tabular-metadata/#tables>`_
     """
-    suppressOutput = attr.ib(default=False)
+    suppressOutput = attr.ib(
+        default=False,
+        converter=functools.partial(utils.converter, bool, False))
     _comments = []
 
     def add_foreign_key(self, colref, ref_resource, ref_colref):
-- 
2.43.0


From b5d88def3855eef978c447eed9ca69d994273b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 076/126] fix: check array properties to be arrays

---
 src/csvw/metadata.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3a78dfe..0bb18ce 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1057,9 +1057,14 @@ def dialect_props(d):
     return partitioned
 
 
-def valid_transformations(instance, attribute, value):
-    if not isinstance(value, list):
+def converter_transformations(v):
+    if not isinstance(v, list):
         warnings.warn('Invalid transformations property')
+        return []
+    return v
+
+
+def valid_transformations(instance, attribute, value):
     for tr in value:
         Description.partition_properties(tr, type_name='Template')
 
@@ -1095,7 +1100,9 @@ class TableLike(Description):
         default=None,
         converter=lambda v: v if (v is None or isinstance(v, str))
         else Dialect(**dialect_props(v)))
-    notes = attr.ib(default=attr.Factory(list))
+    notes = attr.ib(
+        default=attr.Factory(list),
+        converter=functools.partial(utils.converter, list, []))
     tableDirection = attr.ib(
         default='auto',
         converter=functools.partial(
@@ -1106,6 +1113,7 @@ class TableLike(Description):
         converter=lambda v: Schema.fromvalue(v))
     transformations = attr.ib(
         validator=valid_transformations,
+        converter=converter_transformations,
         default=attr.Factory(list),
     )
     url = link_property()
@@ -1536,6 +1544,8 @@ class Table(TableLike):
 
 
 def converter_tables(v):
+    if not isinstance(v, (list, tuple)):
+        raise ValueError('Invalid tables property')
     res = []
     for vv in v:
         if not isinstance(vv, (dict, Table)):
-- 
2.43.0


From 16947f877a1e7e106f965623fda47f68472f7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 077/126] fix: ignore column references which are no strings

---
 src/csvw/metadata.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0bb18ce..87dccf7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -912,11 +912,21 @@ class Column(Description):
         return fmt(v)
 
 
+def converter_column_reference(v):
+    if v is None:
+        return None
+    v = v if isinstance(v, list) else [v]
+    if not all(isinstance(vv, str) for vv in v):
+        warnings.warn('Invalid column reference: {}'.format(v))
+        return None
+    return v
+
+
 def column_reference():
     return attr.ib(
         default=None,
         validator=attr.validators.optional(attr.validators.instance_of(list)),
-        converter=lambda v: v if isinstance(v, list) or v is None else [v])
+        converter=converter_column_reference)
 
 
 @attr.s
@@ -987,7 +997,7 @@ class Schema(Description):
     primaryKey = column_reference()
     rowTitles = attr.ib(
         default=attr.Factory(list),
-        converter=lambda v: v if isinstance(v, list) else [v],
+        converter=lambda v: converter_column_reference(v) or [],
     )
 
     def __attrs_post_init__(self):
-- 
2.43.0


From b73f2a68a0d89af99c746b80abb69f92a97e10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 078/126] fix: refuse incomplete foreign keys

---
 src/csvw/metadata.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 87dccf7..01ea821 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -949,15 +949,16 @@ class ForeignKey:
 
     @classmethod
     def fromdict(cls, d):
-        if isinstance(d, dict):
-            try:
-                _ = Reference(**d['reference'])
-            except TypeError:
-                raise ValueError('Invalid reference property')
-            if not set(d.keys()).issubset({'columnReference', 'reference'}):
-                raise ValueError('Invalid foreignKey spec')
-        kw = dict(d, reference=Reference(**d['reference']))
-        return cls(**kw)
+        if set(d.keys()) != {'columnReference', 'reference'}:
+            raise ValueError('Invalid foreignKey spec')
+        try:
+            res = cls(**dict(d, reference=Reference(**d['reference'])))
+        except TypeError:
+            raise ValueError('Invalid reference property')
+        if not (res.columnReference and res.reference.columnReference) or \
+                not (res.reference.resource or res.reference.schemaReference):
+            raise ValueError('Invalid foreignKey spec')
+        return res
 
     def asdict(self, **kw):
         res = utils.attr_asdict(self, **kw)
-- 
2.43.0


From 25cec9213af4453c3dd76831ccb31d482317c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 079/126] fix: ignore unknown properties of dialects

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 01ea821..e1ab7ee 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1063,6 +1063,9 @@ def dialect_props(d):
     partitioned = Description.partition_properties(d, type_name='Dialect', strict=False)
     del partitioned['at_props']
     del partitioned['common_props']
+    for k in set(partitioned) - set(attr.fields_dict(Dialect)):
+        warnings.warn('Invalid property {} for Dialect'.format(k))
+        del partitioned[k]
     if partitioned.get('headerRowCount'):
         partitioned['header'] = True
     return partitioned
-- 
2.43.0


From 0a804731679b3c41eddd54fb94d185d7a74cae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 080/126] fix: write metadata with invalid URI templates

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e1ab7ee..eb6e0da 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -511,7 +511,7 @@ class DescriptionBase:
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))))
+            if (k == 'null' or (v not in ([], {}))) and v is not INVALID)
 
 
 def optional_int():
-- 
2.43.0


From fdf944e9014f412a4e199c9563a6447bbac1fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 081/126] fix: write dialects specifying nothing but defaults

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index eb6e0da..bb6ec6d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -509,9 +509,10 @@ class DescriptionBase:
         # is not the empty list. Thus, to allow setting it to empty, we must treat `null` as
         # special case here.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
+        # Similarly, a dialect with default properties of a table overrides the one of the group.
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))) and v is not INVALID)
+            if (k in ('null', 'dialect') or (v not in ([], {}))) and v is not INVALID)
 
 
 def optional_int():
-- 
2.43.0


From 262c5385e1a77e22f09e4238e5a5f3d1b31a7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 082/126] fix: accept all numbers and only literals as @value

---
 src/csvw/metadata.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index bb6ec6d..25010bb 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -404,15 +404,13 @@ def valid_common_property(v):
                 "Aside from @value, @type, @language, and @id, the properties used on an object "
                 "MUST NOT start with @.")
         if '@value' in v:
-            if len(v) > 1:
-                if len(v) > 2 \
-                        or set(v.keys()) not in [{'@value', '@language'}, {'@value', '@type'}] \
-                        or not isinstance(v['@value'], (str, bool, int, decimal.Decimal)):
-                    raise ValueError(
-                        "If a @value property is used on an object, that object MUST NOT have "
-                        "any other properties aside from either @type or @language, and MUST "
-                        "NOT have both @type and @language as properties. The value of the "
-                        "@value property MUST be a string, number, or boolean value.")
+            if set(v) not in [{'@value'}, {'@value', '@language'}, {'@value', '@type'}] \
+                    or not isinstance(v['@value'], (str, bool, int, float, decimal.Decimal)):
+                raise ValueError(
+                    "If a @value property is used on an object, that object MUST NOT have "
+                    "any other properties aside from either @type or @language, and MUST "
+                    "NOT have both @type and @language as properties. The value of the "
+                    "@value property MUST be a string, number, or boolean value.")
         if '@language' in v and '@value' not in v:
             raise ValueError(
                 "A @language property MUST NOT be used on an object unless it also has a "
-- 
2.43.0


From 1b12af006825b85cea244e2d9ea4f62d915691b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 083/126] fix: refuse lengths which are no non-negative
 integers

---
 src/csvw/metadata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 25010bb..1394d1d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -513,11 +513,20 @@ class DescriptionBase:
             if (k in ('null', 'dialect') or (v not in ([], {}))) and v is not INVALID)
 
 
+def converter_optional_int(v):
+    if v is None:
+        return v
+    if isinstance(v, bool) or not isinstance(v, (int, float, str)) or int(v) < 0 \
+            or (isinstance(v, float) and int(v) != v):
+        raise ValueError('Invalid length: {}'.format(v))
+    return int(v)
+
+
 def optional_int():
     return attr.ib(
         default=None,
         validator=attr.validators.optional(attr.validators.instance_of(int)),
-        converter=lambda v: v if v is None else int(v))
+        converter=converter_optional_int)
 
 
 @attr.s
-- 
2.43.0


From 6d3835e19e99cfcf0d57f2373c8fa6f46057260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 084/126] fix: ignore formats which are neither text nor valid
 objects

---
 src/csvw/metadata.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1394d1d..eb2515e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -529,6 +529,17 @@ def optional_int():
         converter=converter_optional_int)
 
 
+def converter_format(v):
+    if isinstance(v, dict):
+        # Numeric formats: http://w3c.github.io/csvw/metadata/#numeric-formats
+        props = {'pattern', 'decimalChar', 'groupChar'}
+        for k, vv in v.items():
+            if k not in props or not isinstance(vv, str):
+                warnings.warn('Invalid property {} for format: {}'.format(k, vv))
+        return type(v)((k, vv) for k, vv in v.items() if k in props and isinstance(vv, str))
+    return utils.converter(str, None, v, allow_none=True)
+
+
 @attr.s
 class Datatype(DescriptionBase):
     """
@@ -546,7 +557,7 @@ class Datatype(DescriptionBase):
             utils.converter,
             str, 'string', allow_none=True, cond=lambda ss: ss is None or ss in DATATYPES),
         validator=attr.validators.optional(attr.validators.in_(DATATYPES)))
-    format = attr.ib(default=None)
+    format = attr.ib(default=None, converter=converter_format)
     length = optional_int()
     minLength = optional_int()
     maxLength = optional_int()
@@ -578,6 +589,11 @@ class Datatype(DescriptionBase):
         raise ValueError(v)
 
     def __attrs_post_init__(self):
+        if isinstance(self.format, dict) and self.base is not None and not isinstance(
+                self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+            warnings.warn('Invalid format for {}'.format(self.base))
+            self.format = None
+
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
-- 
2.43.0


From 52675ad920e6e4399ce5bdb95431063097c76dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 085/126] fix: refuse bounds which are neither text nor numbers

---
 src/csvw/metadata.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index eb2515e..5c05bf7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -580,7 +580,8 @@ class Datatype(DescriptionBase):
             return cls(base=v)
 
         if isinstance(v, dict):
-            v.setdefault('base', 'string')
+            if v.get('base') is None:
+                v['base'] = 'string'
             return cls(**cls.partition_properties(v))
 
         if isinstance(v, cls):
@@ -598,7 +599,7 @@ class Datatype(DescriptionBase):
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
             if getattr(self, attr_) is not None:
-                setattr(self, attr_, self.parse(getattr(self, attr_)))
+                setattr(self, attr_, self._parse_bound(getattr(self, attr_)))
 
         if self.length is not None:
             if self.minLength is not None and self.length < self.minLength:
@@ -697,6 +698,17 @@ class Datatype(DescriptionBase):
             return v
         return self.basetype.to_python(v, **self.derived_description)
 
+    def _parse_bound(self, v):
+        if isinstance(v, (bool, list, dict)):
+            raise ValueError('Invalid bound: {}'.format(v))
+        if isinstance(v, int) and not isinstance(
+                self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+            v = str(v)  # E.g. a year
+        elif isinstance(v, float) and not isinstance(
+                self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+            raise ValueError('Invalid bound: {}'.format(v))
+        return self.parse(v)
+
     def validate(self, v):
         if v is None:
             return v
-- 
2.43.0


From a621c51f8ee0b3b11fd473d168578e5860d0486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 086/126] fix: refuse or warn about metadata of the wrong type

---
 src/csvw/metadata.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5c05bf7..14f1be1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -459,7 +459,7 @@ class DescriptionBase:
                              type_name: typing.Optional[str] = None,
                              strict=True) -> typing.Union[dict, None]:
         if d and not isinstance(d, dict):
-            return
+            raise ValueError('Invalid {}: {}'.format(type_name or cls.__name__, d))
         fields = attr.fields_dict(cls)
         type_name = type_name or cls.__name__
         c, a, dd = {}, {}, {}
@@ -1071,7 +1071,7 @@ class Schema(Description):
             except:  # pragma: no cover # noqa: E722
                 return v
         if not isinstance(v, dict):
-            if isinstance(v, int):
+            if v is not None:
                 warnings.warn('Invalid value for tableSchema property')
             v = {}
         return cls(**cls.partition_properties(v))
@@ -1116,7 +1116,10 @@ def converter_transformations(v):
 
 def valid_transformations(instance, attribute, value):
     for tr in value:
-        Description.partition_properties(tr, type_name='Template')
+        if isinstance(tr, dict):
+            Description.partition_properties(tr, type_name='Template')
+        else:
+            warnings.warn('Invalid transformations property')
 
 
 @attr.s
@@ -1177,6 +1180,8 @@ class TableLike(Description):
         if 'id' in self.at_props and self.at_props['id'] is None:
             self.at_props['id'] = self.base
         ctx = self.at_props.get('context')
+        if ctx is not None and not isinstance(ctx, (str, list)):
+            raise ValueError('Invalid @context')
         if isinstance(ctx, list):
             for obj in ctx:
                 if (isinstance(obj, dict) and not set(obj.keys()).issubset({'@base', '@language'}))\
@@ -1187,8 +1192,11 @@ class TableLike(Description):
                         'http://www.w3.org/ns/csvw and the object represents a local context '
                         'definition, which is restricted to contain either or both of'
                         '@base and @language.')
+                if not isinstance(obj, (str, dict)) or not isinstance(
+                        obj.get('@base', '') if isinstance(obj, dict) else '', str):
+                    raise ValueError('Invalid @context')
                 if isinstance(obj, dict) and '@language' in obj:
-                    if not tags.check(obj['@language']):
+                    if not (isinstance(obj['@language'], str) and tags.check(obj['@language'])):
                         warnings.warn('Invalid value for @language property')
                         del obj['@language']
 
@@ -1803,7 +1811,9 @@ class CSVW:
 
             # The description of local files without metadata specifies a @base, too.
             self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
-            if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
+            context = md.get('@context')
+            if "http://www.w3.org/ns/csvw" not in (
+                    context if isinstance(context, (str, list, dict)) else ''):
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
                 if not md['tables'] or not isinstance(md['tables'], list):
-- 
2.43.0


From 93b4a920e674ca3565170a784333b4f1026413df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 087/126] fix: inherit the language of descriptions

---
 src/csvw/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 14f1be1..8bae387 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -773,7 +773,7 @@ def converter_required(v):
 
 
 def converter_lang(v):
-    if not tags.check(v):
+    if not (isinstance(v, str) and tags.check(v)):
         warnings.warn('Invalid language tag')
         return 'und'
     return v
@@ -825,7 +825,8 @@ class Description(DescriptionBase):
 
     def inherit(self, attr):
         v = getattr(self, attr)
-        if v is None and self._parent:
+        # An undetermined language is as good as none.
+        if (v is None or (attr == 'lang' and v == 'und')) and self._parent:
             return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \
                 else getattr(self._parent, attr)
         return v
@@ -1508,7 +1509,7 @@ class Table(TableLike):
                             if (not col.name) and not res:
                                 warnings.warn('Incompatible table models')
                             if isinstance(res, str) and res.split('-')[0] not in [
-                                    'und', (self.lang or 'und').split('-')[0]]:
+                                    'und', (self.inherit('lang') or 'und').split('-')[0]]:
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
                     return
-- 
2.43.0


From 371a9c62e5bba43ea061fcdc1054122b86452f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 088/126] fix: resolve URLs of tables against the base
 specified in the context of a group

---
 src/csvw/metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8bae387..2c620e6 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1248,7 +1248,10 @@ class TableLike(Description):
         """
         The "base" to resolve relative links against.
         """
-        at_props = self._parent.at_props if self._parent else self.at_props
+        if self._parent:
+            # The base is specified for the metadata document, i.e. by the group.
+            return self._parent.base
+        at_props = self.at_props
         ctxbase = None
         for obj in self.at_props.get('context', []):
             if isinstance(obj, dict) and '@base' in obj:
@@ -1260,8 +1263,7 @@ class TableLike(Description):
                 # **base URL** for other URLs in the metadata document.
                 return Link(ctxbase).resolve(at_props['base'])
             return at_props['base']
-        return self._parent._fname.parent if (self._parent and self._parent._fname) else \
-            (self._fname.parent if self._fname else None)
+        return self._fname.parent if self._fname else None
 
     def expand(self, tmpl: URITemplate, row: dict, _row, _name=None, qname=False) -> str:
         """
-- 
2.43.0


From e3eb2dd5bd2f11cde85f55a60dae063f2ab007d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 089/126] fix: resolve references to schemas and dialects
 against the base of the metadata

---
 src/csvw/metadata.py | 58 ++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2c620e6..d05e5ed 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -327,6 +327,35 @@ class Link:
         return urljoin(base, self.string)
 
 
+def context_base(context, base):
+    """
+    If present, the value of @base in the context MUST be a string that is interpreted as a URL
+    which is resolved against the location of the metadata document to provide the
+    **base URL** for other URLs in the metadata document.
+    """
+    for obj in context if isinstance(context, list) else []:
+        if isinstance(obj, dict) and isinstance(obj.get('@base'), str):
+            return Link(obj['@base']).resolve(base)
+    return base
+
+
+def resolve_links(data, base):
+    """
+    Replace references to schemas and dialects by the schemas and dialects.
+    """
+    tables = data.get('tables') if isinstance(data, dict) else None
+    for obj in [data] + (tables if isinstance(tables, list) else []):
+        for prop in ['tableSchema', 'dialect']:
+            if isinstance(obj, dict) and isinstance(obj.get(prop), str):
+                link = Link(obj[prop]).resolve(base)
+                try:
+                    obj[prop] = get_json(link)
+                except (OSError, ValueError):
+                    if prop == 'dialect':
+                        raise
+                    obj[prop] = str(link)  # The schema may be used without being available.
+
+
 def link_property(required=False):
     return attr.ib(
         default=None,
@@ -1211,7 +1240,14 @@ class TableLike(Description):
         """
         if is_url(str(fname)):
             return cls.from_url(str(fname), data=data)
-        res = cls.fromvalue(data or get_json(fname))
+        data = data or get_json(fname)
+        if not isinstance(data, dict):
+            raise ValueError('Invalid metadata: {}'.format(data))
+        resolve_links(
+            data,
+            context_base(data.get('@context'), data['@base']) if '@base' in data
+            else pathlib.Path(fname).parent)
+        res = cls.fromvalue(data)
         res._fname = pathlib.Path(fname)
         return res
 
@@ -1221,11 +1257,11 @@ class TableLike(Description):
         Instantiate a CSVW Table or TableGroup description from a metadata file specified by URL.
         """
         data = data or get_json(url)
+        if not isinstance(data, dict):
+            raise ValueError('Invalid metadata: {}'.format(data))
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
-        for table in data.get('tables', [data]):
-            if isinstance(table, dict) and isinstance(table.get('tableSchema'), str):
-                table['tableSchema'] = Link(table['tableSchema']).resolve(data['@base'])
+        resolve_links(data, context_base(data.get('@context'), data['@base']))
         res = cls.fromvalue(data)
         return res
 
@@ -1251,18 +1287,8 @@ class TableLike(Description):
         if self._parent:
             # The base is specified for the metadata document, i.e. by the group.
             return self._parent.base
-        at_props = self.at_props
-        ctxbase = None
-        for obj in self.at_props.get('context', []):
-            if isinstance(obj, dict) and '@base' in obj:
-                ctxbase = obj['@base']
-        if 'base' in at_props:
-            if ctxbase:
-                # If present, its value MUST be a string that is interpreted as a URL which is
-                # resolved against the location of the metadata document to provide the
-                # **base URL** for other URLs in the metadata document.
-                return Link(ctxbase).resolve(at_props['base'])
-            return at_props['base']
+        if 'base' in self.at_props:
+            return context_base(self.at_props.get('context'), self.at_props['base'])
         return self._fname.parent if self._fname else None
 
     def expand(self, tmpl: URITemplate, row: dict, _row, _name=None, qname=False) -> str:
-- 
2.43.0


From 2f758b6cb8e1ae7c9cdb34264d112cd0cac5885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 090/126] fix: report primary keys with missing columns

---
 src/csvw/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d05e5ed..d2ae00a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1447,10 +1447,13 @@ class Table(TableLike):
                           'is deprecated (its content will be ignored)')  # pragma: no cover
         if self.tableSchema.primaryKey:
             get_pk = operator.itemgetter(*self.tableSchema.primaryKey)
-            seen = set()
+            seen, missing = set(), set()
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
                 # The values of list-valued columns are lists, thus not hashable.
+                if not set(self.tableSchema.primaryKey).issubset(row):
+                    missing = set(self.tableSchema.primaryKey) - set(row)
+                    break
                 pk = get_pk({k: tuple(v) if isinstance(v, list) else v for k, v in row.items()})
                 if pk in seen:
                     log_or_raise(
@@ -1459,6 +1462,9 @@ class Table(TableLike):
                     success = False
                 else:
                     seen.add(pk)
+            if missing:
+                log_or_raise('missing primary key columns: {0}'.format(sorted(missing)), log=log)
+                success = False
         return success
 
     def __iter__(self):
-- 
2.43.0


From be2b04fa8cc36c434e4f7c08f60924b5ccdfcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 091/126] fix: accept single line terminators and nothing but
 texts

---
 src/csvw/dsv_dialects.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index c6cb95d..29b54f2 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -41,6 +41,16 @@ def convert_encoding(s):
         return 'utf-8'
 
 
+def convert_line_terminators(v):
+    default = ['\r\n', '\n']
+    return utils.converter(
+        (str, list),
+        default,
+        v,
+        cond=lambda s: s and (
+            isinstance(s, str) or all(isinstance(ss, str) and ss for ss in s)))
+
+
 @attr.s
 class Dialect(object):
     """
@@ -55,7 +65,7 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, list, ['\r\n', '\n']),
+        converter=convert_line_terminators,
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
-- 
2.43.0


From 9a04f73083d1c7befaa215838092a869dceb4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:57 +0000
Subject: [PATCH 092/126] fix: ignore quote characters which are no characters
 and empty delimiters

---
 src/csvw/dsv_dialects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index 29b54f2..a841576 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -69,7 +69,8 @@ class Dialect(object):
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
-        converter=functools.partial(utils.converter, str, '"', allow_none=True),
+        converter=functools.partial(
+            utils.converter, str, '"', allow_none=True, cond=lambda s: len(s) == 1),
         default='"',
     )
 
@@ -100,7 +101,7 @@ class Dialect(object):
 
     delimiter = attr.ib(
         default=',',
-        converter=functools.partial(utils.converter, str, ','),
+        converter=functools.partial(utils.converter, str, ',', cond=lambda s: s != ''),
         validator=attr.validators.instance_of(str))
 
     skipColumns = attr.ib(
-- 
2.43.0


From 50310cf7621eda56b0d77dc7a822a7f35066a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 093/126] fix: do not warn about the properties of
 transformations

---
 src/csvw/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d2ae00a..1a104a0 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1147,7 +1147,10 @@ def converter_transformations(v):
 def valid_transformations(instance, attribute, value):
     for tr in value:
         if isinstance(tr, dict):
-            Description.partition_properties(tr, type_name='Template')
+            props = Description.partition_properties(tr, type_name='Template', strict=False)
+            for k in set(props) - {'common_props', 'at_props', 'url', 'scriptFormat',
+                                   'targetFormat', 'source', 'titles'}:
+                warnings.warn('Invalid property {} for Template'.format(k))
         else:
             warnings.warn('Invalid transformations property')
 
-- 
2.43.0


From 798b59fd9e64e37b04f9b8374f9d2e897d6d2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 094/126] fix: keep row titles like 0 or false

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1a104a0..9ce8acf 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2035,7 +2035,8 @@ class CSVW:
         if table.tableSchema.rowTitles:
             res['titles'] = [
                 jsonld.format_value(t, cols.get(name)) for name, t in [
-                    (name, row.get(name)) for name in table.tableSchema.rowTitles] if t]
+                    (name, row.get(name)) for name in table.tableSchema.rowTitles]
+                if t is not None and t != '']
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From 60b591449cf54e95094ceeda67130ac2bdb45c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 095/126] fix: copy zipped tables and tables in subdirectories,
 create the directory

---
 src/csvw/metadata.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9ce8acf..32bf43b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1709,8 +1709,20 @@ class TableGroup(TableLike):
         :return:
         """
         dest = pathlib.Path(dest)
+        dest.mkdir(parents=True, exist_ok=True)
         for table in self.tables:
-            shutil.copy(str(table.url.resolve(self.base)), str(table.url.resolve(dest)))
+            src = table.url.resolve(self.base)
+            if is_url(src):  # Remote data stays where it is.
+                continue
+            src, target = pathlib.Path(src), pathlib.Path(table.url.resolve(dest))
+            target.parent.mkdir(parents=True, exist_ok=True)
+            zipped = src.parent.joinpath(src.name + '.zip')
+            if zipped.exists() and not src.exists():
+                shutil.copy(str(zipped), str(target.parent.joinpath(target.name + '.zip')))
+                if target.exists():  # The file would be read instead of the zipped one.
+                    target.unlink()
+            else:
+                shutil.copy(str(src), str(target))
         self._fname = dest / self._fname.name
         self.to_file(self._fname)
 
-- 
2.43.0


From 5f33bc5b553827ae2906feca1100b77deaf39d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 096/126] fix: do not write to the parent of a missing base
 directory

---
 src/csvw/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 32bf43b..0b28948 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -10,6 +10,7 @@ This module implements (partially) the W3C recommendation
 import io
 import re
 import json
+import errno
 import shutil
 import decimal
 import pathlib
@@ -1409,6 +1410,10 @@ class Table(TableLike):
         dialect = self._get_dialect()
         non_virtual_cols = [c for c in self.tableSchema.columns if not c.virtual]
         if fname is DEFAULT:
+            if base and not pathlib.Path(base).exists():
+                # A missing directory would be taken for a file in its parent directory.
+                raise FileNotFoundError(
+                    errno.ENOENT, 'Base directory does not exist', str(base))
             fname = self.url.resolve(pathlib.Path(base) if base else self.base)
 
         rowcount = 0
-- 
2.43.0


From 916118d3f16aa937ee51629f5a580371feebe7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 097/126] fix: convert required constraints of data packages

---
 src/csvw/frictionless.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 3bd0200..1254c97 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -70,7 +70,9 @@ def convert_column_spec(spec):
         res['propertyUrl'] = spec['rdfType']
 
     constraints = spec.get('constraints', {})
-    for prop in ['required', 'minLength', 'maxLength', 'minimum', 'maximum']:
+    if 'required' in constraints:
+        res['required'] = constraints['required']
+    for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
         if ('pattern' in constraints) and ('format' not in res['datatype']):
-- 
2.43.0


From 466356f3f90acf0d9fa2508e65f51ea5cbb9539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 098/126] fix: do not refuse data packages with bounds for
 years

---
 src/csvw/frictionless.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 1254c97..4a9035c 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -73,6 +73,8 @@ def convert_column_spec(spec):
     if 'required' in constraints:
         res['required'] = constraints['required']
     for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
+        if prop in ['minimum', 'maximum'] and res['datatype']['base'] in typemap.values():
+            continue  # CSVW allows no bounds for these datatypes.
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
         if ('pattern' in constraints) and ('format' not in res['datatype']):
-- 
2.43.0


From af7b2a3bb2e0a528651e21701ba202898f95b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 099/126] fix: keep general properties of dialects with csv
 properties

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 4a9035c..a9b035b 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -136,7 +136,7 @@ def convert_dialect(rsc):
     d = rsc.get('dialect', {})
     # Work around https://github.com/frictionlessdata/frictionless-py/issues/1506
     if 'csv' in d:
-        d = d['csv']
+        d = dict(d, **d['csv'])
     res = {}
     if d.get('delimiter'):
         res['delimiter'] = d['delimiter']
-- 
2.43.0


From 09ac523c0b25ab9650bb01052b67a3f8c7d900a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 100/126] fix: tables in data packages have no comments by
 default

---
 src/csvw/frictionless.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index a9b035b..0cae8ae 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -151,8 +151,8 @@ def convert_dialect(rsc):
     ]:
         if prop in d:
             res[prop] = d[prop]
-    if 'commentChar' in d:
-        res['commentPrefix'] = d['commentChar']
+    # Data packages have no comments unless stated otherwise, while CSVW defaults to "#".
+    res['commentPrefix'] = d.get('commentChar')
     return res
 
 
-- 
2.43.0


From 3b0d3d528be3d21742bae90d75e6e3e478288f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 101/126] fix: accept directories of data packages given as
 text

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 0cae8ae..b59caa5 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -166,7 +166,7 @@ class DataPackage:
             # already a parsed JSON object
             self.dir = pathlib.Path(directory or '.')
         elif isinstance(spec, pathlib.Path):
-            self.dir = directory or spec.parent
+            self.dir = pathlib.Path(directory or spec.parent)
             spec = json.loads(spec.read_text(encoding='utf8'))
         else:  # assume a JSON formatted string
             spec = json.loads(spec)
-- 
2.43.0


From 9684d0758b11bc0debd4aa611fbc69027d35af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:35 +0000
Subject: [PATCH 102/126] fix: describe tables without dialect in markdown

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index c0ca9b7..de4f5cf 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -220,7 +220,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res.append('\n' + header + '\n')
         res.append(properties(table.common_props))
         dialect = table.inherit('dialect')
-        if dialect.asdict():
+        if dialect and dialect.asdict():
             res.append('\n**CSV dialect**: `{}`\n'.format(json.dumps(dialect.asdict())))
         res.append('\n### Columns\n')
         res.append('Name/Property | Datatype | Description')
-- 
2.43.0


From b77609d62ce9612a74e5a5a01144e31e60d370c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 103/126] fix: do not take formats of numbers and dates for
 choices in markdown

---
 src/csvw/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index de4f5cf..6da6e56 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -127,6 +127,9 @@ def metadata2markdown(tg, link_files=False) -> str:
     in the same directory as the metadata file.
     :return: `str` with markdown formatted text
     """
+    from csvw.datatypes import DATATYPES
+    PATTERNED = ['decimal', 'float', 'datetime']
+
     def qname2link(qname, html=False):
         url = qname2url(qname)
         if url:
@@ -172,7 +175,9 @@ def metadata2markdown(tg, link_files=False) -> str:
     def colrow(col, fks, pk):
         dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
         if col.datatype:
-            if col.datatype.format:
+            # The formats of numbers and dates are patterns (or objects) rather than choices.
+            if isinstance(col.datatype.format, str) and not isinstance(
+                    col.datatype.basetype(), tuple(DATATYPES[t] for t in PATTERNED)):
                 if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
                     dt += '<br>Valid choices:<br>'
                     dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
-- 
2.43.0


From e142709b6ac0439fcdb186b0aa2afd4716afe64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 104/126] fix: describe bounds of 0 in markdown

---
 src/csvw/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 6da6e56..d4e5443 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -183,9 +183,9 @@ def metadata2markdown(tg, link_files=False) -> str:
                     dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
                 elif col.datatype.base == 'string':
                     dt += '<br>Regex: `{}`'.format(col.datatype.format)
-            if col.datatype.minimum:
+            if col.datatype.minimum is not None:
                 dt += '<br>&ge; {}'.format(col.datatype.minimum)
-            if col.datatype.maximum:
+            if col.datatype.maximum is not None:
                 dt += '<br>&le; {}'.format(col.datatype.maximum)
         if col.separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-- 
2.43.0


From 75859b8173b49e6e06dfc9d0d28b4c0c15aed9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 105/126] fix: accept descriptions which are no strings in
 markdown

---
 src/csvw/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index d4e5443..f6aee6c 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -158,7 +158,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res = []
         desc = props.pop('dc:description', None)
         if desc:
-            res.append(desc + '\n')
+            res.append(htmlify(desc) + '\n')
         img = props.pop('https://schema.org/image', None)
         if img:
             if isinstance(img, str):  # pragma: no cover
@@ -189,7 +189,7 @@ def metadata2markdown(tg, link_files=False) -> str:
                 dt += '<br>&le; {}'.format(col.datatype.maximum)
         if col.separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-        desc = col.common_props.get('dc:description', '').replace('\n', ' ')
+        desc = htmlify(col.common_props.get('dc:description', '')).replace('\n', ' ')
 
         if pk and col.name in pk:
             desc = (desc + '<br>') if desc else desc
-- 
2.43.0


From a7de77f4a3ac4c177cb3bd01daf8721f25792299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:48 +0000
Subject: [PATCH 106/126] fix: images given by their URL or as lists in
 markdown

---
 src/csvw/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index f6aee6c..dcd53f6 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -159,10 +159,11 @@ def metadata2markdown(tg, link_files=False) -> str:
         desc = props.pop('dc:description', None)
         if desc:
             res.append(htmlify(desc) + '\n')
-        img = props.pop('https://schema.org/image', None)
-        if img:
+        img = props.get('https://schema.org/image')
+        if isinstance(img, (str, dict)):
+            del props['https://schema.org/image']
             if isinstance(img, str):  # pragma: no cover
-                img = {'contentUrl': img}
+                img = {'https://schema.org/contentUrl': img}
             res.append('![{}]({})\n'.format(
                 img.get('https://schema.org/caption') or '',
                 img.get('https://schema.org/contentUrl')))
-- 
2.43.0


From 509f6abbb20578e73e019c3dc4a4cc4e502bddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 107/126] fix: name columns without name in markdown as they
 are named elsewhere

---
 src/csvw/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index dcd53f6..24dab4f 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -192,18 +192,18 @@ def metadata2markdown(tg, link_files=False) -> str:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
         desc = htmlify(col.common_props.get('dc:description', '')).replace('\n', ' ')
 
-        if pk and col.name in pk:
+        if pk and col.header in pk:
             desc = (desc + '<br>') if desc else desc
             desc += 'Primary key'
 
-        if col.name in fks:
+        if col.header in fks:
             desc = (desc + '<br>') if desc else desc
             desc += 'References [{}::{}](#table-{})'.format(
-                fks[col.name][1], fks[col.name][0], slug(fks[col.name][1]))
+                fks[col.header][1], fks[col.header][0], slug(fks[col.header][1]))
 
         return ' | '.join([
-            '[{}]({})'.format(col.name, col.propertyUrl)
-            if col.propertyUrl else '`{}`'.format(col.name),
+            '[{}]({})'.format(col.header, col.propertyUrl)
+            if col.propertyUrl else '`{}`'.format(col.header),
             dt,
             desc,
         ])
-- 
2.43.0


From c31450110819d2d3a7caefcb7c4dc7c71176e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 108/126] fix: accept references to schemas in markdown

---
 src/csvw/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 24dab4f..a479108 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -217,7 +217,8 @@ def metadata2markdown(tg, link_files=False) -> str:
     for table in tg.tables:
         fks = {
             fk.columnReference[0]: (fk.reference.columnReference[0], fk.reference.resource.string)
-            for fk in table.tableSchema.foreignKeys if len(fk.columnReference) == 1}
+            for fk in table.tableSchema.foreignKeys
+            if len(fk.columnReference) == 1 and fk.reference.resource}
         header = '## <a name="table-{}"></a>Table '.format(slug(table.url.string))
         if link_files and tg._fname and tg._fname.parent.joinpath(table.url.string).exists():
             header += '[{0}]({0})\n'.format(table.url.string)
-- 
2.43.0


From b3b244a8aac49a330b3b0238369748541f1faf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 109/126] fix: describe inherited datatypes and separators in
 markdown

---
 src/csvw/utils.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index a479108..f1fa47e 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -174,23 +174,24 @@ def metadata2markdown(tg, link_files=False) -> str:
         return '\n'.join(res) + '\n'
 
     def colrow(col, fks, pk):
-        dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
-        if col.datatype:
+        datatype, separator = col.inherit('datatype'), col.inherit('separator')
+        dt = '`{}`'.format(datatype.base if datatype else 'string')
+        if datatype:
             # The formats of numbers and dates are patterns (or objects) rather than choices.
-            if isinstance(col.datatype.format, str) and not isinstance(
-                    col.datatype.basetype(), tuple(DATATYPES[t] for t in PATTERNED)):
-                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
+            if datatype.format and isinstance(datatype.format, str) and not isinstance(
+                    datatype.basetype(), tuple(DATATYPES[t] for t in PATTERNED)):
+                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', datatype.format):
                     dt += '<br>Valid choices:<br>'
-                    dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
-                elif col.datatype.base == 'string':
-                    dt += '<br>Regex: `{}`'.format(col.datatype.format)
-            if col.datatype.minimum is not None:
-                dt += '<br>&ge; {}'.format(col.datatype.minimum)
-            if col.datatype.maximum is not None:
-                dt += '<br>&le; {}'.format(col.datatype.maximum)
-        if col.separator:
-            dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-        desc = htmlify(col.common_props.get('dc:description', '')).replace('\n', ' ')
+                    dt += ''.join(' `{}`'.format(w) for w in datatype.format.split('|'))
+                elif datatype.base == 'string':
+                    dt += '<br>Regex: `{}`'.format(datatype.format)
+            if datatype.minimum is not None:
+                dt += '<br>&ge; {}'.format(datatype.minimum)
+            if datatype.maximum is not None:
+                dt += '<br>&le; {}'.format(datatype.maximum)
+        if separator:
+            dt = 'list of {} (separated by `{}`)'.format(dt, separator)
+        desc = htmlify(col.common_props.get('dc:description') or '').replace('\n', ' ')
 
         if pk and col.header in pk:
             desc = (desc + '<br>') if desc else desc
-- 
2.43.0


From 24dcc81a8eaedb8e3ec93d47fcb70f6bbbef0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 110/126] fix: expand only the prefix of a name

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index f1fa47e..b021db0 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -116,7 +116,7 @@ def qname2url(qname):
         'prov': 'http://www.w3.org/ns/prov#',
     }.items():
         if qname.startswith(prefix + ':'):
-            return qname.replace(prefix + ':', uri)
+            return qname.replace(prefix + ':', uri, 1)
 
 
 def metadata2markdown(tg, link_files=False) -> str:
-- 
2.43.0


From 359c385527d7608c4b6d0d167f2d794b8c2d2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 111/126] fix: undo a needless change to the comments of data
 packages

The dialects of metadata have no comment prefix by default anyway (see csvw.metadata.Dialect), so
09ac523 changed nothing.
---
 src/csvw/frictionless.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index b59caa5..07cd675 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -151,8 +151,8 @@ def convert_dialect(rsc):
     ]:
         if prop in d:
             res[prop] = d[prop]
-    # Data packages have no comments unless stated otherwise, while CSVW defaults to "#".
-    res['commentPrefix'] = d.get('commentChar')
+    if 'commentChar' in d:
+        res['commentPrefix'] = d['commentChar']
     return res
 
 
-- 
2.43.0


From ae18b1e94ca5ab0140fde5afe17bb1e8ac90c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 112/126] fix: give association tables in databases names of
 their own

---
 src/csvw/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index e1f13f2..12d1bda 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -360,7 +360,10 @@ def schema(tg: csvw.TableGroup,
         t = TableSpec.from_table_metadata(
             table, drop_self_referential_fks=drop_self_referential_fks)
         tables[t.name] = t
+    for t in list(tables.values()):
         for at in t.many_to_many.values():
+            while tables.get(at.name, at) != at:  # The name is used for a different table.
+                at.name += '_'
             tables[at.name] = at
 
     # We must determine the order in which tables must be created!
-- 
2.43.0


From 75730ae8de5727a41681534ebc12fc0a9ff96f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:23 +0000
Subject: [PATCH 113/126] fix: make foreign keys to columns which are not the
 primary key work in databases

---
 src/csvw/db.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 12d1bda..a66b7ca 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -243,6 +243,7 @@ class TableSpec(object):
     foreign_keys = attr.ib(default=attr.Factory(list))
     many_to_many = attr.ib(default=attr.Factory(collections.OrderedDict))
     primary_key = attr.ib(default=None)
+    unique = attr.ib(default=attr.Factory(list))
 
     @classmethod
     def from_table_metadata(cls,
@@ -334,6 +335,8 @@ class TableSpec(object):
         if self.primary_key:
             clauses.append('PRIMARY KEY({0})'.format(quoted(
                 *[col_translate(c) for c in self.primary_key])))
+        for cols in self.unique:
+            clauses.append('UNIQUE({0})'.format(quoted(*[col_translate(c) for c in cols])))
         for fk, ref, refcols in self.foreign_keys:
             clauses.append('FOREIGN KEY({0}) REFERENCES {1}({2}) ON DELETE CASCADE'.format(
                 quoted(*[col_translate(c) for c in fk]),
@@ -366,6 +369,14 @@ def schema(tg: csvw.TableGroup,
                 at.name += '_'
             tables[at.name] = at
 
+    # Columns referenced by foreign keys must be unique, be they the primary key or not.
+    for t in list(tables.values()):
+        for _, ref, refcols in t.foreign_keys:
+            target = tables.get(ref)
+            if target and sorted(refcols) not in target.unique \
+                    and set(refcols) != set(target.primary_key or []):
+                target.unique.append(sorted(refcols))
+
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
     progress = True
-- 
2.43.0


From 9d3b01561c1c49155c7e3c614b974c7d807bb614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:02 +0000
Subject: [PATCH 114/126] fix: JSON keeps URIs which normalize to a null value

---
 src/csvw/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0b28948..ac6259d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2053,7 +2053,7 @@ class CSVW:
             res['titles'] = [
                 jsonld.format_value(t, cols.get(name)) for name, t in [
                     (name, row.get(name)) for name in table.tableSchema.rowTitles]
-                if t is not None and t != '']
+                if t is not None and not (isinstance(t, str) and t == '')]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
@@ -2075,9 +2075,10 @@ class CSVW:
             if col and (col.suppressOutput or col.virtual):
                 continue
 
-            # Skip null values:
+            # Skip null values. Only strings are compared: a URI equals any string with the same
+            # normalized form, so "." would be taken for the empty string.
             null = col.inherit_null() if col else table.inherit_null()
-            if (null and v in null) or v == "" or (v is None) or \
+            if (isinstance(v, str) and (v in null or v == "")) or (v is None) or \
                     (col and col.inherit('separator') and v == []):
                 continue
 
-- 
2.43.0


From 3be555e06b553aeae2cc667f31c10e0abdf1fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 115/126] fix: numbers in digits and words XML Schema does not
 know are no longer accepted

---
 src/csvw/datatypes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ac71949..a67fb0c 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -607,6 +607,8 @@ class decimal(anyAtomicType):
         'NaN': 'NaN',
     }
     _reverse_special = {v: k for k, v in _special.items()}
+    # Python accepts more than XML Schema, e.g. underscores, digits of other scripts or "sNaN".
+    _lexical = re.compile(r'\s*[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\s*')
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
@@ -644,6 +646,8 @@ class decimal(anyAtomicType):
                     break
             else:
                 factor = 1
+            if not decimal._lexical.fullmatch(v):
+                decimal.value_error(v)
         try:
             res = _decimal.Decimal(v)
             if factor != 1:
@@ -910,6 +914,9 @@ class _float(anyAtomicType):
     name = 'float'
     minmax = True
     example = '5.3'
+    # Python accepts more than XML Schema, e.g. underscores or digits of other scripts.
+    _lexical = re.compile(
+        r'\s*([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|NaN|[+-]?INF)\s*')
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
@@ -934,6 +941,8 @@ class _float(anyAtomicType):
                 plain = plain.replace(',', '') if groupChar else plain
                 if plain[-1:] in ['%', '‰']:
                     plain, factor = plain[:-1], {'%': '0.01', '‰': '0.001'}[plain[-1]]
+            if isinstance(plain, str) and not _float._lexical.fullmatch(plain):
+                raise ValueError(plain)
             res = float(plain)
             return float(_decimal.Decimal(plain) * _decimal.Decimal(factor)) if factor else res
         except (TypeError, ValueError):
-- 
2.43.0


From 319df1c42c10fd0ff30be4953d2b7b1ee22ea35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:02 +0000
Subject: [PATCH 116/126] fix: JSON still leaves out empty URIs

---
 src/csvw/jsonld.py   | 7 +++++++
 src/csvw/metadata.py | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 6542318..a1b4c40 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -17,6 +17,13 @@ from .utils import is_url
 __all__ = ['group_triples', 'to_json', 'Triple', 'format_value']
 
 
+def plain(value):
+    """
+    A URI as `str`, because URIs equal any string with the same normalized form, "." equals "".
+    """
+    return value.unsplit() if isinstance(value, URIReference) else value
+
+
 def format_value(value, col):
     """
     Format values as JSON-LD literals.
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ac6259d..650ee7a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2053,7 +2053,7 @@ class CSVW:
             res['titles'] = [
                 jsonld.format_value(t, cols.get(name)) for name, t in [
                     (name, row.get(name)) for name in table.tableSchema.rowTitles]
-                if t is not None and not (isinstance(t, str) and t == '')]
+                if t is not None and jsonld.plain(t) != '']
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
@@ -2075,10 +2075,10 @@ class CSVW:
             if col and (col.suppressOutput or col.virtual):
                 continue
 
-            # Skip null values. Only strings are compared: a URI equals any string with the same
-            # normalized form, so "." would be taken for the empty string.
+            # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
-            if (isinstance(v, str) and (v in null or v == "")) or (v is None) or \
+            text = jsonld.plain(v)
+            if (null and text in null) or text == "" or (v is None) or \
                     (col and col.inherit('separator') and v == []):
                 continue
 
-- 
2.43.0


From 803964f0dfb8f0d57ecdbcefb1d9aa5d1d8fce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 117/126] fix: csvwdescribe passes tabs and quotes as delimiter
 in valid JSON

---
 src/csvw/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index 3f599f8..cfb0fe4 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -41,7 +41,7 @@ def csvwdescribe(args=None, test=False):
     )
     fargs = ['describe', '--json']
     if args.delimiter:
-        fargs.extend(['--dialect', '{"delimiter": "%s"}' % args.delimiter])
+        fargs.extend(['--dialect', json.dumps({'delimiter': args.delimiter})])
     onefile = False
     if len(args.csv) == 1 and '*' not in args.csv[0]:
         onefile = True
-- 
2.43.0


From cbaec2a6f7fe0c6408ac1f6926ba694c597b70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 118/126] fix: add_foreign_key takes tuples of columns

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 650ee7a..42dc4e6 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1369,7 +1369,8 @@ class Table(TableLike):
         :param ref_resource: Referenced table.
         :param ref_colref: Column reference of the key in the referenced table.
         """
-        colref = [colref] if not isinstance(colref, (tuple, list)) else colref
+        colref = [colref] if not isinstance(colref, (tuple, list)) else list(colref)
+        ref_colref = [ref_colref] if not isinstance(ref_colref, (tuple, list)) else list(ref_colref)
         if not all(col in [c.name for c in self.tableSchema.columns] for col in colref):
             raise ValueError('unknown column in foreignKey {0}'.format(colref))
 
-- 
2.43.0


From 8c45f60c4501a423044a420ea49df32820b9d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 119/126] fix: JSON cells are refused with a ValueError, too,
 if nested too deeply or not to be judged by the schema

---
 src/csvw/datatypes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index a67fb0c..6267bb6 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1111,9 +1111,9 @@ class json(string):
                     return {'schema': schema}
                 except jsonschema.ValidationError:
                     return {'schema': schema}
-                except jsonschema.SchemaError:
+                except Exception:  # E.g. no schema at all or with a reference to nothing.
                     warnings.warn('Invalid JSON schema as datatype format')
-            except _json.JSONDecodeError:
+            except (_json.JSONDecodeError, RecursionError):
                 pass
         return {}
 
@@ -1121,11 +1121,14 @@ class json(string):
     # why not just to_python = staticmethod(_json.loads)?
     @staticmethod
     def to_python(v, schema=None, **kw):
-        res = _json.loads(v, object_pairs_hook=collections.OrderedDict)
-        if schema:
+        try:
+            res = _json.loads(v, object_pairs_hook=collections.OrderedDict)
+        except RecursionError:  # The nesting is too deep.
+            json.value_error(v[:10])
+        if schema is not None:
             try:
                 jsonschema.validate(res, schema=schema)
-            except jsonschema.ValidationError:
+            except Exception:  # Not just for invalid values, but also if this can't be decided.
                 json.value_error(v)
         return res
 
-- 
2.43.0


From 2f053d0bbff648b93e213973ebf066b689ce86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:18 +0000
Subject: [PATCH 120/126] fix: UnicodeWriter does not escape escape characters
 twice with Python 3.10 and later

---
 src/csvw/dsv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 6402071..4542ee2 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -12,6 +12,7 @@ The original implementations were largely copied from
 .. seealso:: http://en.wikipedia.org/wiki/Delimiter-separated_values
 """
 import io
+import sys
 import csv
 import codecs
 import shutil
@@ -75,7 +76,8 @@ class UnicodeWriter:
                 self.kw['dialect'] = dialect
         self.encoding = normalize_encoding(self.encoding)
         self.escapechar = self.kw.get('escapechar')
-        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
+        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE \
+                and sys.version_info < (3, 10):  # pragma: no cover
             # work around https://bugs.python.org/issue12178
             # (csv.writer doesn't escape escapechar while csv.reader expects it)
             def _escapedoubled(row,
-- 
2.43.0


From c45ed0cdae131676102996ea24de2cf1014c4a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:50 +0000
Subject: [PATCH 121/126] fix: number patterns with several subpatterns for
 negative numbers are invalid

---
 src/csvw/metadata.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 42dc4e6..b6a5435 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -625,6 +625,15 @@ class Datatype(DescriptionBase):
             warnings.warn('Invalid format for {}'.format(self.base))
             self.format = None
 
+        if isinstance(self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+            pattern = self.derived_description.get('pattern') or ''
+            # There may be just one subpattern for negative numbers.
+            if pattern.count(';') > 1 or (
+                    isinstance(self.basetype(), DATATYPES['decimal'])
+                    and not set(pattern).issubset(set('#0.,;%‰E-+'))):
+                self.format = None
+                warnings.warn('Invalid number pattern')
+
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
@@ -695,12 +704,6 @@ class Datatype(DescriptionBase):
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
             raise ValueError('datatype @id MUST NOT be the URL of a built-in datatype.')
 
-        if isinstance(self.basetype(), DATATYPES['decimal']) and \
-                'pattern' in self.derived_description:
-            if not set(self.derived_description['pattern']).issubset(set('#0.,;%‰E-+')):
-                self.format = None
-                warnings.warn('Invalid number pattern')
-
     def asdict(self, omit_defaults=True):
         res = DescriptionBase.asdict(self, omit_defaults=omit_defaults)
         for attr_ in [
-- 
2.43.0


From 5d9070638584d9bb3f13b5b97493218aa4489385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 122/126] fix: exponents in number patterns do not count as
 digits before the decimal point

---
 src/csvw/datatypes.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6267bb6..e6629f0 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1289,23 +1289,26 @@ class NumberPattern:
         if not self.negative:
             self.negative = '-' + self.positive.replace('+', '')
 
+    @property
+    def integral_part(self):
+        return re.split('[.E]', self.positive)[0]
+
     @property
     def primary_grouping_size(self):
-        comps = self.positive.split('.')[0].split(',')
+        comps = self.integral_part.split(',')
         if len(comps) > 1:
             return comps[-1].count('#') + comps[-1].count('0')
 
     @property
     def secondary_grouping_size(self):
-        comps = self.positive.split('.')[0].split(',')
+        comps = self.integral_part.split(',')
         if len(comps) > 2:
             return comps[1].count('#') + comps[1].count('0')
         return self.primary_grouping_size
 
     @property
     def min_digits_before_decimal_point(self):
-        integral_part = self.positive.split('.')[0].replace(',', '')
-        match = re.search('([0]+)[%‰]?$', integral_part)
+        match = re.search('([0]+)[%‰]?$', self.integral_part.replace(',', ''))
         if match:
             return len(match.groups()[0])
 
@@ -1313,7 +1316,7 @@ class NumberPattern:
     def exponent_digits(self):
         _, _, exponent = self.positive.lower().partition('e')
         i = 0
-        for c in exponent:
+        for c in exponent.lstrip('+'):
             if c in '0#':
                 i += 1
             elif c in ',':
@@ -1348,8 +1351,8 @@ class NumberPattern:
         def digits(ss):
             return [c for c in ss if c not in '.,E+-%‰']
 
-        integral_part, _, decimal_part = s.partition('.')
-        decimal_part, _, exponent = decimal_part.lower().partition('e')
+        mantissa, _, exponent = s.lower().partition('e')
+        integral_part, _, decimal_part = mantissa.partition('.')
         groups = integral_part.split(',')
         if self.min_digits_before_decimal_point and \
                 len(digits(''.join(groups))) < self.min_digits_before_decimal_point:
@@ -1374,8 +1377,7 @@ class NumberPattern:
             if (not decimal_part) or (len(digits(decimal_part)) < self.significant_decimal_digits):
                 return False
 
-        if self.exponent_digits and 'e' in s.lower():
-            if len(digits(s.lower().split('e')[-1])) > self.exponent_digits:
-                return False
+        if self.exponent_digits and len(digits(exponent)) > self.exponent_digits:
+            return False
 
         return True
-- 
2.43.0


From e937547f5d325314ce1c15dc8cd5a2222a148d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:52 +0000
Subject: [PATCH 123/126] fix: titles of a column in several languages are
 compatible with headers in any of them

---
 src/csvw/metadata.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b6a5435..e80592a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -918,10 +918,13 @@ class Column(Description):
     def has_title(self, v):
         if self.name and self.name == v:
             return True
-        for tag, titles in (self.titles or {}).items():
-            if v in titles:
-                return tag or 'und'
-        return False
+        tags_ = [tag or 'und' for tag, titles in (self.titles or {}).items() if v in titles]
+        # The same title may be given in several languages, one of which may be the expected one.
+        langs = ['und', (self.inherit('lang') or 'und').split('-')[0]]
+        for tag in tags_:
+            if tag.split('-')[0] in langs:
+                return tag
+        return tags_[0] if tags_ else False
 
     @property
     def header(self):
-- 
2.43.0


From b2f5d844908f0ca62db8d696418b5551aba04038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:13 +0000
Subject: [PATCH 124/126] fix: percentages with enormous exponents are numbers
 or invalid, like others with such exponents

---
 src/csvw/datatypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index e6629f0..8b479a4 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -944,7 +944,10 @@ class _float(anyAtomicType):
             if isinstance(plain, str) and not _float._lexical.fullmatch(plain):
                 raise ValueError(plain)
             res = float(plain)
-            return float(_decimal.Decimal(plain) * _decimal.Decimal(factor)) if factor else res
+            try:
+                return float(_decimal.Decimal(plain) * _decimal.Decimal(factor)) if factor else res
+            except ArithmeticError:  # The exponent is far beyond the limits of floats.
+                return res
         except (TypeError, ValueError):
             _float.value_error(v)
 
-- 
2.43.0


From 8a193f306b5f2d521e981a6eca69145b837c8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:30 +0000
Subject: [PATCH 125/126] fix: lists and JSON objects may be (parts of) keys

---
 src/csvw/metadata.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e80592a..5c84e31 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -877,6 +877,17 @@ class Description(DescriptionBase):
         return self.default
 
 
+def hashable(v):
+    """
+    The values of list-valued columns or JSON cells are lists or objects, thus not hashable.
+    """
+    if isinstance(v, list):
+        return tuple(hashable(vv) for vv in v)
+    if isinstance(v, dict):
+        return frozenset((k, hashable(vv)) for k, vv in v.items())
+    return v
+
+
 def converter_titles(v):
     try:
         return v if v is None else NaturalLanguage(v)
@@ -1465,11 +1476,10 @@ class Table(TableLike):
             seen, missing = set(), set()
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
-                # The values of list-valued columns are lists, thus not hashable.
                 if not set(self.tableSchema.primaryKey).issubset(row):
                     missing = set(self.tableSchema.primaryKey) - set(row)
                     break
-                pk = get_pk({k: tuple(v) if isinstance(v, list) else v for k, v in row.items()})
+                pk = get_pk({k: hashable(v) for k, v in row.items()})
                 if pk in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
@@ -1809,6 +1819,7 @@ class TableGroup(TableLike):
                        for key, kgrp in itertools.groupby(grp, lambda x: x[1])]
             get_seen = [(operator.itemgetter(*key), set()) for key, _ in t_fkeys]
             for row in table.iterdicts(log=log):
+                row = {k: hashable(v) for k, v in row.items()}
                 for get, seen in get_seen:
                     if get(row) in seen:
                         # column references for a foreign key are not unique!
@@ -1819,11 +1830,12 @@ class TableGroup(TableLike):
                 single_column = (len(key) == 1)
                 for child, ref in children:
                     get_ref = operator.itemgetter(*ref)
+                    list_valued = child.tableSchema.get_column(ref[0]).inherit('separator')
                     for fname, lineno, item in child.iterdicts(log=log, with_metadata=True):
-                        colref = get_ref(item)
+                        colref = get_ref({k: hashable(v) for k, v in item.items()})
                         if colref is None:
                             continue
-                        elif single_column and isinstance(colref, list):
+                        elif single_column and list_valued:
                             # We allow list-valued columns as foreign key columns in case
                             # it's not a composite key. If a foreign key is list-valued, we
                             # check for a matching row for each of the values in the list.
-- 
2.43.0


From 92a3323eb6e713ee6ebfae268872db50d47dede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:07 +0000
Subject: [PATCH 126/126] fix: tables with invalid URI templates can be read,
 converted and described

---
 src/csvw/metadata.py | 11 +++++++++--
 src/csvw/utils.py    |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5c84e31..5d73797 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -178,7 +178,14 @@ is_url = utils.is_url
 
 
 class Invalid:
-    pass
+    """
+    Invalid values of URI template properties are as good as the empty template.
+    """
+    uri = None
+
+    @staticmethod
+    def expand(*args, **kw):
+        return ''
 
 
 INVALID = Invalid()
@@ -1328,7 +1335,7 @@ class TableLike(Description):
 
         """
         if tmpl is INVALID:
-            return self.url.resolve(self.base)
+            return str(self.url.resolve(self.base))
 
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index b021db0..0ec6e9b 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -204,7 +204,7 @@ def metadata2markdown(tg, link_files=False) -> str:
 
         return ' | '.join([
             '[{}]({})'.format(col.header, col.propertyUrl)
-            if col.propertyUrl else '`{}`'.format(col.header),
+            if col.propertyUrl and col.propertyUrl.uri else '`{}`'.format(col.header),
             dt,
             desc,
         ])
-- 
2.43.0

