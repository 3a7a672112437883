From 3b5bbf1c6abe2739f6d7d69a2a22cf4252f2cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 01/40] fix: re-test the while condition on continue

---
 src/bare_script/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..c5cf3e5 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -215,12 +215,16 @@ def parse_script(script_text, start_line_number=1):
             # Add the while-do label
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
                 'expr': parse_expression(match_while_begin.group('expr')),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
+
+            # An always-true condition doesn't need to be re-tested, so continue can jump directly to the loop label
+            if whiledo['expr'] == {'variable': 'true'}:
+                whiledo['continue'] = whiledo['loop']
             label_defs.append({'while': whiledo})
             label_index += 1
 
@@ -242,6 +246,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From f3fee3ea01497e3dc2921f828551431dbbd00afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 02/40] fix: report line and column of if/elif/while/for
 expression errors

---
 src/bare_script/parser.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index c5cf3e5..4a6d6b7 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -128,7 +128,10 @@ def parse_script(script_text, start_line_number=1):
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {
+                        'op': '!',
+                        'expr': _parse_statement_expression(match_if_begin, 'expr', line, start_line_number + ix_line)
+                    }}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -159,7 +162,10 @@ def parse_script(script_text, start_line_number=1):
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {
+                    'op': '!',
+                    'expr': _parse_statement_expression(match_if_else_if, 'expr', line, start_line_number + ix_line)
+                }}
             }
             label_index += 1
 
@@ -217,7 +223,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_statement_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -272,7 +278,10 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {
+                    'name': foreach['values'],
+                    'expr': _parse_statement_expression(match_for_begin, 'values', line, start_line_number + ix_line)
+                }},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -409,6 +418,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse a statement's expression match group
+def _parse_statement_expression(match, group, line, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, line, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From 2a334344beb5f0b50296a5d29419122644042663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 03/40] fix: reject an unterminated function or line
 continuation at end of input

---
 src/bare_script/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4a6d6b7..57aea66 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -89,6 +89,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_def_line = line
+            function_def_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -408,6 +410,11 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        line = ' '.join(line_continuation)
+        raise BareScriptParserError('Unterminated line continuation', line, len(line) + 1, start_line_number + ix_line)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
@@ -415,6 +422,10 @@ def parse_script(script_text, start_line_number=1):
         def_ = label_def[def_key]
         raise BareScriptParserError(f"Missing end{def_key} statement", def_['line'], 1, def_['lineNumber'])
 
+    # Dangling function definition?
+    if function_def is not None:
+        raise BareScriptParserError('Missing endfunction statement', function_def_line, 1, function_def_line_number)
+
     return script
 
 
-- 
2.43.0


From f01ce6f3e7a12d67d1605069bac99ba71e83c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 04/40] fix: make string and bracketed-name escapes unambiguous
 (no re-interpretation, no exponential matching)

---
 src/bare_script/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 57aea66..d55f61a 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -632,12 +632,12 @@ _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
 _R_EXPR_GROUP_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_NUMBER = re.compile(r'^\s*([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)')
-_R_EXPR_STRING = re.compile(r"^\s*'((?:\\\\|\\'|[^'])*)'")
+_R_EXPR_STRING = re.compile(r"^\s*'((?:\\[\\']|\\(?![\\'])|[^'\\])*)'")
 _R_EXPR_STRING_ESCAPE = re.compile(r'\\([\\\'])')
-_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\\\|\\"|[^"])*)"')
+_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\[\\"]|\\(?![\\"])|[^"\\])*)"')
 _R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'\\([\\"])')
 _R_EXPR_VARIABLE = re.compile(r'^\s*([A-Za-z_]\w*)')
-_R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\\]|[^\]])+)\s*\]')
+_R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\[\\\]]|\\(?![\\\]])|[^\]\\])+)\s*\]')
 _R_EXPR_VARIABLE_EX_ESCAPE = re.compile(r'\\([\\\]])')
 
 
-- 
2.43.0


From 668e2983dfefd3a5742aa46645611c83b9852ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 05/40] fix: parse calls to one-character function names

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index d55f61a..627fdee 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -626,7 +626,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0


From f996f3fc1db4f447935b7ee99512b048ee04deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 06/40] fix: an equality expression statement is not an
 assignment

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 627fdee..821a30b 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -441,7 +441,7 @@ def _parse_statement_expression(match, group, line, line_number):
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
 _R_SCRIPT_COMMENT = re.compile(r'^\s*(?:#.*)?$')
-_R_SCRIPT_ASSIGNMENT = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*=\s*(?P<expr>.+)$')
+_R_SCRIPT_ASSIGNMENT = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*=(?!=)\s*(?P<expr>.+)$')
 _R_SCRIPT_FUNCTION_BEGIN = re.compile(
     r'^(?P<async>\s*async)?\s*function\s+(?P<name>[A-Za-z_]\w*)\s*\('
     r'\s*(?P<args>[A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)?(?P<lastArgArray>\s*\.\.\.)?\s*\)\s*:\s*$'
-- 
2.43.0


From 40b101897dfe63a9cd094e69df4dbb9794a3c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 07/40] fix: contain parser recursion overflow in
 BareScriptParserError

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 821a30b..7e1648f 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -483,6 +483,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression nesting too deep', expr_text) # pylint: disable=raise-missing-from
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From 35e45ac13cb18fc7618c57b21a3dbce84969275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 08/40] fix: JSON number clean-up must not alter string
 contents

---
 src/bare_script/value.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..a72cb86 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -113,8 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\1', result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,8 +129,8 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
+# Match JSON strings (preserved) or an integral number's fraction (removed)
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("(?:[^"\\]|\\.)*")|\.0+(?![\de])')
 
 
 def value_boolean(value):
-- 
2.43.0


From 8440aeac349ca9f9182f287013fb654385d3b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:15 +0000
Subject: [PATCH 09/40] fix: parse invalid ISO dates and datetimes to null

---
 src/bare_script/value.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index a72cb86..b0a383a 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -495,20 +495,24 @@ def value_parse_datetime(text):
     :rtype: datetime.datetime or None
     """
 
-    m_date = _R_DATE.match(text)
-    if m_date is not None:
-        year = int(m_date.group('year'))
-        month = int(m_date.group('month'))
-        day = int(m_date.group('day'))
-        return datetime.datetime(year, month, day)
-    elif _R_DATETIME.match(text):
-        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
-        return result.replace(microsecond=(result.microsecond // 1000) * 1000)
+    try:
+        m_date = _R_DATE.match(text)
+        if m_date is not None:
+            year = int(m_date.group('year'))
+            month = int(m_date.group('month'))
+            day = int(m_date.group('day'))
+            return datetime.datetime(year, month, day)
+        elif _R_DATETIME.match(text):
+            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+            return result.replace(microsecond=(result.microsecond // 1000) * 1000)
+    except (ValueError, OverflowError):
+        # Matches the format but isn't a valid date or datetime
+        pass
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>[0-9]{4})-(?P<month>[0-9]{2})-(?P<day>[0-9]{2})\Z')
+_R_DATETIME = re.compile(r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]{1,6})?(?:Z|[+-][0-9]{2}:[0-9]{2})\Z')
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From 93d23020749823008a3d77ad6a97ba0a65e575c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 10/40] fix: text with digit separators is not a number

---
 src/bare_script/value.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index b0a383a..f091bc4 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -453,6 +453,10 @@ def value_parse_number(text):
     :rtype: float or None
     """
 
+    # Python digit separators are not part of a number
+    if '_' in text:
+        return None
+
     try:
         value = float(text)
         if math.isnan(value) or math.isinf(value):
@@ -474,6 +478,10 @@ def value_parse_integer(text, radix=10):
     :rtype: int or None
     """
 
+    # Python digit separators are not part of a number
+    if '_' in text:
+        return None
+
     try:
         return int(text, radix)
     except ValueError:
-- 
2.43.0


From fb0e30c1be61989b5cb1bcb5f9677a437abda0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 11/40] fix: arraySet accepts a float index

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From 5fdb3b16441843ae98b90d1b03cd07afcf2e4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 12/40] fix: dataTop accepts a float count

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From 6ace6265805d720eb9b9268054d11a64fed9b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 13/40] fix: rounding treats int and float digits alike

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index f091bc4..0604224 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -439,7 +439,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    multiplier = 10.0 ** digits
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 2a155ba1674d99aef5fae68fe4cd2563c3e5c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 14/40] fix: a boolean is not a number argument

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 0604224..b5338b5 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -296,7 +296,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From 284222b9d686741f8c5533beb82366394bf2c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 15/40] fix: a non-finite integer argument is an argument error

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index b5338b5..2806d9e 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -311,7 +311,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and arg_value % 1 != 0) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
-- 
2.43.0


From dd50ef05002ef0c8e81e1a84cf47c80e7323c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 16/40] fix: argument errors for values without a JSON
 representation keep their return value

---
 src/bare_script/value.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 2806d9e..d44e96e 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -344,7 +344,12 @@ class ValueArgsError(Exception):
         if arg_name is None:
             message = f'Too many arguments ({value_json(arg_value)})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            # Some values can't be represented as JSON (non-finite numbers, circular arrays, etc.)
+            try:
+                arg_json = value_json(arg_value)
+            except (ValueError, OverflowError, RecursionError):
+                arg_json = f'<{value_type(arg_value)}>'
+            message = f'Invalid "{arg_name}" argument value, {arg_json}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From b169291703456dd29a5d28a41e44d3321cde7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 17/40] fix: bound the datetimeNew day roll-over

---
 src/bare_script/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..1269d3c 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -652,6 +652,10 @@ def _datetime_new(args, unused_options):
         month -= extra_years * 12
         year += extra_years
 
+    # Out of range? Avoid rolling over more days than there are in the datetime range
+    if abs(day) > 4000000:
+        raise ValueArgsError('day', day)
+
     # Adjust day
     if day < 1:
         while day < 1:
-- 
2.43.0


From c2bdd2fc1c435f7176c52483ae9146c2d188b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 18/40] fix: datetimeMillisecond never returns 1000

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 1269d3c..b2c24c1 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -573,7 +573,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From 20d3237e3c06a52c9f850c90b10438709437c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 19/40] fix: an explicit false lastArgArray does not collect
 the first argument

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..85c04b5 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -154,7 +154,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = func_args_length - 1 if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From f0a1eecc894e401bb655bdc2f5bceb0287de60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 20/40] fix: a call without an args member passes no arguments

---
 src/bare_script/runtime.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 85c04b5..875a510 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -222,8 +222,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None
 
         # Compute the function arguments
-        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function'].get('args', ())]
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From c4c8b19f7c9192aa1c344f6775de6b4599fe8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 21/40] fix: a null logFn in debug mode is not called

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 875a510..2c2a37b 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -239,7 +239,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
-                if options is not None and 'logFn' in options and options.get('debug'):
+                if options is not None and options.get('logFn') is not None and options.get('debug'):
                     options['logFn'](f'BareScript: Function "{func_name}" failed with error: {error}')
                 if isinstance(error, ValueArgsError):
                     return error.return_value
-- 
2.43.0


From b11f6cc754a2eda23448ee8c89f4542f25f13f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 22/40] fix: operator failures (divide by zero, overflow, etc.)
 evaluate to null

---
 src/bare_script/runtime.py | 146 +++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 71 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 2c2a37b..49f42a1 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -266,77 +266,81 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
-        if bin_op == '+':
-            # number + number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value + right_value
-
-            # string + string
-            elif isinstance(left_value, str) and isinstance(right_value, str):
-                return left_value + right_value
-
-            # string + <any>
-            elif isinstance(left_value, str):
-                return left_value + value_string(right_value)
-            elif isinstance(right_value, str):
-                return value_string(left_value) + right_value
-
-            # datetime + number
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
-                left_dt = value_normalize_datetime(left_value)
-                return left_dt + datetime.timedelta(milliseconds=right_value)
-            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
-                right_dt = value_normalize_datetime(right_value)
-                return right_dt + datetime.timedelta(milliseconds=left_value)
-
-        elif bin_op == '-':
-            # number - number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value - right_value
-
-            # datetime - datetime
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
-                left_dt = value_normalize_datetime(left_value)
-                right_dt = value_normalize_datetime(right_value)
-                return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)
-
-        elif bin_op == '*':
-            # number * number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value * right_value
-
-        elif bin_op == '/':
-            # number / number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value / right_value
-
-        elif bin_op == '==':
-            return value_compare(left_value, right_value) == 0
-
-        elif bin_op == '!=':
-            return value_compare(left_value, right_value) != 0
-
-        elif bin_op == '<=':
-            return value_compare(left_value, right_value) <= 0
-
-        elif bin_op == '<':
-            return value_compare(left_value, right_value) < 0
-
-        elif bin_op == '>=':
-            return value_compare(left_value, right_value) >= 0
-
-        elif bin_op == '>':
-            return value_compare(left_value, right_value) > 0
-
-        elif bin_op == '%':
-            # number % number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value % right_value
-
-        else: # bin_op == '**'
-            # number ** number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
+        try:
+            if bin_op == '+':
+                # number + number
+                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                    return left_value + right_value
+
+                # string + string
+                elif isinstance(left_value, str) and isinstance(right_value, str):
+                    return left_value + right_value
+
+                # string + <any>
+                elif isinstance(left_value, str):
+                    return left_value + value_string(right_value)
+                elif isinstance(right_value, str):
+                    return value_string(left_value) + right_value
+
+                # datetime + number
+                elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+                    left_dt = value_normalize_datetime(left_value)
+                    return left_dt + datetime.timedelta(milliseconds=right_value)
+                elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+                    right_dt = value_normalize_datetime(right_value)
+                    return right_dt + datetime.timedelta(milliseconds=left_value)
+
+            elif bin_op == '-':
+                # number - number
+                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                    return left_value - right_value
+
+                # datetime - datetime
+                elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
+                    left_dt = value_normalize_datetime(left_value)
+                    right_dt = value_normalize_datetime(right_value)
+                    return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)
+
+            elif bin_op == '*':
+                # number * number
+                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                    return left_value * right_value
+
+            elif bin_op == '/':
+                # number / number
+                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                    return left_value / right_value
+
+            elif bin_op == '==':
+                return value_compare(left_value, right_value) == 0
+
+            elif bin_op == '!=':
+                return value_compare(left_value, right_value) != 0
+
+            elif bin_op == '<=':
+                return value_compare(left_value, right_value) <= 0
+
+            elif bin_op == '<':
+                return value_compare(left_value, right_value) < 0
+
+            elif bin_op == '>=':
+                return value_compare(left_value, right_value) >= 0
+
+            elif bin_op == '>':
+                return value_compare(left_value, right_value) > 0
+
+            elif bin_op == '%':
+                # number % number
+                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                    return left_value % right_value
+
+            else: # bin_op == '**'
+                # number ** number
+                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                    return left_value ** right_value
+        except Exception: # pylint: disable=broad-exception-caught
+            # The operation has no value (divide by zero, overflow, etc.)
+            return None
 
         # Invalid operation values
         return None
-- 
2.43.0


From 64a7c278c88d56fd6347b9b48c184d717798e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 23/40] fix: integer * and ** are computed as floats, a complex
 power is null

---
 src/bare_script/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 49f42a1..2547593 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -304,7 +304,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             elif bin_op == '*':
                 # number * number
                 if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                    return left_value * right_value
+                    return left_value * float(right_value)
 
             elif bin_op == '/':
                 # number / number
@@ -337,7 +337,8 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             else: # bin_op == '**'
                 # number ** number
                 if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                    return left_value ** right_value
+                    result = float(left_value) ** float(right_value)
+                    return result if not isinstance(result, complex) else None
         except Exception: # pylint: disable=broad-exception-caught
             # The operation has no value (divide by zero, overflow, etc.)
             return None
-- 
2.43.0


From 60499e662847237c23de9fc91f196303bc20493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 24/40] fix: arithmetic operators do not treat booleans as
 numbers

---
 src/bare_script/runtime.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 2547593..5602c53 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -269,7 +269,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         try:
             if bin_op == '+':
                 # number + number
-                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                if _is_number(left_value) and _is_number(right_value):
                     return left_value + right_value
 
                 # string + string
@@ -283,16 +283,16 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                     return value_string(left_value) + right_value
 
                 # datetime + number
-                elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+                elif isinstance(left_value, datetime.date) and _is_number(right_value):
                     left_dt = value_normalize_datetime(left_value)
                     return left_dt + datetime.timedelta(milliseconds=right_value)
-                elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+                elif _is_number(left_value) and isinstance(right_value, datetime.date):
                     right_dt = value_normalize_datetime(right_value)
                     return right_dt + datetime.timedelta(milliseconds=left_value)
 
             elif bin_op == '-':
                 # number - number
-                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                if _is_number(left_value) and _is_number(right_value):
                     return left_value - right_value
 
                 # datetime - datetime
@@ -303,12 +303,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
             elif bin_op == '*':
                 # number * number
-                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                if _is_number(left_value) and _is_number(right_value):
                     return left_value * float(right_value)
 
             elif bin_op == '/':
                 # number / number
-                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                if _is_number(left_value) and _is_number(right_value):
                     return left_value / right_value
 
             elif bin_op == '==':
@@ -331,12 +331,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
             elif bin_op == '%':
                 # number % number
-                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                if _is_number(left_value) and _is_number(right_value):
                     return left_value % right_value
 
             else: # bin_op == '**'
                 # number ** number
-                if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+                if _is_number(left_value) and _is_number(right_value):
                     result = float(left_value) ** float(right_value)
                     return result if not isinstance(result, complex) else None
         except Exception: # pylint: disable=broad-exception-caught
@@ -352,7 +352,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and _is_number(value):
             return -value
 
         # Invalid operation value
@@ -363,6 +363,11 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Helper function to test for a number value - a boolean is not a number
+def _is_number(value):
+    return isinstance(value, (int, float)) and not isinstance(value, bool)
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From eb7faba3e051ca20b0e62e3be3b48201fde58dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 25/40] fix: count included statements toward the statement
 limit

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 5602c53..746ebf8 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -139,7 +139,10 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From 9534f87e1ddfef86284bec7f4dfec76d0ce4f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 26/40] fix: count data expression statements toward the
 statement limit

---
 src/bare_script/data.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..656c7a6 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -16,6 +16,16 @@ from .parser import parse_expression
 from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
 
 
+# Helper to evaluate a row expression - the statements executed count toward the script's statement limit
+def _evaluate_row(expr, eval_options, row, options):
+    evaluate_expression = _import_evaluate_expression()
+    try:
+        return evaluate_expression(expr, eval_options, row)
+    finally:
+        if options is not None and eval_options is not options and 'statementCount' in eval_options:
+            options['statementCount'] = eval_options['statementCount']
+
+
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
 def _import_evaluate_expression():
     if not _EVALUATE_EXPRESSION:
@@ -157,8 +167,6 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Compute the map of row field name to joined row field name
     left_names = {}
     right_names_raw = {}
@@ -198,7 +206,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = value_json(_evaluate_row(right_expression, eval_options, right_row, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -206,7 +214,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = value_json(_evaluate_row(left_expression, eval_options, left_row, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -237,8 +245,6 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
 
@@ -253,7 +259,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
 
     # Compute the calculated field for each row
     for row in data:
-        row[field_name] = evaluate_expression(calc_expr, eval_options, row)
+        row[field_name] = _evaluate_row(calc_expr, eval_options, row, options)
 
     return data
 
@@ -275,7 +281,6 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
 
     # Parse the filter expression
     filter_expr = parse_expression(expr)
@@ -291,7 +296,7 @@ def filter_data(data, expr, variables=None, options=None):
 
     # Filter the data
     for row in data:
-        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
+        if value_boolean(_evaluate_row(filter_expr, eval_options, row, options)):
             result.append(row)
 
     return result
-- 
2.43.0


From e02a0541cc16a9be54a943dafab38622473bd50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 27/40] fix: an include parser error within a function is not
 swallowed

---
 src/bare_script/runtime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 746ebf8..e355335 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -125,7 +125,7 @@ def _execute_script_helper(statements, options, locals_):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _BareScriptIncludeError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -240,6 +240,8 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 return func_value(func_args, options)
             except BareScriptRuntimeError:
                 raise
+            except _BareScriptIncludeError:
+                raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
                 if options is not None and options.get('logFn') is not None and options.get('debug'):
@@ -371,6 +373,11 @@ def _is_number(value):
     return isinstance(value, (int, float)) and not isinstance(value, bool)
 
 
+# A parser error of an included script - unlike a library function's parser error, it is not a function failure
+class _BareScriptIncludeError(BareScriptParserError):
+    pass
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From 1cb5bdf30c7387e4583cc930c0153289bfb72a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 28/40] fix: includes within a function resolve relative to the
 file that defines the function

---
 src/bare_script/runtime.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index e355335..18aca89 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -41,10 +41,10 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
 
 
-def _execute_script_helper(statements, options, locals_):
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -96,14 +96,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -140,7 +139,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
-                    _execute_script_helper(script['statements'], include_options, None)
+                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
 
@@ -150,8 +149,8 @@ def _execute_script_helper(statements, options, locals_):
     return None
 
 
-# Runtime script function implementation
-def _script_function(function, args, options):
+# Runtime script function implementation (url_fn is the URL function of the file that contains the function definition)
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -164,7 +163,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From 7e2d0991c05661cb035aa2551a9191ecfa4d247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 29/40] fix: an include within a global for-each loop does not
 corrupt the loop

---
 src/bare_script/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 18aca89..885d7d8 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -136,12 +136,15 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                             log_fn(f'BareScript:     {warning}')
 
                 # Execute the include script
+                # (preserve the global for-each temporaries, which are numbered per script)
+                include_temps = {name: value for name, value in globals_.items() if name.startswith('__bareScript')}
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
                     _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
+                globals_.update(include_temps)
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From 22e9229b63b8598aa773efe6ce9e436e360ad681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 30/40] fix: recursion overflow is a runtime error

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 885d7d8..533cb37 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -41,7 +41,10 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
+    try:
+        return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
+    except RecursionError:
+        raise BareScriptRuntimeError('Maximum recursion depth exceeded') # pylint: disable=raise-missing-from
 
 
 def _execute_script_helper(statements, options, locals_, url_fn):
-- 
2.43.0


From d5aec28105f53ac5673ea7259b2c15fa8d1c3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 31/40] fix: data join and category keys agree with value
 comparison

---
 src/bare_script/data.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 656c7a6..1c8d563 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,8 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, \
+    value_parse_number, value_type
 
 
 # Helper to evaluate a row expression - the statements executed count toward the script's statement limit
@@ -26,6 +27,20 @@ def _evaluate_row(expr, eval_options, row, options):
             options['statementCount'] = eval_options['statementCount']
 
 
+# Helper to get a value's hashable key - two values have the same key if and only if they compare equal
+def _value_key(value):
+    type_ = value_type(value)
+    if type_ == 'datetime':
+        value = value_normalize_datetime(value)
+    elif type_ == 'array':
+        value = tuple(_value_key(item) for item in value)
+    elif type_ == 'object':
+        value = tuple((key, _value_key(value[key])) for key in sorted(value))
+    elif type_ in ('function', 'regex', None):
+        value = None
+    return (type_, value)
+
+
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
 def _import_evaluate_expression():
     if not _EVALUATE_EXPRESSION:
@@ -206,7 +221,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(_evaluate_row(right_expression, eval_options, right_row, options))
+        category_key = _value_key(_evaluate_row(right_expression, eval_options, right_row, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -214,7 +229,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(_evaluate_row(left_expression, eval_options, left_row, options))
+        category_key = _value_key(_evaluate_row(left_expression, eval_options, left_row, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -325,7 +340,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _value_key(category_values)
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -466,7 +481,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 4c2061d49a9c567ecfd2340db0d90490c8cbd537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 32/40] fix: joined right field names are unique

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 1c8d563..9346dc9 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -200,7 +200,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
         else:
             ix_unique = 2
             unique_name = f'{field_name}{ix_unique}'
-            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:
+            while unique_name in left_names or unique_name in right_names.values() or unique_name in right_names_raw:
                 ix_unique += 1
                 unique_name = f'{field_name}{ix_unique}'
             right_names[field_name] = unique_name
-- 
2.43.0


From abd17f6ed9b8699057732ae73da63c96124d1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 33/40] fix: dataParseCSV keeps line separators within quoted
 cells

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index b2c24c1..88f2a50 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From f8df91e821871293599fcc60ac90a2649c6658a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 34/40] fix: aggregate sums do not depend on the int or float
 spelling of the values

---
 src/bare_script/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 9346dc9..f53b826 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -8,6 +8,7 @@ The BareScript data manipulation library
 import datetime
 import functools
 import importlib
+import math
 import statistics
 
 from schema_markdown import parse_schema_markdown, validate_type
@@ -375,7 +376,7 @@ def aggregate_data(data, aggregation):
             elif func == 'min':
                 aggregate_row[field] = min(measure_values)
             elif func == 'sum':
-                aggregate_row[field] = sum(measure_values)
+                aggregate_row[field] = math.fsum(measure_values)
             elif func == 'stddev':
                 aggregate_row[field] = statistics.pstdev(measure_values)
             else: # func == 'average'
-- 
2.43.0


From 344a195dd50db761da7a39a0d5deaec682037b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 35/40] fix: dataParseCSV row fields are always named

---
 src/bare_script/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 88f2a50..151a37a 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -443,6 +443,10 @@ def _data_parse_csv(args, unused_options):
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
 
+    # Drop the unnamed extra cells of over-long rows
+    for row in data:
+        row.pop(None, None)
+
     # Validate the data (as CSV)
     validate_data(data, True)
     return data
-- 
2.43.0


From 7c3d5d958e30adb0da40459c798a8267a4d6057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 36/40] fix: diffLines returns its Identical blocks

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 8db79a724ae390744905a5126f0c807d1982d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 37/40] fix: lint function definitions nested within a function

---
 src/bare_script/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/model.py b/src/bare_script/model.py
index ca872d9..13d8ce1 100644
--- a/src/bare_script/model.py
+++ b/src/bare_script/model.py
@@ -275,7 +275,8 @@ def lint_script(script):
     functions_defined = {}
     labels_defined = {}
     labels_used = {}
-    for ix_statement, statement in enumerate(script['statements']):
+    lint_statements = [(ix_statement, statement, functions_defined) for ix_statement, statement in enumerate(script['statements'])]
+    for ix_statement, statement, scope_functions_defined in lint_statements: # pylint: disable=modified-iterating-list
         statement_key = next(iter(statement.keys()))
 
         # Function definition checks
@@ -283,10 +284,10 @@ def lint_script(script):
             function_name = statement['function']['name']
 
             # Function redefinition?
-            if function_name in functions_defined:
+            if function_name in scope_functions_defined:
                 warnings.append(f'Redefinition of function "{function_name}" (index {ix_statement})')
             else:
-                functions_defined[function_name] = ix_statement
+                scope_functions_defined[function_name] = ix_statement
 
             # Variable used before assignment?
             fn_var_assigns = {}
@@ -327,6 +328,7 @@ def lint_script(script):
             # Iterate function statements
             fn_labels_defined = {}
             fn_labels_used = {}
+            fn_functions_defined = {}
             for ix_fn_statement, fn_statement in enumerate(statement['function']['statements']):
                 fn_statement_key = next(iter(fn_statement.keys()))
 
@@ -351,6 +353,10 @@ def lint_script(script):
                 elif fn_statement_key == 'jump':
                     fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement
 
+                # Nested function definition? If so, it is linted after the global statements.
+                elif fn_statement_key == 'function':
+                    lint_statements.append((ix_fn_statement, fn_statement, fn_functions_defined))
+
             # Unused function labels?
             for label in sorted(fn_labels_defined.keys()):
                 if label not in fn_labels_used:
-- 
2.43.0


From 921e1fa76e9e37cf9c9da94181c671c533f5b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 38/40] fix: a return without a value may have trailing
 whitespace

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 7e1648f..d68340e 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -450,7 +450,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From 39dae98eb996614325c18fac35125ebb7de4856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:06 +0000
Subject: [PATCH 39/40] fix: zero results do not depend on the int or float
 spelling of the operands

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 533cb37..a385a17 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -342,7 +342,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             elif bin_op == '%':
                 # number % number
                 if _is_number(left_value) and _is_number(right_value):
-                    return left_value % right_value
+                    return left_value % float(right_value)
 
             else: # bin_op == '**'
                 # number ** number
@@ -363,7 +363,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         if unary_op == '!':
             return not value_boolean(value)
         elif unary_op == '-' and _is_number(value):
-            return -value
+            return -value if value != 0 else -float(value)
 
         # Invalid operation value
         return None
-- 
2.43.0


From eb54cc8d0706dea6434bddf07c2f47f6ca9141ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 40/40] fix: dataParseCSV accepts cells of any length

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 151a37a..ae33c23 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -440,7 +440,8 @@ def _data_parse_csv(args, unused_options):
             return None
         lines.extend(io.StringIO(arg, newline=''))
 
-    # Parse the CSV
+    # Parse the CSV - a cell may be of any length
+    csv.field_size_limit(max(csv.field_size_limit(), sum(len(line) for line in lines)))
     data = list(csv.DictReader(lines, skipinitialspace=True))
 
     # Drop the unnamed extra cells of over-long rows
-- 
2.43.0

