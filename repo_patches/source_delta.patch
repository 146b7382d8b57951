From 6e487c46920d4849c59cb8bef6f0bc9dad49332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 01/16] fix: replace reformatted files atomically

--format truncated the source file and rewrote it in place: a crash, a full
disk, an encoding error or an interruption in between destroyed it.
---
 sqlvalidator/file_handler.py | 41 ++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..3257516 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,7 +1,11 @@
+import contextlib
+import errno
 import os
+import stat
 import sys
+import tempfile
 import tokenize
-from typing import IO, List, Optional, Set, Tuple
+from typing import IO, Iterator, List, Optional, Set, Tuple
 
 from . import sql_validator
 
@@ -205,7 +209,7 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w") as f:
+            with open_for_replacement(filename) as f:
                 f.write(new_content)
             starting_text = "reformatted"
         elif check:
@@ -236,6 +240,39 @@ def analyse_file(
     )
 
 
+@contextlib.contextmanager
+def open_for_replacement(filename: str) -> Iterator[IO]:
+    """
+    Open a temporary file that takes the place of `filename` in a single step
+    once its content is completely written. On any failure or interruption,
+    the file keeps its previous content and the temporary file is removed.
+    """
+    target = os.path.realpath(filename)
+    target_stat = os.lstat(target)
+    if stat.S_ISLNK(target_stat.st_mode):
+        raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), filename)
+    if not os.access(target, os.W_OK):
+        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), filename)
+
+    temp_fd, temp_name = tempfile.mkstemp(
+        prefix=".sqlvalidator-", suffix=".tmp", dir=os.path.dirname(target)
+    )
+    try:
+        with open(temp_fd, "w") as temp_file:
+            yield temp_file
+            temp_file.flush()
+            os.fsync(temp_file.fileno())
+        if hasattr(os, "chown"):
+            with contextlib.suppress(PermissionError):
+                os.chown(temp_name, target_stat.st_uid, target_stat.st_gid)
+        os.chmod(temp_name, stat.S_IMODE(target_stat.st_mode))
+        os.replace(temp_name, target)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temp_name)
+        raise
+
+
 def compute_file_content(
     file: IO, should_format: bool, should_validate: bool
 ) -> Tuple[int, str, int, list]:
-- 
2.43.0


From accbba122926424d7251a156738fd8ea32d0ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 02/16] fix: keep CRLF line endings of reformatted files

---
 sqlvalidator/file_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3257516..75d471e 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -204,12 +204,14 @@ def analyse_file(
         ) = compute_file_content(
             file, format_input or check, validate or verbose_validate
         )
+        # None when the file has no line ending or mixed ones
+        newline = file.newlines if isinstance(file.newlines, str) else None
 
     file_changed = count_changed_sql > 0
     if file_changed:
         starting_text = None
         if format_input:
-            with open_for_replacement(filename) as f:
+            with open_for_replacement(filename, newline) as f:
                 f.write(new_content)
             starting_text = "reformatted"
         elif check:
@@ -241,7 +243,7 @@ def analyse_file(
 
 
 @contextlib.contextmanager
-def open_for_replacement(filename: str) -> Iterator[IO]:
+def open_for_replacement(filename: str, newline: Optional[str]) -> Iterator[IO]:
     """
     Open a temporary file that takes the place of `filename` in a single step
     once its content is completely written. On any failure or interruption,
@@ -258,7 +260,7 @@ def open_for_replacement(filename: str) -> Iterator[IO]:
         prefix=".sqlvalidator-", suffix=".tmp", dir=os.path.dirname(target)
     )
     try:
-        with open(temp_fd, "w") as temp_file:
+        with open(temp_fd, "w", newline=newline) as temp_file:
             yield temp_file
             temp_file.flush()
             os.fsync(temp_file.fileno())
-- 
2.43.0


From 4634a39585b0b978eee5a2b2147c2fb5129be559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 03/16] fix: keep the layout of the code around reformatted SQL

tokenize.untokenize replaces tabs between tokens by spaces, drops form feeds
and the whitespace before a line continuation, and separates adjacent strings.
---
 sqlvalidator/file_handler.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 75d471e..9420191 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -364,7 +364,13 @@ def compute_file_content(
         else:
             tokens += following_tokens
 
-    token_generator = tokenize.generate_tokens(file.readline)
+    source_lines: List[str] = []
+
+    def read_source_line():
+        source_lines.append(file.readline())
+        return source_lines[-1]
+
+    token_generator = tokenize.generate_tokens(read_source_line)
     for token_type, token_value, starting, ending, line in token_generator:
         if token_type == tokenize.STRING:
             handle_string_token(
@@ -373,10 +379,33 @@ def compute_file_content(
         else:
             tokens.append((token_type, token_value, starting, ending, line))
 
-    formatted_file_content = tokenize.untokenize(tokens)
+    formatted_file_content = replace_strings(source_lines, tokens)
     return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
 
 
+def replace_strings(source_lines: List[str], tokens: list) -> str:
+    """
+    Put the values of the string tokens in their place in the source code.
+    Contrary to `tokenize.untokenize`, it keeps everything around them as it is
+    (tabs, line continuations, form feeds...).
+    """
+    source = "".join(source_lines)
+    line_offsets = [0]
+    for source_line in source_lines:
+        line_offsets.append(line_offsets[-1] + len(source_line))
+
+    content = []
+    position = 0
+    for token_type, token_value, starting, ending, _ in tokens:
+        if token_type == tokenize.STRING:
+            start_position = line_offsets[starting[0] - 1] + starting[1]
+            content.append(source[position:start_position])
+            content.append(token_value)
+            position = line_offsets[ending[0] - 1] + ending[1]
+    content.append(source[position:])
+    return "".join(content)
+
+
 def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     """
     Read a SQL string as input, potentially with quotes or not,
-- 
2.43.0


From e0203ab2ddf29113c958341c28fc77c7e90df182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 04/16] fix: mark a query as validated only once its errors are
 known

A validation that was aborted by an exception, or that was still running in
another thread, made is_valid() return True for an invalid query.
---
 sqlvalidator/sql_validator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..f96ac09 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -26,11 +26,12 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
-            self.errors = self.sql_query.validate()
+            errors = self.sql_query.validate()
         except ParsingError as ex:
-            self.errors.append(str(ex))
+            errors = [str(ex)]
+        self.errors = errors
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From 414738c4d2f07bd334e0003ae77d8af9c044bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 05/16] fix: summary and exit status of --verbose-validate

Used without --validate (they are exclusive), it printed no summary and exited
with 0 for invalid queries.
---
 sqlvalidator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/main.py b/sqlvalidator/main.py
index fafc3d3..1c891e3 100644
--- a/sqlvalidator/main.py
+++ b/sqlvalidator/main.py
@@ -53,7 +53,7 @@ def _main() -> None:
         src_inputs,
         format_input=args.format,
         check_input_format=args.check_format,
-        validate_input=args.validate,
+        validate_input=args.validate or args.verbose_validate,
         verbose_validate_input=args.verbose_validate,
     )
 
-- 
2.43.0


From b5f5dc8ce0d4ec3bf17415742e626b0b3c4683d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 06/16] fix: report unparsable SQL as invalid when validating
 files

parse(sql).is_valid() is False for such a query, but --validate reported an
error for the whole file instead and exited with 0.
---
 sqlvalidator/file_handler.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 9420191..b1eca7e 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -8,6 +8,7 @@ import tokenize
 from typing import IO, Iterator, List, Optional, Set, Tuple
 
 from . import sql_validator
+from .grammar.lexer import ParsingError
 
 NO_SQLFORMAT_COMMENT = "nosqlformat"
 NO_SQLVALIDATION_COMMENT = "nosqlvalidation"
@@ -301,7 +302,7 @@ def compute_file_content(
             token_generator, (None, None, None, None, None)
         )
         if next_token is None:
-            formatted_sql, sql_query = handle_sql_string(token_value)
+            formatted_sql, sql_query = handle_sql_string(token_value, should_validate)
             tokens.append((token_type, formatted_sql, starting, ending, line))
             tokens += following_tokens
             if formatted_sql != token_value:
@@ -335,7 +336,7 @@ def compute_file_content(
             should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
         )
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
-            formatted_sql, sql_query = handle_sql_string(token_value)
+            formatted_sql, sql_query = handle_sql_string(token_value, needs_validate)
             if (
                 formatted_sql != token_value
                 and NO_SQLFORMAT_COMMENT not in next_token_value
@@ -406,11 +407,16 @@ def replace_strings(source_lines: List[str], tokens: list) -> str:
     return "".join(content)
 
 
-def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
+def handle_sql_string(
+    sql_string: str, keep_unparsable: bool = False
+) -> Tuple[str, sql_validator.SQLQuery]:
     """
     Read a SQL string as input, potentially with quotes or not,
     and analyse it in order to get the formatter content and know if it is valid.
+    With `keep_unparsable`, a string that cannot be parsed is an invalid query,
+    which keeps its content, and not an error.
     """
+    original_string = sql_string
     quotes = None
     quotes_prefix = None
 
@@ -440,7 +446,12 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
 
     sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
-    formatted_sql = sql_query.format()
+    try:
+        formatted_sql = sql_query.format()
+    except ParsingError:
+        if not keep_unparsable:
+            raise
+        return original_string, sql_query
 
     if len(quotes) == 1 and "\n" in formatted_sql:
         # Need to change to triple quotes
-- 
2.43.0


From fa88a9fbb99d8f53300df673014988ae3caaee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 07/16] fix: report directories that cannot be listed

os.walk skips them silently by default.
---
 sqlvalidator/file_handler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index b1eca7e..33273a7 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -157,7 +157,14 @@ def analyse_dir(
     seen_files = seen_files or set()
     result_infos = InputSQLAnalyseInfo(seen_files=seen_files)
 
-    for root, _, files in os.walk(dirname):
+    def report_unreadable_dir(error: OSError):
+        print(
+            "error analysing {} ({}: {})".format(
+                error.filename, type(error).__name__, error
+            )
+        )
+
+    for root, _, files in os.walk(dirname, onerror=report_unreadable_dir):
         for filename in files:
             if filename.endswith(".py"):
                 abs_filename = os.path.join(root, filename)
-- 
2.43.0


From 650d935091d321e1b46169889a03669c61c915fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 08/16] fix: name the input that is invalid

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 33273a7..c737ef7 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -141,7 +141,7 @@ def handle_one_input(
             print("error analysing {} ({}: {})".format(src_input, type(e).__name__, e))
             result_info = InputSQLAnalyseInfo()
     else:
-        print("Error: Invalid input")
+        print("Error: Invalid input {}".format(src_input))
         result_info = InputSQLAnalyseInfo()
     return result_info
 
-- 
2.43.0


From b3193a5c0f05214eb46500ba227673bdb3f5dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 09/16] fix: do not abort on file names that cannot be
 displayed

Printing such a name raised UnicodeEncodeError, for the report of a file and
again for the report of that error, which ended the run with a traceback.
---
 sqlvalidator/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/main.py b/sqlvalidator/main.py
index 1c891e3..7ac6131 100644
--- a/sqlvalidator/main.py
+++ b/sqlvalidator/main.py
@@ -1,4 +1,5 @@
 import argparse
+import sys
 
 from sqlvalidator import file_handler
 
@@ -49,6 +50,10 @@ def _main() -> None:
             "[--format | --check-format | --validate]"
         )
 
+    if hasattr(sys.stdout, "reconfigure"):
+        # A file name that cannot be displayed must not abort the run
+        sys.stdout.reconfigure(errors="backslashreplace")
+
     file_handler.handle_inputs(
         src_inputs,
         format_input=args.format,
-- 
2.43.0


From dc0e4e143a0703c1993c553e9ad1de50c4bad8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 10/16] fix: do not let hash randomisation decide the type of
 an ambiguous column

---
 sqlvalidator/grammar/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..d96613f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -252,9 +252,12 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
-        if matching_fields:
-            return matching_fields[0].type
+        matching_types = {f.type for f in known_fields if f.name == transform(self)}
+        if len(matching_types) > 1:
+            # Ambiguous name: the type is not known
+            return object
+        if matching_types:
+            return matching_types.pop()
         return self.return_type
 
 
-- 
2.43.0


From 97b86b85a47b72fb3d9eaf9419325ce03c3f0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 11/16] fix: do not read brackets and keywords within strings
 as SQL syntax

The contents of a string such as '(' or 'from' were counted as a parenthesis
or taken for the end of the clause, so formatting such a query dropped a
part of it, failed, or gave another result each time it was repeated.
---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 24 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..1b8c584 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -511,10 +512,13 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        open_quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            open_quote = get_open_quote(next_token, open_quote)
+            if open_quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -522,15 +526,13 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and open_quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..2aaf875 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,13 +25,26 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def get_open_quote(token: Optional[str], open_quote: Optional[str]) -> Optional[str]:
+    """The quote which is open after the token, given the one open before it"""
+    if open_quote is not None:
+        return None if token == open_quote else open_quote
+    return token if token in STRING_SPLIT_TOKENS else None
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    open_quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and open_quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        open_quote = get_open_quote(next_token, open_quote)
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -48,8 +61,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
     count_case_expr = 0 if first_token != "case" else 1
+    open_quote = get_open_quote(first_token, None)
     while next_token is not None and not (
         lower(next_token) in stop_words
+        and open_quote is None
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -59,7 +74,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        open_quote = get_open_quote(next_token, open_quote)
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
-- 
2.43.0


From 8b656bc9ff2fd8f6359d4b9232b3142f24e69454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 12/16] fix: do not indent the lines of a string

A string that spans several lines got one more space of indentation each
time the query around it was formatted, which changed its value and made
repeated runs never settle.
---
 sqlvalidator/grammar/sql.py | 69 ++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d96613f..bfea942 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1,7 +1,7 @@
 from dataclasses import dataclass
 from typing import Any, List, Optional, Set
 
-from sqlvalidator.grammar.tokeniser import lower
+from sqlvalidator.grammar.tokeniser import get_open_quote, lower
 
 DEFAULT_LINE_LENGTH = 88
 
@@ -12,6 +12,23 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def indent(text: str, width: int = 1) -> str:
+    """Indent every line but the first one and those that start within a string"""
+    if "\n" not in text:
+        return text
+    indented_text = ""
+    open_quote = None
+    previous_char = None
+    for char in text:
+        indented_text += char
+        if char == "\n" and open_quote is None:
+            indented_text += " " * width
+        elif previous_char != "\\":
+            open_quote = get_open_quote(char, open_quote)
+        previous_char = char
+    return indented_text
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -65,12 +82,7 @@ class SelectStatement:
             statement_str += " {}".format(transform(self.expressions[0]))
         else:
             statement_str += "\n {}".format(
-                ",\n ".join(
-                    map(
-                        lambda s: s.replace("\n", "\n "),
-                        map(transform, self.expressions),
-                    )
-                )
+                ",\n ".join(map(indent, map(transform, self.expressions)))
             )
 
         if self.from_statement:
@@ -85,9 +97,7 @@ class SelectStatement:
                 if isinstance(from_statement.args[0], SelectStatement):
                     inner_from_str = from_statement.args[0].transform(is_subquery=True)
                 else:
-                    inner_from_str = " " + transform(from_statement.args[0]).replace(
-                        "\n", "\n "
-                    )
+                    inner_from_str = " " + indent(transform(from_statement.args[0]))
                 from_str = f"(\n{inner_from_str}\n)"
             else:
                 from_str = transform(from_statement)
@@ -118,7 +128,7 @@ class SelectStatement:
             statement_str += "\nOFFSET {}".format(transform(self.offset_clause))
 
         if is_subquery:
-            statement_str = " " + statement_str.replace("\n", "\n ")
+            statement_str = " " + indent(statement_str)
         elif self.semi_colon:
             statement_str += ";"
         return statement_str
@@ -265,9 +275,9 @@ class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + indent(transform(self.value.args[0])) + "\n)"
         if "\n" in transformed_value:
-            return "\n " + transformed_value.replace("\n", "\n ")
+            return "\n " + indent(transformed_value)
         return " " + transformed_value
 
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
@@ -352,9 +362,9 @@ class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + indent(transform(self.value.args[0])) + "\n)"
         if "\n" in transformed_value:
-            return "\n " + transformed_value.replace("\n", "\n ")
+            return "\n " + indent(transformed_value)
         return " " + transformed_value
 
     def validate(self, known_fields):
@@ -378,7 +388,7 @@ class OrderByClause(Expression):
         if len(self.args) > 1:
             if allow_linebreak:
                 order_by_str = "\n" + ",\n".join(map(str, self.args))
-                order_by_str = order_by_str.replace("\n", "\n ")
+                order_by_str = indent(order_by_str)
             else:
                 order_by_str = " " + ", ".join(map(str, self.args))
         else:
@@ -546,10 +556,7 @@ class FunctionCall(Expression):
         function_str = self.function_name.upper() + "("
         if with_newlines:
             function_str += "\n "
-            function_str += (
-                ",\n ".join(arg.replace("\n", "\n ") for arg in transformed_args)
-                + "\n)"
-            )
+            function_str += ",\n ".join(indent(arg) for arg in transformed_args) + "\n)"
         else:
             function_str += ", ".join(transformed_args) + ")"
         return function_str
@@ -685,9 +692,7 @@ class AnalyticsClause(Expression):
             else:
                 analytics_str += " " + transform(self.partition_by[0])
         if self.order_by:
-            analytics_str += "\n ORDER BY{}".format(
-                transform(self.order_by).replace("\n", "\n ")
-            )
+            analytics_str += "\n ORDER BY{}".format(indent(transform(self.order_by)))
         if self.frame_clause:
             if "\n" in analytics_str:
                 analytics_str += "\n "
@@ -1223,7 +1228,7 @@ class Join(Expression):
         if num_parenthesis:
             right_element = "\n" + right_element
             if not isinstance(right_from, SelectStatement):
-                right_element = right_element.replace("\n", "\n ")
+                right_element = indent(right_element)
             right_element = " {}{}\n{}".format(
                 "(" * num_parenthesis,
                 right_element,
@@ -1257,7 +1262,7 @@ class Join(Expression):
         if num_parenthesis:
             left_element = "\n" + left_element
             if not isinstance(left_from, SelectStatement):
-                left_element = left_element.replace("\n", "\n ")
+                left_element = indent(left_element)
             left_element = "{}{}\n{}".format(
                 "(" * num_parenthesis,
                 left_element,
@@ -1382,9 +1387,9 @@ class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + indent(transform(self.value.args[0])) + "\n)"
         if "\n" in transformed_value:
-            return "\n " + transformed_value.replace("\n", "\n ")
+            return "\n " + indent(transformed_value)
         return " " + transformed_value
 
 
@@ -1392,9 +1397,9 @@ class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " (\n " + indent(transform(self.value.args[0])) + "\n)"
         if "\n" in transformed_value:
-            return "\n " + transformed_value.replace("\n", "\n ")
+            return "\n " + indent(transformed_value)
         return " " + transformed_value
 
 
@@ -1473,7 +1478,7 @@ class BooleanCondition(Expression):
             elif isinstance(a, Parenthesis):
                 transformed_a = transform(a.args[0])
                 if "\n" in transformed_a:
-                    transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
+                    transformed_a = "(\n " + indent(transformed_a) + "\n)"
                 else:
                     transformed_a = f"({transformed_a})"
             else:
@@ -1585,10 +1590,10 @@ class Case(Expression):
             transformed_when = transform(when)
             if isinstance(when, Parenthesis) and "\n" in transformed_when:
                 when_then_str += (
-                    " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
+                    " (\n  " + indent(transform(when.args[0]), width=2) + "\n )\n "
                 )
             elif "\n" in transformed_when:
-                when_then_str += "\n  " + transformed_when.replace("\n", "\n  ") + "\n "
+                when_then_str += "\n  " + indent(transformed_when, width=2) + "\n "
             else:
                 when_then_str += " " + transformed_when + " "
 
-- 
2.43.0


From 350df724fbf7aed434e826a15c342382e2149402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:46 +0000
Subject: [PATCH 13/16] fix: indent deeply nested queries in a time close to
 what it was

The walk over every character, introduced to keep the lines of strings as
they are, took seconds for a query nested a few hundred levels deep.
---
 sqlvalidator/grammar/sql.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index bfea942..b456389 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1,9 +1,15 @@
+import re
 from dataclasses import dataclass
 from typing import Any, List, Optional, Set
 
-from sqlvalidator.grammar.tokeniser import get_open_quote, lower
+from sqlvalidator.grammar.tokeniser import (
+    STRING_SPLIT_TOKENS,
+    get_open_quote,
+    lower,
+)
 
 DEFAULT_LINE_LENGTH = 88
+UNESCAPED_QUOTE = re.compile(r"((?<!\\)[{}])".format("".join(STRING_SPLIT_TOKENS)))
 
 
 def transform(obj: Any) -> str:
@@ -14,18 +20,14 @@ def transform(obj: Any) -> str:
 
 def indent(text: str, width: int = 1) -> str:
     """Indent every line but the first one and those that start within a string"""
-    if "\n" not in text:
-        return text
     indented_text = ""
     open_quote = None
-    previous_char = None
-    for char in text:
-        indented_text += char
-        if char == "\n" and open_quote is None:
-            indented_text += " " * width
-        elif previous_char != "\\":
-            open_quote = get_open_quote(char, open_quote)
-        previous_char = char
+    for part in UNESCAPED_QUOTE.split(text):
+        if open_quote is None:
+            indented_text += part.replace("\n", "\n" + " " * width)
+        else:
+            indented_text += part
+        open_quote = get_open_quote(part, open_quote)
     return indented_text
 
 
-- 
2.43.0


From 4edcb18101dac51a3f5ebf2d095398b48f66e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 14/16] fix: close the temporary file when it cannot be opened

When open() failed on the descriptor of mkstemp(), nothing closed it: the
file was removed but stayed open (and took its space) until the end of the
run. Given an opener, open() owns the descriptor and closes it itself.
---
 sqlvalidator/file_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index c737ef7..3b5293d 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -268,7 +268,10 @@ def open_for_replacement(filename: str, newline: Optional[str]) -> Iterator[IO]:
         prefix=".sqlvalidator-", suffix=".tmp", dir=os.path.dirname(target)
     )
     try:
-        with open(temp_fd, "w", newline=newline) as temp_file:
+        # with an opener, the descriptor is closed even if open() itself fails
+        with open(
+            temp_name, "w", newline=newline, opener=lambda *_: temp_fd
+        ) as temp_file:
             yield temp_file
             temp_file.flush()
             os.fsync(temp_file.fileno())
-- 
2.43.0


From e62eeb707654387f92845e90470ffc4d521cf34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 15/16] fix: keep the group of a file whose owner cannot be
 kept

---
 sqlvalidator/file_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b5293d..29ba423 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -276,8 +276,11 @@ def open_for_replacement(filename: str, newline: Optional[str]) -> Iterator[IO]:
             temp_file.flush()
             os.fsync(temp_file.fileno())
         if hasattr(os, "chown"):
+            # the group can often be kept where the owner cannot
             with contextlib.suppress(PermissionError):
-                os.chown(temp_name, target_stat.st_uid, target_stat.st_gid)
+                os.chown(temp_name, -1, target_stat.st_gid)
+            with contextlib.suppress(PermissionError):
+                os.chown(temp_name, target_stat.st_uid, -1)
         os.chmod(temp_name, stat.S_IMODE(target_stat.st_mode))
         os.replace(temp_name, target)
     except BaseException:
-- 
2.43.0


From a6a4a2d3c035d1694b41dda72e30781bb0d6eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:27 +0000
Subject: [PATCH 16/16] fix: report a named pipe that looks like a Python file
 instead of waiting for it

A directory that holds a named pipe called *.py made every run hang when
it opened the pipe. As for inputs of the command line, only regular files
are analysed; anything else is reported.
---
 sqlvalidator/file_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 29ba423..c11d5ad 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -203,6 +203,9 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
+    if not stat.S_ISREG(os.stat(filename).st_mode):
+        # opening a named pipe might wait forever
+        raise OSError(errno.EINVAL, "Not a regular file", filename)
     with open(filename, "r") as file:
         (
             count_changed_sql,
-- 
2.43.0

