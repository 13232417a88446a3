From dcf10bcb542832a4942b71bdde3c6760e7faf7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 01/67] fix: skip already deleted #ifdefs when deleting empty
 ones

_DeleteEmptyIfdefs is called until it finds nothing to do. On a later round
it took the deleted #if of an earlier round as the start of a block, skipped
to the next surviving #endif and deleted that of an enclosing block.
---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..1b50885 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1097,7 +1097,8 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
-    if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
+    if (file_lines[start_line].deleted or
+        file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE)):
       start_line += 1
       continue
     end_line = start_line + 1
-- 
2.43.0


From 31d8d55f6449993b2e8cfa303ce4d004d3e3dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 02/67] fix: edit files in other encodings too

A file that decoded in none of the guessed encodings, such as Shift-JIS,
ended the run with an uncaught UnicodeDecodeError, so that it and all files
after it were left unfixed.
---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 1b50885..0e5305f 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -575,7 +575,8 @@ class FileInfo(object):
       if try_decode(bytebuf, 'utf-8-sig'):
         return 'utf-8-sig'
 
-    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252']
+    # latin-1 maps every byte, so there is always an encoding that works.
+    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252', 'latin-1']
     for encoding in encodings:
       if try_decode(bytebuf, encoding):
         return encoding
-- 
2.43.0


From 0ae2ffd15ad7aaee16a4ad9a157c2e9d74d203b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 03/67] fix: count lines the way the compiler does

str.splitlines() also splits at form feeds, vertical tabs, NEL and the
Unicode line and paragraph separators. A file with one of these was edited
at the wrong lines, or not at all.
---
 fix_includes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 0e5305f..fbc48c1 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -60,6 +60,7 @@ up.  Then we're done!
 __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
+import io
 import argparse
 import os
 import re
@@ -589,12 +590,14 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
-      # endings.  Later in WriteFile, they will be used as-is.
+      # Use newline='' to keep the original line endings.  Later in
+      # WriteFile, they will be used as-is.
       # This will reduce spurious changes to the original files.
       # The lines we add will have the linesep determined by
       # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # str.splitlines() will not do, because it also splits on characters
+      # (form feed, for one) that do not end a line for the compiler.
+      return list(io.StringIO(content.decode(fileinfo.encoding), newline=''))
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From e8033780cca577963e454a7f3c6918c84ef6e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 04/67] fix: do not glue an added line onto an unterminated
 last line

When the place to add lines is after the last line of the file, and that
line has no line separator, the first added line continued it.
---
 fix_includes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index fbc48c1..3346835 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2217,6 +2217,11 @@ def FixFileLines(iwyu_record, file_lines, flags, fileinfo):
     # Add line separators to the new lines.
     new_lines = [nl.rstrip() + fileinfo.linesep for nl in new_lines]
 
+    # The line we insert after may be the last one, and lack a separator.
+    if (new_lines and output_lines and
+        not output_lines[-1].endswith(('\n', '\r'))):
+      output_lines[-1] += fileinfo.linesep
+
     output_lines.extend(new_lines)
     line_number = current_reorder_span[1]               # go to end of span
 
-- 
2.43.0


From 6f35b5bd6ab0364cc1958d07ca985d4c42c34abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 05/67] fix: go on with the other files when one cannot be read

FileInfo.parse() opens the file before _ReadFile() does, so that the error
handling of the latter was never reached and the whole run ended.
---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 3346835..b07fc68 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2280,6 +2280,8 @@ def FixManyFiles(iwyu_records, flags):
       files_fixed += 1
     except FixIncludesError as why:
       print('ERROR: %s - skipping file %s' % (why, iwyu_record.filename))
+    except (IOError, OSError) as why:
+      print("Skipping '%s': %s" % (iwyu_record.filename, why))
 
   print('IWYU edited %d files on your behalf.\n' % files_fixed)
   return files_fixed
-- 
2.43.0


From 7c84e6f9a3e4b7a0646d728ff05bce7e08be5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 06/67] fix: report #include line numbers past the end of the
 file

As for forward-declares, skip the file and say why. It ended the run with
an IndexError.
---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index b07fc68..54f6d3f 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -769,6 +769,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0


From ff7d6080c6e2be5649475233da7dd2851276ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 07/67] fix: keep comments of forward-declares in namespaces

A forward-declare on one line with its namespaces is normalized. This
dropped a comment after it, even one like 'IWYU pragma: keep'.
---
 fix_includes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 54f6d3f..b1227eb 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2022,6 +2022,8 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
   # iwyu input is very regular, which is nice.
   iwyu_namespace_re = re.compile(r'namespace ([^{]*) { ')
   iwyu_classname_re = re.compile(r'{ ([^{}]*) }')
+  # The line may come from the file, and have a comment (a pragma, say).
+  trailing_comment_re = re.compile(r'}\s*(//.*|/\*.*\*/)\s*$')
 
   retval = []
   current_namespaces = []
@@ -2040,7 +2042,8 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
       m = iwyu_classname_re.search(line)
       if not m:
         raise FixIncludesError('Malformed namespace line from iwyu: %s', line)
-      retval.append(m.group(1))
+      comment = trailing_comment_re.search(line)
+      retval.append(m.group(1) + ('  ' + comment.group(1) if comment else ''))
     else:
       retval.append(line)
 
-- 
2.43.0


From f55fd2b961dfb155570d101d1babc0590e4bd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 08/67] fix: do not add lines inside the code after a
 whole-file #if

An #if around the whole file is taken for a header guard, and the line
after it was skipped as its #define whatever it was. Lines were then added
inside a function or a comment that starts there.
---
 fix_includes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index b1227eb..7ac6eb1 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1802,7 +1802,10 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       line_number += 1
     elif file_lines[line_number].type == _HEADER_GUARD_RE:
       seen_header_guard = True
-      line_number += 2    # skip over the header guard
+      line_number += 1    # skip over the header guard
+      if (line_number < len(file_lines) and
+          file_lines[line_number].type == _HEADER_GUARD_DEFINE_RE):
+        line_number += 1  # and over its #define
     elif file_lines[line_number].type == _BLANK_LINE_RE:
       line_number += 1
     elif file_lines[line_number].type == _PRAGMA_ONCE_LINE_RE:
-- 
2.43.0


From 2d119a9bb1945703aee6f09d05e6b6e7e5a620a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 09/67] fix: do not count the } of a function as the end of a
 namespace

After a function or class, a namespace was taken for the top level, and
forward-declares of other namespaces were added to it.
---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 7ac6eb1..5d18aa1 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1348,7 +1348,9 @@ def _GetToplevelReorderSpans(file_lines):
     elif line_info.type == _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE:
       namespace_depth += 1
     elif line_info.type == _NAMESPACE_END_RE:
+      # The } may end something else, when we are not in a namespace.
       namespace_depth -= max(line_info.line.count('}'), 1)
+      namespace_depth = max(namespace_depth, 0)
     if namespace_depth > 0:
       in_namespace[line_number] = True
       if line_info.type is None:
-- 
2.43.0


From 832c9b041510b4a234be514f6e48a56311e7528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 10/67] fix: do not take an #if with #else for a header guard

Lines were added to one of its branches only.
---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 5d18aa1..bc23b3b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -632,7 +632,7 @@ def _MarkHeaderGuardIfPresent(file_lines):
 
   We define a header-guard as follows: an #ifdef where there is
   nothing contentful before or after the #ifdef.  Also, the #ifdef
-  should have no #elif in it (though we don't currently test that).
+  should have no #else or #elif in it.
   This catches the common case of an 'ifdef guard' in .h file, such
   as '#ifndef FOO_H\n#define FOO_H\n...contents...\n#endif', but it
   can also catch other whole-program #ifdefs, such as
@@ -674,6 +674,8 @@ def _MarkHeaderGuardIfPresent(file_lines):
       ifdef_depth -= 1
       if ifdef_depth == 0:   # The end of our #ifdef!
         break
+    elif file_lines[ifdef_end].type == _ELSE_RE and ifdef_depth == 1:
+      return                 # What we add must be in both branches.
   else:                      # for/else
     return False             # Weird: never found a close to this #ifdef
 
-- 
2.43.0


From 610ebb9879ffd9da2f55847929584af7e56b956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 11/67] fix: edit files listed on the command line by relative
 name

The listed names were made absolute, those in the report were not unless
--basedir was absolute, so that no file was edited.
---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index bc23b3b..06263f7 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2338,7 +2338,8 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
       print('ERROR: %s' % why)
       continue
     filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
-    if files_to_process is not None and filename not in files_to_process:
+    if (files_to_process is not None and
+        NormalizeFilePath(cwd, filename) not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
       continue
     if flags.ignore_re and re.search(flags.ignore_re, filename):
-- 
2.43.0


From ef89b775fe63c5980872b15c28f8dc2754a09e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 12/67] fix: apply a relative --basedir only once

It was applied twice to the name that is matched against the listed files,
--ignore_re and --only_re.
---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 06263f7..5a4c333 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2337,7 +2337,7 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
     except FixIncludesError as why:
       print('ERROR: %s' % why)
       continue
-    filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
+    filename = iwyu_record.filename   # The parser has applied flags.basedir.
     if (files_to_process is not None and
         NormalizeFilePath(cwd, filename) not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
-- 
2.43.0


From e27ba7d35b282670ed54a17bc73a5152caf28af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 13/67] fix: refuse a forward-declare without a name

As for other malformed lines, skip the file and say why. It ended the run
with an IndexError.
---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 5a4c333..6a9c0f0 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2098,6 +2098,8 @@ def _GetSymbolNameFromForwardDeclareLine(line):
   namespaces_in_line = iwyu_namespace_re.findall(line.replace(
     "namespace {", "namespace (anonymous namespace) {"))
   symbols_in_line = symbolname_re.findall(line)
+  if not symbols_in_line:
+    raise FixIncludesError('Malformed forward-declare line from iwyu: %s' % line)
   symbol_name = symbols_in_line[-1]
   if (namespaces_in_line):
     symbol_name = '::'.join(namespaces_in_line) + '::' + symbol_name
-- 
2.43.0


From ae012d2c32c04694cc23338129d91be1b1d7675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 14/67] fix: do not lose lines added inside an existing reorder
 span

---
 fix_includes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 6a9c0f0..0afa5d8 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1830,6 +1830,10 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
             first_reorder_spans
         if line_number >= first_reorder_spans[_FORWARD_DECLARE_KIND][0]:
           return first_reorder_spans[_FORWARD_DECLARE_KIND]
+      # Never create a new span inside any other existing one, either.
+      for reorder_span in good_reorder_spans:
+        if reorder_span[0] <= line_number < reorder_span[1]:
+          return reorder_span
       return (line_number, line_number)
 
   # OK, I guess just insert at the end of the file
-- 
2.43.0


From 247b7181ba9ff240059acbb67eb03a5f0f72e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 15/67] fix: recognise a compiler launcher given by its path

---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..9434863 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -306,7 +306,7 @@ class Invocation(object):
         else:
             raise ValueError('Invalid compilation database entry: %s' % entry)
 
-        if command[0] in KNOWN_COMPILER_WRAPPERS:
+        if os.path.basename(command[0]) in KNOWN_COMPILER_WRAPPERS:
             # Remove the compiler wrapper from the command.
             command = command[1:]
 
-- 
2.43.0


From 62e64bd2ba91e9e8d8977b98f88aa332e716acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 16/67] fix: run each selected compilation database entry once

---
 iwyu_tool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 9434863..045161d 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -349,6 +349,7 @@ def slice_compilation_db(compilation_db, selection):
     selection = [os.path.realpath(p) for p in selection]
 
     new_db = []
+    selected = set()
     for path in selection:
         if not os.path.exists(path):
             print('warning: \'%s\' not found on disk.' % path, file=sys.stderr)
@@ -360,7 +361,9 @@ def slice_compilation_db(compilation_db, selection):
                   file=sys.stderr)
             continue
 
-        new_db.extend(found)
+        # Overlapping selections should not process an entry twice.
+        new_db.extend(e for e in found if id(e) not in selected)
+        selected.update(id(e) for e in found)
 
     return new_db
 
-- 
2.43.0


From 05307c66feea3ec58e9401b4d58a047940458e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:30 +0000
Subject: [PATCH 17/67] fix: do not abort on IWYU output that is not UTF-8

---
 iwyu_tool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 045161d..100bbe1 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -263,7 +263,9 @@ class Process(object):
         if not self.output:
             self.proc.wait()
             self.outfile.seek(0)
-            self.output = self.outfile.read().decode("utf-8")
+            # File names and source text may be in any encoding.
+            self.output = self.outfile.read().decode("utf-8",
+                                                     "backslashreplace")
             self.outfile.close()
 
         return self.output
-- 
2.43.0


From 212d1849021933bd431045e980bd7ea4d84d6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 18/67] fix: format incomplete IWYU output without aborting

---
 iwyu_tool.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 100bbe1..5f3c36a 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -94,9 +94,10 @@ def clang_formatter(output, style):
                                  (state[1], style, line))
         elif state[0] == REMOVE:
             match = LINES_RE.match(line)
-            line_no = match.group(2) if match else '1'
+            # Be careful with incomplete output, e.g. if IWYU was killed.
+            superfluous, line_no = match.groups() if match else (line, '1')
             formatted.append("%s:%s:1: %s: superfluous '%s'" %
-                             (state[1], line_no, style, match.group(1)))
+                             (state[1], line_no, style, superfluous))
 
     return os.linesep.join(formatted)
 
-- 
2.43.0


From 80c8fb5a74d890e18b9374049ec1d148ad6c8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 19/67] fix: require the full type to increment a pointer

++ and -- on a pointer are pointer arithmetic, so a forward declaration of
the pointee is not enough for them.
---
 iwyu.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 0373578..419d31f 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -265,6 +265,7 @@ using clang::TypedefDecl;
 using clang::TypedefNameDecl;
 using clang::TypedefType;
 using clang::UnaryExprOrTypeTraitExpr;
+using clang::UnaryOperator;
 using clang::UnresolvedLookupExpr;
 using clang::UsingDecl;
 using clang::UsingDirectiveDecl;
@@ -2018,6 +2019,22 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
 
   // If a binary operator expression results in pointer arithmetic, we need the
   // full types of all pointers involved.
+  // Incrementing or decrementing a pointer requires the full pointee type.
+  bool VisitUnaryOperator(UnaryOperator* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (!expr->isIncrementDecrementOp())
+      return true;
+
+    const Expr* term = expr->getSubExpr()->IgnoreParens();
+    const Type* type = GetTypeOf(term);
+    if (type->isPointerType())
+      ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
+
+    return true;
+  }
+
   bool VisitBinaryOperator(BinaryOperator* expr) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From dbbb0142c0a6779f04885bd76e69bb6b48419133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 20/67] fix: report the concept of a constrained auto

The concept in 'Concept auto var = ...' or in a return type has no
ConceptSpecializationExpr, so its header was not required.
---
 iwyu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 419d31f..b0e722a 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -177,6 +177,7 @@ using clang::ASTFrontendAction;
 using clang::ArraySubscriptExpr;
 using clang::ArrayType;
 using clang::Attr;
+using clang::AutoTypeLoc;
 using clang::BinaryOperator;
 using clang::CXXBaseSpecifier;
 using clang::CXXBindTemporaryExpr;
@@ -4458,6 +4459,15 @@ class IwyuAstConsumer
     return Base::TraverseTypeLoc(typeloc);
   }
 
+  // Called for 'auto' as it is written, possibly with a constraint on it.
+  bool VisitAutoTypeLoc(AutoTypeLoc typeloc) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+    if (typeloc.isConstrained())
+      ReportDeclUse(CurrentLoc(), typeloc.getNamedConcept());
+    return Base::VisitAutoTypeLoc(typeloc);
+  }
+
   bool VisitTypedefType(TypedefType* type) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From d3d18b257b3a6a96caec797f32720be60469a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 21/67] fix: functions declared in source files provide no
 parameter types

The author of such a declaration is not required to provide the type, so
its caller has to; before, neither of them was.
---
 iwyu.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index b0e722a..3e0a015 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1496,7 +1496,9 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
               GetFileEntry(call_expr), GetFileEntry(*fn_redecl))) {
         continue;
       }
-      if (fn_redecl->isThisDeclarationADefinition() && !IsInHeader(*fn_redecl))
+      // Declarations in source files are not analyzed for author intent (see
+      // CanBeProvidedTypeComponent), so they provide nothing.
+      if (!IsInHeader(*fn_redecl))
         continue;
       for (const Type* type : autocast_types) {
         const set<const Type*> components =
-- 
2.43.0


From 8259aaac8fd198339b460d366cb6a161d927e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 22/67] fix: functions declared in source files provide no
 return type

The author of such a declaration is not required to provide the type, so
its caller has to; before, neither of them was.
---
 iwyu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 3e0a015..6912843 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1514,6 +1514,10 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     const FunctionDecl* providing_decl = decl;
     if (const auto* method = dyn_cast<CXXMethodDecl>(decl))
       providing_decl = GetFromLeastDerived(method);
+    // Declarations in source files are not analyzed for author intent (see
+    // CanBeProvidedTypeComponent), so they provide nothing.
+    if (!IsInHeader(providing_decl))
+      return set<const Type*>();
     const Type* return_type = providing_decl->getReturnType().getTypePtr();
     return GetProvidedTypes(return_type, GetLocation(providing_decl));
   }
-- 
2.43.0


From 0ae87810bc81f632e9bc066599cec22f3d1cb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 23/67] fix: do not count on forward declarations that the
 associated header removes

A use in foo.cc that only needs a declaration is satisfied by a forward
declaration in foo.h, but when foo.h has no use for it itself it is advised to
remove it in the same run, and applying the advice to both broke foo.cc.
---
 iwyu_output.cc | 36 ++++++++++++++++++++++++++++++++----
 iwyu_output.h  | 12 ++++++++++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..689c4dc 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1480,10 +1480,22 @@ void ProcessSymbolUse(OneUse* use,
   }
 }
 
+// Returns true if decl, or the class template it belongs to, is one of the
+// removed forward declarations.
+static bool IsRemoved(const NamedDecl* decl,
+                      const set<const NamedDecl*>& removed_fwd_decls) {
+  if (const auto* cxx_decl = dyn_cast<CXXRecordDecl>(decl)) {
+    if (const ClassTemplateDecl* tpl = cxx_decl->getDescribedClassTemplate())
+      decl = tpl;
+  }
+  return ContainsKey(removed_fwd_decls, decl);
+}
+
 void CalculateIwyuForForwardDeclareUse(
     OneUse* use, const set<string>& actual_includes,
     const set<string>& desired_includes,
-    const set<OptionalFileEntryRef>& associated_includes) {
+    const set<OptionalFileEntryRef>& associated_includes,
+    const set<const NamedDecl*>& associated_removed_fwd_decls) {
   CHECK_(!use->ignore_use() && "Trying to calculate on an ignored use");
   CHECK_(use->decl() && "CalculateIwyuForForwardDeclareUse takes a fwd-decl");
   CHECK_(!use->is_full_use() && "ForwardDeclareUse are not full uses");
@@ -1533,10 +1545,13 @@ void CalculateIwyuForForwardDeclareUse(
   }
   // If there's no redecl in the .cc file, we'll accept a redecl in
   // an associated .h file.  Since associated .h files are always
-  // desired includes, we don't need to check for that.
+  // desired includes, we don't need to check for that.  But unless we'll
+  // have the definition, the .h file must not be removing the redecl.
   if (!same_file_decl) {
     for (const NamedDecl* redecl : redecls) {
-      if (ContainsKey(associated_includes, GetFileEntry(redecl))) {
+      if (ContainsKey(associated_includes, GetFileEntry(redecl)) &&
+          (dfn_is_in_desired_includes ||
+           !IsRemoved(redecl, associated_removed_fwd_decls))) {
         same_file_decl = redecl;
         break;
       }
@@ -1715,6 +1730,8 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   // iwyu analysis done before us.
   set<string> effective_desired_includes = desired_includes();
   InsertAllInto(associated_desired_includes, &effective_desired_includes);
+  const set<const NamedDecl*> associated_removed_fwd_decls =
+      AssociatedRemovedForwardDeclares();
 
   // Now that we've figured out desired_includes, figure out iwyu violations.
   for (OneUse& use : *uses) {
@@ -1723,7 +1740,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
     } else if (!use.is_full_use()) {
       internal::CalculateIwyuForForwardDeclareUse(
           &use, effective_direct_includes, effective_desired_includes,
-          AssociatedFileEntries());
+          AssociatedFileEntries(), associated_removed_fwd_decls);
     } else {
       internal::CalculateIwyuForFullUse(
           &use, effective_direct_includes, quoted_file_);
@@ -2300,6 +2317,17 @@ size_t IwyuFileInfo::CalculateAndReportIwyuViolations() {
   return num_edits;
 }
 
+set<const NamedDecl*> IwyuFileInfo::RemovedForwardDeclares() const {
+  set<const NamedDecl*> removed;
+  if (!desired_includes_have_been_calculated_)
+    return removed;
+  for (const OneIncludeOrForwardDeclareLine& line : lines_) {
+    if (!line.IsIncludeLine() && line.is_present() && !line.is_desired())
+      removed.insert(line.fwd_decl());
+  }
+  return removed;
+}
+
 bool IsDirectlyIncluded(const NamedDecl* decl, const IwyuFileInfo& includer) {
   // If the decl or its header is private then a user should '#include' any of
   // the specified public headers for it, so check their presence.
diff --git a/iwyu_output.h b/iwyu_output.h
index 8eb3338..6a74359 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -347,6 +347,10 @@ class IwyuFileInfo {
   // Reports violations on errs(), and returns the number of violations.
   size_t CalculateAndReportIwyuViolations();
 
+  // Forward declarations in this file that CalculateAndReportIwyuViolations
+  // told to remove; empty if that has not been called yet.
+  set<const clang::NamedDecl*> RemovedForwardDeclares() const;
+
  private:
   const set<string>& desired_includes() const {
     CHECK_(desired_includes_have_been_calculated_ &&
@@ -368,6 +372,14 @@ class IwyuFileInfo {
     return associated_file_entries;
   }
 
+  // Forward declarations that our associated headers are told to remove.
+  set<const clang::NamedDecl*> AssociatedRemovedForwardDeclares() const {
+    set<const clang::NamedDecl*> removed;
+    for (const IwyuFileInfo* associated : associated_headers_)
+      InsertAllInto(associated->RemovedForwardDeclares(), &removed);
+    return removed;
+  }
+
   set<string> AssociatedDesiredIncludes() const {
     set<string> associated_desired_includes;
     for (const IwyuFileInfo* associated : associated_headers_)
-- 
2.43.0


From 8f1a8033775d6bab7ed42da999e83b608c1316ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 24/67] fix: do not promote uses to a forward declaration that
 is removed

With --no_fwd_decls a use in foo.cc was taken to need foo.h because of a forward
declaration there, although foo.h was told to remove it.
---
 iwyu_output.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 689c4dc..23cfa0d 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1210,7 +1210,13 @@ void ProcessForwardDeclare(OneUse* use,
     bool promote_to_full_use = true;
     for (const Decl* decl = use->decl(); decl != nullptr;
          decl = decl->getPreviousDecl()) {
-      if (IsBeforeInSameFile(decl->getLocation(), use->use_loc())) {
+      const IwyuFileInfo* decl_file =
+          preprocessor_info->FileInfoFor(GetFileEntry(decl));
+      if (decl_file && ContainsKey(decl_file->RemovedForwardDeclares(),
+                                   cast<NamedDecl>(decl))) {
+        // That file has been told to remove the decl, so don't rely on it.
+        promote_to_full_use = false;
+      } else if (IsBeforeInSameFile(decl->getLocation(), use->use_loc())) {
         promote_to_full_use = false;
       } else if (IsBeforeInTranslationUnit(decl->getLocation(),
                                            use->use_loc())) {
-- 
2.43.0


From df6312c8a0fafde4a202a2e341bb9ba084d13b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 25/67] fix: do not take a qualified type or namespace for a
 nested forward declaration

'namespace a::b { class C; }' (--cxx17ns), template parameters and the
underlying type of an enum contain '::' too; such lines were not seen as
top-level ones, so that duplicates and reordering went wrong.
---
 fix_includes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 0afa5d8..dd4562d 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -288,6 +288,10 @@ class IWYUOutputParser(object):
   # iwyu adds this comment to some lines to map them to the source file.
   _LINE_NUMBERS_COMMENT_RE = re.compile(r'\s*// lines ([0-9]+)-([0-9]+)')
 
+  # The name a forward-declare line declares, possibly followed by the
+  # underlying type of an enum.  It is qualified for nested classes only.
+  _FORWARD_DECLARE_NAME_RE = re.compile(r'([\w:]+)(?: : [^;]*)?;')
+
   # The output of include-what-you-use has sections that indicate what
   # #includes and forward-declares should be added to the output file,
   # what should be removed, and what the end result is.  The first line
@@ -447,7 +451,8 @@ class IWYUOutputParser(object):
       if m:
         line_range = (int(m.group(1)), int(m.group(2))+1)
         retval.seen_forward_declare_lines.add(line_range)
-        if '::' in line:
+        m = self._FORWARD_DECLARE_NAME_RE.search(line)
+        if m and '::' in m.group(1):
             retval.nested_forward_declare_lines.add(line_range)
 
     # IWYUOutputRecord.includes_and_forward_declares_to_add
-- 
2.43.0


From dd2d95e975d4746195e8550ae112e12bba5e9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 26/67] fix: count violations for --error whatever the
 verbosity

With --verbose=0 the lists of additions and removals are not printed, and they
were not counted either, so that --error exited with 0.
---
 iwyu_output.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 23cfa0d..47814ed 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2125,22 +2125,19 @@ size_t PrintableDiffs(const string& filename,
 
   // First, check if there are no adds or deletes.  If so, we print a
   // shorter summary line.
-  bool no_adds_or_deletes = true;
+  size_t num_edits = 0;
   for (const auto& key_line : sorted_lines) {
     const OneIncludeOrForwardDeclareLine* line = key_line.second;
     if ((line->is_desired() && !line->is_present()) || // add
         (line->is_present() && !line->is_desired())) { // delete
-      no_adds_or_deletes = false;
-      break;
+      ++num_edits;
     }
   }
-  if (no_adds_or_deletes && !GlobalFlags().update_comments) {
+  if (num_edits == 0 && !GlobalFlags().update_comments) {
     output = "\n(" + filename + " has correct #includes/fwd-decls)\n";
     return 0;
   }
 
-  size_t num_edits = 0;
-
   // First, new desired includes and forward-declares.
   if (ShouldPrint(1)) {
     output_lines.push_back(
@@ -2150,7 +2147,6 @@ size_t PrintableDiffs(const string& filename,
       if (line->is_desired() && !line->is_present()) {
         output_lines.push_back(
           PrintableIncludeOrForwardDeclareLine(*line, aqi));
-        ++num_edits;
       }
     }
   }
@@ -2165,8 +2161,6 @@ size_t PrintableDiffs(const string& filename,
         output_lines.push_back(
             PrintableIncludeOrForwardDeclareLine(*line, aqi));
         output_lines.back().add_prefix("- ");
-
-        ++num_edits;
       }
     }
   }
-- 
2.43.0


From 0f72bc80cbd457ce0413cdcc85208c4e83b93b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 27/67] fix: report a forward declaration of an unguarded
 header once

---
 iwyu_output.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 47814ed..946fa03 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2098,6 +2098,25 @@ LineSortKey GetSortKey(const OneIncludeOrForwardDeclareLine& line,
 
 // filename is "this" filename: the file being emitted.
 // associated_filepaths are the quoted-include form of associated_headers_.
+// A header without include guard may be seen several times, and its forward
+// declarations with it.  Returns true if another one of the lines stands for
+// the same forward declaration in the source, and should be reported instead.
+static bool IsRepeatedForwardDeclare(
+    const OneIncludeOrForwardDeclareLine& line,
+    const vector<OneIncludeOrForwardDeclareLine>& lines) {
+  if (line.IsIncludeLine() || !line.is_present())
+    return false;
+  for (const OneIncludeOrForwardDeclareLine& other : lines) {
+    if (&other == &line || other.IsIncludeLine() || !other.is_present() ||
+        !other.LineNumbersMatch(line) || other.line() != line.line())
+      continue;
+    if (other.is_desired() ? !line.is_desired() || &other < &line
+                           : !line.is_desired() && &other < &line)
+      return true;
+  }
+  return false;
+}
+
 size_t PrintableDiffs(const string& filename,
                       const IwyuPreprocessorInfo* preprocessor_info,
                       const set<string>& associated_quoted_includes,
@@ -2116,6 +2135,8 @@ size_t PrintableDiffs(const string& filename,
   // because some headers might be listed twice in the source file.)
   multimap<LineSortKey, const OneIncludeOrForwardDeclareLine*> sorted_lines;
   for (const OneIncludeOrForwardDeclareLine& line : lines) {
+    if (IsRepeatedForwardDeclare(line, lines))
+      continue;
     const IwyuFileInfo* file_info = nullptr;
     if (line.IsIncludeLine())
       file_info = preprocessor_info->FileInfoFor(line.included_file());
-- 
2.43.0


From 3ea87a4c493c496d84c5517ed8ea9ed124eab598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:45 +0000
Subject: [PATCH 28/67] fix: name namespaces in (ptr only) comments with
 --comment_style=long

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 946fa03..cef7e17 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1903,7 +1903,9 @@ void CalculateDesiredIncludesAndForwardDeclares(
     } else if (ContainsKey(include_map, use.suggested_header())) {
       // If we satisfy a forward-declare use from a file, let the file
       // know (this is just for logging).
-      const string symbol_name = use.short_symbol_name();
+      const string symbol_name = GlobalFlags().comments_with_namespace
+                                     ? use.symbol_name()
+                                     : use.short_symbol_name();
 
       auto range = include_map.equal_range(use.suggested_header());
       for (auto it = range.first; it != range.second; ++it) {
-- 
2.43.0


From 65b63fba602c78b090f887174ef4c7c26c8fd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 29/67] fix: accept --max_line_length=0

---
 iwyu_output.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index cef7e17..73edf96 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -114,8 +114,8 @@ string OutputLine::printable_line(size_t min_length, size_t max_length) const {
   if (symbols_.empty())
     return line_;
 
-  CHECK_(max_length > 0);
-  --max_length;  // Spare a char for newline character.
+  if (max_length > 0)
+    --max_length;  // Spare a char for newline character.
 
   // Before first symbol, print '  // for ' and pad it so 'why' comments are
   // nicely aligned.
-- 
2.43.0


From 91cf8d8751827903596922c53253dd7d00b83a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 30/67] fix: recognise an included header under any of its
 names

---
 iwyu_include_picker.cc | 7 +++++--
 iwyu_path_util.cc      | 8 ++++++++
 iwyu_path_util.h       | 4 ++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..54cf221 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1566,7 +1566,8 @@ void IncludePicker::AddDirectInclude(const string& includer_filepath,
   MappedInclude mapped_includer(quoted_includer, includer_filepath);
 
   quoted_includes_to_quoted_includers_[quoted_includee].insert(quoted_includer);
-  const pair<string, string> key(includer_filepath, includee_filepath);
+  const pair<string, string> key(includer_filepath,
+                                 GetRealPath(includee_filepath));
   includer_and_includee_to_include_as_written_[key] = quoted_include_as_written;
 
   // Mark the clang fake-file "<built-in>" as private, so we never try
@@ -1792,7 +1793,9 @@ vector<MappedInclude> IncludePicker::GetPublicValues(
 
 string IncludePicker::MaybeGetIncludeNameAsWritten(
     const string& includer_filepath, const string& includee_filepath) const {
-  const pair<string, string> key(includer_filepath, includee_filepath);
+  // The file may have been opened under another name first.
+  const pair<string, string> key(includer_filepath,
+                                 GetRealPath(includee_filepath));
   // I want to use GetOrDefault here, but it has trouble deducing tpl args.
   const string* value = FindInMap(&includer_and_includee_to_include_as_written_,
                                   key);
diff --git a/iwyu_path_util.cc b/iwyu_path_util.cc
index 56381dc..a87991b 100644
--- a/iwyu_path_util.cc
+++ b/iwyu_path_util.cc
@@ -158,6 +158,14 @@ string MakeAbsolutePath(const string& base_path, const string& relative_path) {
   return absolute_path.str().str();
 }
 
+string GetRealPath(const string& path) {
+  llvm::SmallString<128> real_path;
+  if (llvm::sys::fs::real_path(path, real_path))
+    return NormalizeFilePath(MakeAbsolutePath(path));
+
+  return NormalizeFilePath(real_path.str().str());
+}
+
 string GetParentPath(const string& path) {
   llvm::StringRef parent = llvm::sys::path::parent_path(path);
   return parent.str();
diff --git a/iwyu_path_util.h b/iwyu_path_util.h
index afca837..d627a3d 100644
--- a/iwyu_path_util.h
+++ b/iwyu_path_util.h
@@ -63,6 +63,10 @@ bool IsAbsolutePath(const string& path);
 string MakeAbsolutePath(const string& path);
 string MakeAbsolutePath(const string& base_path, const string& relative_path);
 
+// Get the absolute path with symbolic links resolved, which is the same for
+// all names of a file.
+string GetRealPath(const string& path);
+
 // Get the parent of path.
 string GetParentPath(const string& path);
 
-- 
2.43.0


From c9606a13e8f6eaba828fdc59daa4b67a6e032eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 31/67] fix: match mapping and friend patterns against the
 whole name

---
 iwyu_regex.cc | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 09aee7b..912aa76 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -13,7 +13,7 @@
 #include <regex>
 
 #include "iwyu_port.h"
-#include "iwyu_string_util.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
@@ -21,21 +21,12 @@ namespace include_what_you_use {
 
 namespace {
 
-// Add ^...$ start/end anchoring if they don't already exist.
-// This is useful to transform from search-inside-string semantics to match-
-// whole-string semantics for regex implementations that don't support the
-// latter.
-std::string Anchored(const std::string& pattern) {
-  const char* prefix = "";
-  const char* suffix = "";
-  if (!StartsWith(pattern, "^")) {
-    prefix = "^";
-  }
-  if (!EndsWith(pattern, "$")) {
-    suffix = "$";
-  }
-
-  return prefix + pattern + suffix;
+// Returns true if regex matches all of str, wherever its alternatives and
+// anchors are.  llvm::Regex has search semantics, and finds the leftmost of the
+// longest matches, so anything shorter than str means that no match spans it.
+bool MatchesWhole(llvm::Regex& regex, const std::string& str) {
+  llvm::SmallVector<llvm::StringRef, 4> matches;
+  return regex.match(str, &matches) && matches[0].size() == str.size();
 }
 
 }  // anonymous namespace
@@ -55,9 +46,8 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::match has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.match(str);
+      llvm::Regex r(pattern);
+      return MatchesWhole(r, str);
     }
 
     case RegexDialect::ECMAScript: {
@@ -73,16 +63,15 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
                          const std::string& replacement) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::sub has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.sub(replacement, str);
+      llvm::Regex r(pattern);
+      return MatchesWhole(r, str) ? r.sub(replacement, str) : str;
     }
 
     case RegexDialect::ECMAScript: {
-      // std::regex_replace has search semantics; ensure anchored.
-      std::regex r(Anchored(pattern), std::regex_constants::ECMAScript);
-      return std::regex_replace(str, r, replacement,
-                                std::regex_constants::format_first_only);
+      // std::regex_replace has search semantics; ensure a whole match.
+      std::regex r(pattern, std::regex_constants::ECMAScript);
+      std::smatch match;
+      return std::regex_match(str, match, r) ? match.format(replacement) : str;
     }
   }
   CHECK_UNREACHABLE_("Unexpected regex dialect");
-- 
2.43.0


From 994c906d68b20998b460986ad54ffb71de3fc2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 32/67] fix: read a mapping file that refers back to itself
 once

---
 iwyu_include_picker.cc | 6 ++++++
 iwyu_include_picker.h  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 54cf221..0e03ebf 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1967,6 +1967,12 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
     return;
   }
 
+  // Mapping files can refer to each other, so read each of them only once.
+  if (!mapping_files_read_.insert(GetRealPath(absolute_path)).second) {
+    VERRS(5) << "Already read mapping file '" << absolute_path << "'.\n";
+    return;
+  }
+
   VERRS(5) << "Adding mappings from file '" << absolute_path << "'.\n";
 
   SourceMgr source_manager;
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..4a5b76e 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -301,6 +301,9 @@ class IncludePicker {
   // contents of friend_to_headers_map_["@\"foo/bar/.*\""].
   map<string, set<string>> friend_to_headers_map_;
 
+  // The mapping files read so far, without symbolic links.
+  set<string> mapping_files_read_;
+
   // Make sure we don't do any non-const operations after finalizing.
   bool has_called_finalize_added_include_lines_;
 
-- 
2.43.0


From aab83b03f7c524868cc9f76fe714aec2a52179de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 33/67] fix: follow cyclic include mappings to everything they
 reach

---
 iwyu_include_picker.cc | 86 ++++++++++++------------------------------
 1 file changed, 25 insertions(+), 61 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 0e03ebf..67175ea 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1273,71 +1273,35 @@ void ExpandOnce(const IncludePicker::IncludeMap& m,
   nodes->swap(nodes_and_children);  // modify nodes in-place
 }
 
-enum TransitiveStatus { kUnused = 0, kCalculating, kDone };
-
-// If the filename-map maps a.h to b.h, and also b.h to c.h, then
-// there's a transitive mapping of a.h to c.h.  We want to add that
-// into the filepath map as well, to make lookups easier.  We do this
-// by doing a depth-first search for a single mapping, recursing
-// whenever the value is itself a key in the map, and putting the
-// results in a vector of all values seen.
-// NOTE: This function updates values seen in filename_map, but
-// does not invalidate any filename_map iterators.
-void MakeNodeTransitive(IncludePicker::IncludeMap* filename_map,
-                        map<string, TransitiveStatus>* seen_nodes,
-                        vector<string>* node_stack,  // used for debugging
-                        const string& key) {
-  // If we've already calculated this node's transitive closure, we're done.
-  const TransitiveStatus status = (*seen_nodes)[key];
-  if (status == kCalculating) {  // means there's a cycle in the mapping
-    // Note that cycles in mappings are generally benign, the cycle detection
-    // here is only necessary to protect the recursive algorithm from infinite
-    // regress. We will still expand all reachable nodes in the graph to a
-    // plain sequence representing the transitive closure.
-    // The expanded mappings are only used for simple lookup, never followed
-    // recursively (which could have necessitated preserving cycles and handling
-    // them in that traversal too).
-    // Log cycles at a high verbosity level to aid debugging.
-    VERRS(8) << "Ignored cycle in include mappings: ";
-    for (const string& node : *node_stack)
-      VERRS(8) << node << " -> ";
-    VERRS(8) << key << "\n";
-    return;
-  }
-  if (status == kDone)
-    return;
-
-  IncludePicker::IncludeMap::iterator node = filename_map->find(key);
-  if (node == filename_map->end()) {
-    (*seen_nodes)[key] = kDone;
-    return;
-  }
-
-  // Keep track of node->second as we update it, to avoid duplicates.
-  (*seen_nodes)[key] = kCalculating;
-  for (const MappedInclude& child : node->second) {
-    node_stack->push_back(child.quoted_include);
-    MakeNodeTransitive(filename_map, seen_nodes, node_stack,
-                       child.quoted_include);
-    node_stack->pop_back();
+// Adds to closure, in depth-first order and ignoring duplicates, the given
+// nodes and everything that can be reached from them through filename_map.
+// Cycles in mappings are generally benign; every node is only visited once.
+void AddReachableNodes(const IncludePicker::IncludeMap& filename_map,
+                       const vector<MappedInclude>& nodes,
+                       set<string>* seen_nodes,
+                       vector<MappedInclude>* closure) {
+  for (const MappedInclude& node : nodes) {
+    if (!seen_nodes->insert(node.quoted_include).second)
+      continue;
+    closure->push_back(node);
+    if (const vector<MappedInclude>* children =
+            FindInMap(&filename_map, node.quoted_include)) {
+      AddReachableNodes(filename_map, *children, seen_nodes, closure);
+    }
   }
-  (*seen_nodes)[key] = kDone;
-
-  // Our transitive closure is just the union of the closure of our
-  // children.  This routine replaces our value with this closure,
-  // by replacing each of our values with its values.  Since our
-  // values have already been made transitive, that is a closure.
-  ExpandOnce(*filename_map, &node->second);
 }
 
-// Updates the values in filename_map based on its transitive mappings.
+// If the filename-map maps a.h to b.h, and also b.h to c.h, then
+// there's a transitive mapping of a.h to c.h.  We want to add that
+// into the filepath map as well, to make lookups easier.
 void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
-  // Insert keys of filename_map here once we know their value is
-  // the complete transitive closure.
-  map<string, TransitiveStatus> seen_nodes;
-  vector<string> node_stack;
-  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
-    MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+  IncludePicker::IncludeMap transitive_map;
+  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+    set<string> seen_nodes;
+    AddReachableNodes(*filename_map, includes.second, &seen_nodes,
+                      &transitive_map[includes.first]);
+  }
+  filename_map->swap(transitive_map);
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From 765eddd730848a15b01cb579fe40e94f41167934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 34/67] fix: anchor llvm patterns as a whole

---
 iwyu_regex.cc | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 912aa76..046c2f9 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -13,7 +13,6 @@
 #include <regex>
 
 #include "iwyu_port.h"
-#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
@@ -21,12 +20,26 @@ namespace include_what_you_use {
 
 namespace {
 
-// Returns true if regex matches all of str, wherever its alternatives and
-// anchors are.  llvm::Regex has search semantics, and finds the leftmost of the
-// longest matches, so anything shorter than str means that no match spans it.
-bool MatchesWhole(llvm::Regex& regex, const std::string& str) {
-  llvm::SmallVector<llvm::StringRef, 4> matches;
-  return regex.match(str, &matches) && matches[0].size() == str.size();
+// Returns str with the number of every backreference increased by one.
+std::string ShiftBackreferences(const std::string& str) {
+  std::string shifted;
+  for (size_t i = 0; i < str.size(); ++i) {
+    shifted += str[i];
+    if (str[i] != '\\' || i + 1 == str.size())
+      continue;
+    ++i;
+    if (str[i] >= '1' && str[i] <= '8')
+      shifted += static_cast<char>(str[i] + 1);
+    else
+      shifted += str[i];
+  }
+  return shifted;
+}
+
+// Returns a pattern that only matches whole strings, wherever the alternatives
+// and anchors of the given LLVM pattern are.  This adds a group to the pattern.
+std::string Anchored(const std::string& pattern) {
+  return "^(" + ShiftBackreferences(pattern) + ")$";
 }
 
 }  // anonymous namespace
@@ -46,8 +59,9 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      llvm::Regex r(pattern);
-      return MatchesWhole(r, str);
+      // llvm::Regex::match has search semantics; ensure anchored.
+      llvm::Regex r(Anchored(pattern));
+      return r.match(str);
     }
 
     case RegexDialect::ECMAScript: {
@@ -63,8 +77,9 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
                          const std::string& replacement) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      llvm::Regex r(pattern);
-      return MatchesWhole(r, str) ? r.sub(replacement, str) : str;
+      // llvm::Regex::sub has search semantics; ensure anchored.
+      llvm::Regex r(Anchored(pattern));
+      return r.sub(ShiftBackreferences(replacement), str);
     }
 
     case RegexDialect::ECMAScript: {
-- 
2.43.0


From 0ba2368b3f474129d7cd8e295c96ab2cc6aae7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 35/67] fix: warn of a header with both visibilities instead of
 aborting

---
 iwyu_include_picker.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 67175ea..77a9516 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1505,12 +1505,12 @@ void IncludePicker::MarkVisibility(VisibilityMap* map,
   CHECK_(!has_called_finalize_added_include_lines_ && "Can't mutate anymore");
 
   // insert() leaves any old value alone, and only inserts if the key is new.
-  map->insert(make_pair(key, visibility));
-  CHECK_((*map)[key] == visibility)
-      << " Same file seen with two different visibilities: "
-      << key
-      << " Old vis: " << (*map)[key]
-      << " New vis: " << visibility;
+  const auto entry = map->insert(make_pair(key, visibility)).first;
+  if (entry->second != visibility) {
+    VERRS(0) << "Warning: " << key << " cannot be both public and private; "
+             << "treated as "
+             << (entry->second == kPublic ? "public" : "private") << "\n";
+  }
 }
 
 // AddDirectInclude lets us use some hard-coded rules to add filepath
-- 
2.43.0


From 467bfd68e949255a1c38c7e8d098907c1c9ea88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 36/67] fix: report a malformed mapping file instead of
 crashing on it

---
 iwyu_include_picker.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 77a9516..62dfee0 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1307,7 +1307,7 @@ void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
 // Get a scalar value from a YAML node.
 // Returns empty string if it's not of type ScalarNode.
 string GetScalarValue(Node* node) {
-  ScalarNode* scalar = llvm::dyn_cast<ScalarNode>(node);
+  ScalarNode* scalar = llvm::dyn_cast_if_present<ScalarNode>(node);
   if (scalar == nullptr)
     return string();
 
@@ -1320,7 +1320,7 @@ string GetScalarValue(Node* node) {
 vector<string> GetSequenceValue(Node* node) {
   vector<string> result;
 
-  SequenceNode* sequence = llvm::dyn_cast<SequenceNode>(node);
+  SequenceNode* sequence = llvm::dyn_cast_if_present<SequenceNode>(node);
   if (sequence != nullptr) {
     for (Node& node : *sequence) {
       result.push_back(GetScalarValue(&node));
@@ -1948,7 +1948,7 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
 
   // Get root sequence.
   Node* root = stream_begin->getRoot();
-  SequenceNode *array = llvm::dyn_cast<SequenceNode>(root);
+  SequenceNode *array = llvm::dyn_cast_if_present<SequenceNode>(root);
   if (array == nullptr) {
     json_stream.printError(root, "Root element must be an array.");
     return;
-- 
2.43.0


From e88089626b3ae74b13e2708b29bbb4c14a2e771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 37/67] fix: report on files whose names hold glob characters

---
 iwyu_globals.cc      | 8 ++++++++
 iwyu_globals.h       | 3 +++
 iwyu_preprocessor.cc | 6 +++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index d59aa6a..e2f4b73 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -36,6 +36,7 @@
 #include "iwyu_path_util.h"
 #include "iwyu_port.h"  // for CHECK_, etc
 #include "iwyu_regex.h"
+#include "iwyu_stl_util.h"
 #include "iwyu_string_util.h"
 #include "iwyu_verrs.h"
 #include "iwyu_version.h"
@@ -547,8 +548,15 @@ void AddGlobToReportIWYUViolationsFor(const string& glob) {
   commandline_flags->check_also.insert(NormalizeFilePath(glob));
 }
 
+void AddFileToReportIWYUViolationsFor(const string& filepath) {
+  CHECK_(commandline_flags && "Call ParseIwyuCommandlineFlags() before this");
+  commandline_flags->check_also_files.insert(filepath);
+}
+
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
   const string filepath = GetFilePath(file);
+  if (ContainsKey(GlobalFlags().check_also_files, filepath))
+    return true;
   for (const string& glob : GlobalFlags().check_also)
     if (GlobMatchesPath(glob.c_str(), filepath.c_str()))
       return true;
diff --git a/iwyu_globals.h b/iwyu_globals.h
index 3aa9bed..3566658 100644
--- a/iwyu_globals.h
+++ b/iwyu_globals.h
@@ -91,6 +91,7 @@ struct CommandlineFlags {
   bool HasExperimentalFlag(const char* flag) const;
 
   set<string> check_also;  // -c: globs to report iwyu violations for
+  set<string> check_also_files;  // files of the main compilation unit
   set<string> keep;        // -k: globs to force-keep includes for
   bool transitive_includes_only;   // -t: don't add 'new' #includes to files
   int verbose;             // -v: how much information to emit as we parse
@@ -138,6 +139,8 @@ FullUseCache* ClassMembersFullUseCache();
 // They are specified as glob file-patterns (which behave just as they
 // do in the shell).  TODO(csilvers): use a prefix instead? allow '...'?
 void AddGlobToReportIWYUViolationsFor(const string& glob);
+// Like the above for a single file, whose path is not taken as a pattern.
+void AddFileToReportIWYUViolationsFor(const string& filepath);
 bool ShouldReportIWYUViolationsFor(clang::OptionalFileEntryRef file);
 
 // For the commandline option --keep.
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..2d53d13 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -629,7 +629,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
     // TODO: This line cannot be covered with our current test framework;
     // don't forget to add a test case if we build something better in the
     // future.
-    AddGlobToReportIWYUViolationsFor(GetFilePath(includee));
+    AddFileToReportIWYUViolationsFor(GetFilePath(includee));
   }
 
   // Besides marking headers as "associated header" with heuristics, the user
@@ -644,7 +644,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
              << " as associated header of " << GetFilePath(includer)
              << " due to associated pragma.\n";
 
-    AddGlobToReportIWYUViolationsFor(GetFilePath(includee));
+    AddFileToReportIWYUViolationsFor(GetFilePath(includee));
     associated_pragma_location_ = SourceLocation();
   }
 
@@ -861,7 +861,7 @@ void IwyuPreprocessorInfo::FileChanged_EnterFile(
       BelongsToMainCompilationUnit(GetFileEntry(include_loc), new_file)) {
     VERRS(5) << "Added to main compilation unit: "
              << GetFilePath(new_file) << "\n";
-    AddGlobToReportIWYUViolationsFor(GetFilePath(new_file));
+    AddFileToReportIWYUViolationsFor(GetFilePath(new_file));
   }
   if (ShouldReportIWYUViolationsFor(new_file)) {
     files_to_report_iwyu_violations_for_.insert(new_file);
-- 
2.43.0


From a71b15fcb5f362583dad4738cb1e3d3eeb0be029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 38/67] fix: never report on special files

---
 iwyu_globals.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index e2f4b73..8dd7f4c 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -554,6 +554,9 @@ void AddFileToReportIWYUViolationsFor(const string& filepath) {
 }
 
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
+  // Special files are never reported on, whatever the globs.
+  if (IsSpecialFile(file))
+    return false;
   const string filepath = GetFilePath(file);
   if (ContainsKey(GlobalFlags().check_also_files, filepath))
     return true;
-- 
2.43.0


From 73349977c481d16e412479b83ce6fef5c661508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 39/67] fix: expand response files as Clang does

---
 iwyu_driver.cc | 94 +++++++-------------------------------------------
 1 file changed, 13 insertions(+), 81 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 6b52c34..0b9c49b 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -13,7 +13,6 @@
 // Everything below is adapted from clang/examples/clang-interpreter/main.cpp.
 #include "iwyu_driver.h"
 
-#include <cctype>
 #include <cstdint>
 #include <memory>
 #include <set>
@@ -45,9 +44,9 @@
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Option/Option.h"
-#include "llvm/Support/ErrorOr.h"
+#include "llvm/Support/Allocator.h"
+#include "llvm/Support/Error.h"
 #include "llvm/Support/FileSystem.h"
-#include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/Path.h"
 #include "llvm/Support/VirtualFileSystem.h"
 #include "llvm/TargetParser/Host.h"
@@ -70,19 +69,20 @@ using clang::driver::Command;
 using clang::driver::Compilation;
 using clang::driver::Driver;
 using clang::driver::JobList;
+using clang::driver::expandResponseFiles;
 using llvm::ArrayRef;
-using llvm::ErrorOr;
+using llvm::BumpPtrAllocator;
+using llvm::Error;
 using llvm::IntrusiveRefCntPtr;
-using llvm::MemoryBuffer;
 using llvm::SmallString;
 using llvm::SmallVector;
-using llvm::SmallVectorImpl;
 using llvm::StringRef;
 using llvm::errs;
 using llvm::opt::ArgStringList;
 using llvm::raw_ostream;
 using llvm::raw_string_ostream;
 using llvm::sys::getDefaultTargetTriple;
+using llvm::toString;
 using llvm::vfs::FileSystem;
 using std::set;
 using std::unique_ptr;
@@ -100,78 +100,6 @@ const char *SaveStringInSet(std::set<std::string> &SavedStrings, StringRef S) {
   return SavedStrings.insert(S.str()).first->c_str();
 }
 
-void ExpandArgsFromBuf(const char *Arg,
-                       SmallVectorImpl<const char*> &ArgVector,
-                       set<std::string> &SavedStrings) {
-  const char *FName = Arg + 1;
-  ErrorOr<unique_ptr<MemoryBuffer>> MemBufOrErr = MemoryBuffer::getFile(FName);
-  if (!MemBufOrErr) {
-    ArgVector.push_back(SaveStringInSet(SavedStrings, Arg));
-    return;
-  }
-
-  const char *Buf = MemBufOrErr.get()->getBufferStart();
-  char InQuote = ' ';
-  std::string CurArg;
-
-  for (const char *P = Buf; ; ++P) {
-    if (*P == '\0' || (isspace(*P) && InQuote == ' ')) {
-      if (!CurArg.empty()) {
-
-        if (CurArg[0] != '@') {
-          ArgVector.push_back(SaveStringInSet(SavedStrings, CurArg));
-        } else {
-          ExpandArgsFromBuf(CurArg.c_str(), ArgVector, SavedStrings);
-        }
-
-        CurArg = "";
-      }
-      if (*P == '\0')
-        break;
-      else
-        continue;
-    }
-
-    if (isspace(*P)) {
-      if (InQuote != ' ')
-        CurArg.push_back(*P);
-      continue;
-    }
-
-    if (*P == '"' || *P == '\'') {
-      if (InQuote == *P)
-        InQuote = ' ';
-      else if (InQuote == ' ')
-        InQuote = *P;
-      else
-        CurArg.push_back(*P);
-      continue;
-    }
-
-    if (*P == '\\') {
-      ++P;
-      if (*P != '\0')
-        CurArg.push_back(*P);
-      continue;
-    }
-    CurArg.push_back(*P);
-  }
-}
-
-void ExpandArgv(int argc, const char **argv,
-                SmallVectorImpl<const char*> &ArgVector,
-                set<std::string> &SavedStrings) {
-  for (int i = 0; i < argc; ++i) {
-    const char *Arg = argv[i];
-    if (Arg[0] != '@') {
-      ArgVector.push_back(SaveStringInSet(SavedStrings, std::string(Arg)));
-      continue;
-    }
-
-    ExpandArgsFromBuf(Arg, ArgVector, SavedStrings);
-  }
-}
-
 bool HasPreprocessOnlyArgs(ArrayRef<const char*> args) {
   auto is_preprocess_only = [](StringRef arg) {
     // Handle GCC spelling.
@@ -290,11 +218,15 @@ static std::string ComputeCustomResourceDir(StringRef iwyu_executable_path) {
 bool ExecuteAction(int argc,
                    const char** argv,
                    ActionFactory make_iwyu_action) {
-  // Expand out any response files passed on the command line
+  // Expand out any response files passed on the command line, as Clang does.
   set<std::string> SavedStrings;
-  SmallVector<const char*, 256> args;
+  SmallVector<const char*, 256> args(argv, argv + argc);
+  BumpPtrAllocator allocator;
 
-  ExpandArgv(argc, argv, args, SavedStrings);
+  if (Error err = expandResponseFiles(args, /*ClangCLMode=*/false, allocator)) {
+    errs() << "error: " << toString(std::move(err)) << "\n";
+    return false;
+  }
 
   // Drop -save-temps arguments to avoid multiple compilation jobs.
   llvm::erase_if(args, [](StringRef arg) {
-- 
2.43.0


From 804b328c9f0a64f81b0f9d09c24689e442bbbc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 40/67] fix: let the user's resource directory win in any
 spelling

---
 iwyu_driver.cc | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 0b9c49b..8ab1260 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -15,7 +15,6 @@
 
 #include <cstdint>
 #include <memory>
-#include <set>
 #include <string>
 #include <utility>
 #include <vector>
@@ -84,7 +83,6 @@ using llvm::raw_string_ostream;
 using llvm::sys::getDefaultTargetTriple;
 using llvm::toString;
 using llvm::vfs::FileSystem;
-using std::set;
 using std::unique_ptr;
 
 namespace {
@@ -96,10 +94,6 @@ std::string GetExecutablePath(const char *Argv0) {
   return llvm::sys::fs::getMainExecutable(Argv0, main_addr);
 }
 
-const char *SaveStringInSet(std::set<std::string> &SavedStrings, StringRef S) {
-  return SavedStrings.insert(S.str()).first->c_str();
-}
-
 bool HasPreprocessOnlyArgs(ArrayRef<const char*> args) {
   auto is_preprocess_only = [](StringRef arg) {
     // Handle GCC spelling.
@@ -219,7 +213,6 @@ bool ExecuteAction(int argc,
                    const char** argv,
                    ActionFactory make_iwyu_action) {
   // Expand out any response files passed on the command line, as Clang does.
-  set<std::string> SavedStrings;
   SmallVector<const char*, 256> args(argv, argv + argc);
   BumpPtrAllocator allocator;
 
@@ -246,16 +239,6 @@ bool ExecuteAction(int argc,
   }
 
   std::string iwyu_executable_path = GetExecutablePath(argv[0]);
-  if (!HasArg(args, "-resource-dir")) {
-    // If user didn't specify something explicit, compute a resource dir based
-    // on configured CMake variables.
-    std::string resource_dir = ComputeCustomResourceDir(iwyu_executable_path);
-    if (!resource_dir.empty()) {
-      extra_args.push_back("-resource-dir");
-      extra_args.push_back(SaveStringInSet(SavedStrings, resource_dir));
-    }
-  }
-
   // If there is no -- in the args, the extra_pos will be args.end() and insert
   // will append to the back of the args sequence.
   auto extra_pos =
@@ -272,6 +255,13 @@ bool ExecuteAction(int argc,
   Driver driver(iwyu_executable_path, getDefaultTargetTriple(), *diagnostics);
   driver.setTitle("include what you use");
 
+  // Compute a default resource dir based on configured CMake variables, for
+  // when user doesn't specify something explicit.
+  std::string resource_dir = ComputeCustomResourceDir(iwyu_executable_path);
+  if (!resource_dir.empty()) {
+    driver.ResourceDir = resource_dir;
+  }
+
   // Build a compilation, get the job list and filter out irrelevant jobs.
   unique_ptr<Compilation> compilation(driver.BuildCompilation(args));
   if (!compilation)
-- 
2.43.0


From 6455f8e28a146ce4fc24d24a843514807bccc1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 41/67] fix: libstdc++ generator: ignore comments after an
 #include

---
 mapgen/iwyu-mapgen-libstdcxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-libstdcxx.py b/mapgen/iwyu-mapgen-libstdcxx.py
index 7f60632..11a0304 100755
--- a/mapgen/iwyu-mapgen-libstdcxx.py
+++ b/mapgen/iwyu-mapgen-libstdcxx.py
@@ -83,7 +83,7 @@ class Header:
         has_headername = bool(re.search(r".*@headername{.*}", text))
 
         # Parse all #include directives
-        included_names = re.finditer(r'^\s*#\s*include\s*["<](.*)[">]',
+        included_names = re.finditer(r'^\s*#\s*include\s*["<]([^">]*)[">]',
                                      text, re.MULTILINE)
         includes = [m.group(1) for m in included_names]
 
-- 
2.43.0


From 8e41e64b1908238c2ca333cc46c96c7781005a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 42/67] fix: Qt generator: keep class headers ending in 'h'

---
 mapgen/iwyu-mapgen-qt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapgen/iwyu-mapgen-qt.py b/mapgen/iwyu-mapgen-qt.py
index 0a6022b..0dbc7f6 100755
--- a/mapgen/iwyu-mapgen-qt.py
+++ b/mapgen/iwyu-mapgen-qt.py
@@ -133,9 +133,9 @@ def main(qtroot):
     includes_map += [("QtCore", "qnamespace", "Qt")]
 
     # Collect mapping information from Qt directory tree.
-    headers = glob.glob(os.path.join(qtroot, '**/*[!.h]'))
+    headers = glob.glob(os.path.join(glob.escape(qtroot), '**/*'))
     for header in headers:
-        if os.path.isdir(header):
+        if header.endswith('.h') or os.path.isdir(header):
             continue
 
         header = QtHeader(header)
-- 
2.43.0


From 17fe390f5bbff96a6d10af1a6342a6163f231433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 43/67] fix: Qt generator: do not depend on directory order

---
 mapgen/iwyu-mapgen-qt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-qt.py b/mapgen/iwyu-mapgen-qt.py
index 0dbc7f6..e0b05ce 100755
--- a/mapgen/iwyu-mapgen-qt.py
+++ b/mapgen/iwyu-mapgen-qt.py
@@ -133,7 +133,7 @@ def main(qtroot):
     includes_map += [("QtCore", "qnamespace", "Qt")]
 
     # Collect mapping information from Qt directory tree.
-    headers = glob.glob(os.path.join(glob.escape(qtroot), '**/*'))
+    headers = sorted(glob.glob(os.path.join(glob.escape(qtroot), '**/*')))
     for header in headers:
         if header.endswith('.h') or os.path.isdir(header):
             continue
-- 
2.43.0


From b32d1d1763f5807eec3c4c133eacbc0bfcf2d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 44/67] fix: CPython generator: Python.h need not include
 itself

---
 mapgen/iwyu-mapgen-cpython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-cpython.py b/mapgen/iwyu-mapgen-cpython.py
index ef5ad63..e6e8b5d 100755
--- a/mapgen/iwyu-mapgen-cpython.py
+++ b/mapgen/iwyu-mapgen-cpython.py
@@ -74,7 +74,7 @@ def main(pythonroot):
 
     # Discard duplicates and remove Python.h itself.
     included_names = set(included_names)
-    included_names.remove('Python.h')
+    included_names.discard('Python.h')
 
     # Print mappings from name -> Python.h.
     print('[')
-- 
2.43.0


From a061bf032ae1336e3347c77eee77d384377492fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 45/67] fix: keep associated headers under the name they are
 included by

---
 iwyu_output.cc       |  8 ++++++--
 iwyu_output.h        | 12 +++++++++---
 iwyu_preprocessor.cc |  5 +++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 73edf96..d06abd9 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -575,10 +575,13 @@ IwyuFileInfo::IwyuFileInfo(OptionalFileEntryRef this_file,
       desired_includes_have_been_calculated_(false) {
 }
 
-void IwyuFileInfo::AddAssociatedHeader(const IwyuFileInfo* other) {
+void IwyuFileInfo::AddAssociatedHeader(const IwyuFileInfo* other,
+                                       const string& quoted_include) {
   VERRS(6) << "Adding " << GetFilePath(other->file_)
            << " as associated header for " << GetFilePath(file_) << "\n";
   associated_headers_.insert(other);
+  // The first name this file includes it by is the one to keep.
+  associated_quoted_includes_.emplace(other, quoted_include);
 }
 
 void IwyuFileInfo::AddInclude(OptionalFileEntryRef includee,
@@ -1707,7 +1710,8 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   // (C1) Compute the direct includes of 'associated' files.
   set<string> associated_direct_includes;
   for (const IwyuFileInfo* associated : associated_headers_) {
-    ReportIncludeFileUse(associated->file_, associated->quoted_file_);
+    ReportIncludeFileUse(associated->file_,
+                         associated_quoted_includes_.at(associated));
     InsertAllInto(associated->direct_includes(), &associated_direct_includes);
   }
   // The 'effective' direct includes are defined to be the current
diff --git a/iwyu_output.h b/iwyu_output.h
index 6a74359..4e8a76d 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -267,7 +267,9 @@ class IwyuFileInfo {
   // associated headers.  Examples: vector has bits/stl_vector.h as an
   // associated header; foo.cc has foo.h and foo-inl.h as associated
   // headers.
-  void AddAssociatedHeader(const IwyuFileInfo* other);
+  // quoted_include is the name this file #includes it by.
+  void AddAssociatedHeader(const IwyuFileInfo* other,
+                           const string& quoted_include);
 
   // Use these to register an iwyu declaration: either an #include,
   // a forward-declaration or a using-declaration.
@@ -360,8 +362,8 @@ class IwyuFileInfo {
 
   set<string> AssociatedQuotedIncludes() const {
     set<string> associated_quoted_includes;
-    for (const IwyuFileInfo* associated : associated_headers_)
-      associated_quoted_includes.insert(associated->quoted_file_);
+    for (const auto& associated : associated_quoted_includes_)
+      associated_quoted_includes.insert(associated.second);
     return associated_quoted_includes;
   }
 
@@ -414,6 +416,10 @@ class IwyuFileInfo {
   // foo.h and foo-inl.h, if present.
   set<const IwyuFileInfo*> associated_headers_;
 
+  // The names this file #includes its associated headers by, which need not be
+  // the names other files use for them.
+  map<const IwyuFileInfo*, string> associated_quoted_includes_;
+
   // Holds all the uses that are reported.
   vector<OneUse> symbol_uses_;
 
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 2d53d13..6a4b5cd 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -617,7 +617,8 @@ void IwyuPreprocessorInfo::AddDirectInclude(
   if (includer == main_file_ && includee != includer &&
       BelongsToMainCompilationUnit(includer, includee)) {
     GetFromFileInfoMap(includer)
-        ->AddAssociatedHeader(GetFromFileInfoMap(includee));
+        ->AddAssociatedHeader(GetFromFileInfoMap(includee),
+                              include_name_as_written);
     VERRS(4) << "Marked " << GetFilePath(includee)
              << " as associated header of " << GetFilePath(includer) << ".\n";
 
@@ -639,7 +640,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
   if (associated_pragma_location_.isValid() &&
       associated_includer == includer) {
     GetFromFileInfoMap(includer)->AddAssociatedHeader(
-        GetFromFileInfoMap(includee));
+        GetFromFileInfoMap(includee), include_name_as_written);
     VERRS(4) << "Marked " << GetFilePath(includee)
              << " as associated header of " << GetFilePath(includer)
              << " due to associated pragma.\n";
-- 
2.43.0


From e9c05202ae086de908f010ba5bc671479bb8777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 46/67] fix: let no file be suggested to itself under any of
 its names

---
 iwyu_output.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index d06abd9..eb746ca 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -835,7 +835,7 @@ bool DeclIsVisibleToUseInSameFile(const Decl* decl, const OneUse& use) {
 // files.  For everything but foo.cc, this is empty; for foo.cc it's
 // foo.h's includes and foo-inl.h's includes.
 set<string> CalculateMinimalIncludes(
-    const string& use_quoted_include,
+    const set<string>& use_quoted_includes,
     const set<string>& direct_includes,
     const set<string>& associated_desired_includes,
     vector<OneUse>* uses) {
@@ -893,7 +893,7 @@ set<string> CalculateMinimalIncludes(
     for (const string& choice : public_headers) {
       if (use.has_suggested_header())
         break;
-      if (choice == use_quoted_include) {
+      if (ContainsKey(use_quoted_includes, choice)) {
         use.set_suggested_header(choice);
         LogIncludeMapping("in self", use);
       }
@@ -1619,7 +1619,7 @@ void CalculateIwyuForForwardDeclareUse(
 
 void CalculateIwyuForFullUse(OneUse* use,
                              const set<string>& actual_includes,
-                             const string& use_quoted_include) {
+                             const set<string>& use_quoted_includes) {
   CHECK_(!use->ignore_use() && "Trying to calculate on an ignored use");
   CHECK_(use->is_full_use() && "CalculateIwyuForFullUse requires a full use");
   CHECK_(use->has_suggested_header() && "All full uses must have a header");
@@ -1666,7 +1666,7 @@ void CalculateIwyuForFullUse(OneUse* use,
 
   // (E2) Ignore use when the suggested header *is* the current file (this can
   // happen due to mappings).
-  if (use_quoted_include == use->suggested_header()) {
+  if (ContainsKey(use_quoted_includes, use->suggested_header())) {
     VERRS(6) << "Ignoring full use of " << use->symbol_name()
              << " (" << use->PrintableUseLoc()
              << "): use already in suggested header "
@@ -1720,10 +1720,20 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   const set<string> effective_direct_includes =
       Union(associated_direct_includes, direct_includes());
 
+  // The names this file may be suggested by.  The main file is not included by
+  // any name, and others may be mapped to by another than they are included by.
+  set<string> own_quoted_includes;
+  if (!quoted_file_.empty())
+    own_quoted_includes.insert(quoted_file_);
+  const string own_path = GetFilePath(file_);
+  own_quoted_includes.insert(ConvertToQuotedInclude(
+      own_path, MakeAbsolutePath(GetParentPath(own_path))));
+
   // (C2) + (C3) Find the minimal 'set cover' for all symbol uses.
   const set<string>& associated_desired_includes = AssociatedDesiredIncludes();
   const set<string> desired_set_cover = internal::CalculateMinimalIncludes(
-      quoted_file_, direct_includes(), associated_desired_includes, uses);
+      own_quoted_includes, direct_includes(), associated_desired_includes,
+      uses);
 
   // (C4) Remove .cc files from desired-includes unless they're in actual-inc.
   for (const string& header_name : desired_set_cover) {
@@ -1753,7 +1763,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
           AssociatedFileEntries(), associated_removed_fwd_decls);
     } else {
       internal::CalculateIwyuForFullUse(
-          &use, effective_direct_includes, quoted_file_);
+          &use, effective_direct_includes, own_quoted_includes);
     }
   }
 }
-- 
2.43.0


From 2a2881a0f5d7d686e3c6a8f38954de5967c1d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 47/67] fix: take directory names literally in internal/ friend
 patterns

---
 iwyu_include_picker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 62dfee0..0ed3c24 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -38,6 +38,7 @@
 #include "llvm/Support/FileSystem.h"
 #include "llvm/Support/Format.h"
 #include "llvm/Support/MemoryBuffer.h"
+#include "llvm/Support/Regex.h"
 #include "llvm/Support/SourceMgr.h"
 #include "llvm/Support/YAMLParser.h"
 
@@ -1549,8 +1550,9 @@ void IncludePicker::AddDirectInclude(const string& includer_filepath,
     // The second argument here is a regex for matching a quoted
     // filepath.  We get the opening quote from quoted_includee, and
     // the closing quote as part of the .*.
-    AddFriendRegex(includee_filepath,
-                   quoted_includee.substr(0, internal_pos) + ".*");
+    AddFriendRegex(
+        includee_filepath,
+        llvm::Regex::escape(quoted_includee.substr(0, internal_pos)) + ".*");
     VERRS(8) << "Adding dynamic mapping for internal/ header\n";
     AddMapping(quoted_includee, mapped_includer);
   }
-- 
2.43.0


From 6cc3a55f26e2c748e044d65272f550834e6b2cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 48/67] fix: keep pragmas keep only the includes there are

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index eb746ca..c984fa7 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1946,8 +1946,10 @@ void CalculateDesiredIncludesAndForwardDeclares(
   ClearDesiredForSurplusIncludesOrForwardDeclares(fwd_decl_map);
 
   // Now reset all files included with "IWYU pragma: keep" as desired.
+  // Only those the file has: an added line may stand for a kept file, too, if
+  // that is mapped to another.
   for (OneIncludeOrForwardDeclareLine& line : *lines) {
-    if (!line.is_desired() && line.IsIncludeLine() &&
+    if (!line.is_desired() && line.IsIncludeLine() && line.is_present() &&
         ContainsKey(kept_includes, line.included_file())) {
       line.set_desired();
     }
-- 
2.43.0


From 761c0d5d3527795a4c915a2e8f990a7ffe2a614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 49/67] fix: #elifdef and #elifndef use the macros they test

---
 iwyu_preprocessor.cc | 16 ++++++++++++++++
 iwyu_preprocessor.h  |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 6a4b5cd..ceafbca 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -757,6 +757,22 @@ void IwyuPreprocessorInfo::Ifndef(SourceLocation loc, const Token& id,
   ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
 }
 
+void IwyuPreprocessorInfo::Elifdef(SourceLocation loc, const Token& id,
+                                   const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifdef    ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
+void IwyuPreprocessorInfo::Elifndef(SourceLocation loc, const Token& id,
+                                    const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifndef   ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
 // Clang will give a MacroExpands() callback for all macro-tokens
 // used inside an #if or #elif, *except* macro-tokens used within a
 // 'defined' operator. They produce a Defined() callback.
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 9be44b4..2b7fc0a 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -184,6 +184,12 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
              const clang::MacroDefinition& definition) override;
   void Ifndef(clang::SourceLocation loc, const clang::Token& id,
               const clang::MacroDefinition& definition) override;
+  using clang::PPCallbacks::Elifdef;
+  void Elifdef(clang::SourceLocation loc, const clang::Token& id,
+               const clang::MacroDefinition& definition) override;
+  using clang::PPCallbacks::Elifndef;
+  void Elifndef(clang::SourceLocation loc, const clang::Token& id,
+                const clang::MacroDefinition& definition) override;
   void Defined(const clang::Token& id,
                const clang::MacroDefinition& definition,
                clang::SourceRange range) override;
-- 
2.43.0


From 51f7995ff15e2530924efb2fd2c8d257a5cb242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 50/67] fix: copying or passing a whole struct in C needs its
 definition

---
 iwyu.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index 6912843..ae60504 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1867,8 +1867,14 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       case clang::CK_Dependent:
         break;
 
-      // These casts don't require any iwyu action.
+      // Reading a whole struct, to copy it or to pass it on, takes its full
+      // type.  (In C++, copying is a constructor call or an operator call.)
       case clang::CK_LValueToRValue:
+        if (to_type->isRecordType())
+          required_full_types.push_back(to_type);
+        break;
+
+      // These casts don't require any iwyu action.
       case clang::CK_AtomicToNonAtomic:
       case clang::CK_NonAtomicToAtomic:
       case clang::CK_ReinterpretMemberPointer:
-- 
2.43.0


From bbc1d4ec128b989ae668e4002c459da5a4e09817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 51/67] fix: a header keeps the declaration of a function its
 .cc file defines

---
 iwyu_output.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index c984fa7..ce18e1e 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -43,6 +43,7 @@
 namespace include_what_you_use {
 
 using clang::BuiltinTemplateDecl;
+using clang::CXXMethodDecl;
 using clang::CXXRecordDecl;
 using clang::ClassTemplateDecl;
 using clang::ClassTemplateSpecializationDecl;
@@ -1407,7 +1408,25 @@ void ProcessFullUse(OneUse* use, const IwyuPreprocessorInfo* preprocessor_info,
   // by incorrectly saying it was a use (this can happen with typedefs
   // -- we say the underlying type is 'used' in a different way than
   // the language requires).
+  // A function is different: its definition may well be in a file that
+  // #includes the one with the use, as in a .cc file that defines a function
+  // which an inline function in its associated header calls.  What is used
+  // then is the latest declaration before the use.
   // TODO(csilvers): remove this when we resolve the bugs with macros/typedefs.
+  if (isa<FunctionDecl>(use->decl()) && !isa<CXXMethodDecl>(use->decl()) &&
+      !(use->flags() & UF_DefinitionUse) &&
+      preprocessor_info->FileTransitivelyIncludes(
+          GetFileEntry(use->decl()), GetFileEntry(use->use_loc()))) {
+    const NamedDecl* latest = nullptr;
+    for (const NamedDecl* redecl : GetNonTagRedecls(use->decl())) {
+      if (IsBeforeInTranslationUnit(redecl, use->use_loc()) &&
+          (!latest ||
+           IsBeforeInTranslationUnit(latest, redecl)))
+        latest = redecl;
+    }
+    if (latest)
+      use->reset_decl(latest);
+  }
   if (preprocessor_info->FileTransitivelyIncludes(
           GetFileEntry(use->decl()), GetFileEntry(use->use_loc())) &&
       !is_builtin_function_with_mappings) {
-- 
2.43.0


From 8afdb08bce53a177fad6f0d2e0dccc678b633aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 52/67] fix: map files with @headername by their path when they
 have no include name

A file that was found beside its includer has no name in the search path, so
its @headername directives were dropped with a warning (with recent libstdc++,
one for each use of <functional>).
---
 iwyu_preprocessor.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index ceafbca..faf4341 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -398,14 +398,11 @@ void IwyuPreprocessorInfo::ProcessHeadernameDirectivesInFile(
     string include_name = preprocessor_.getHeaderSearchInfo()
                               .getIncludeNameForHeader(*file)
                               .str();
-    if (include_name.empty()) {
-      // Sometimes the preprocessor state can't resolve the include name; don't
-      // map empty names in that case.
-      // TODO: figure out a bullet-proof way to get include name from file.
-      Warn(file_beginning, "no private include name for @headername mapping");
-      return;
-    }
-    string quoted_private_include = AddQuotes(include_name, is_angled);
+    // The preprocessor state can't resolve the include name of a file found
+    // beside its includer; use the name it has in the search path then.
+    string quoted_private_include =
+        include_name.empty() ? ConvertToQuotedInclude(GetFilePath(file))
+                             : AddQuotes(include_name, is_angled);
 
     // Generate mappings from the private to all public names.
     for (string& public_include : public_includes) {
-- 
2.43.0


From 827aff813392d173e1921569b7f86af66e31c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 53/67] fix: do not suggest <cmath> for ::isnan and other using
 declarations of <math.h>

<cmath> provides only the std:: names, so a program which uses the global
name does not compile with it.
---
 iwyu_output.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index ce18e1e..d56d361 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -342,8 +342,21 @@ void OneUse::SetPublicHeaders() {
   CHECK_(suggested_header_.empty() && "Should not need a public header here");
   public_headers_ = GlobalIncludePicker().GetMappedPublicHeaders(
       symbol_name_, GetFilePath(use_loc_), decl_filepath());
+  const string own_header = ConvertToQuotedInclude(decl_filepath());
   if (public_headers_.empty())
-    public_headers_.push_back(ConvertToQuotedInclude(decl_filepath()));
+    public_headers_.push_back(own_header);
+  // <cmath> does not do for <math.h> when what is used is a using declaration
+  // in the latter, which makes std::isnan available as ::isnan.
+  if (isa_and_nonnull<UsingDecl>(decl_) &&
+      decl_->getDeclContext()->isTranslationUnit() &&
+      EndsWith(own_header, ".h>") &&
+      ContainsValue(public_headers_, own_header)) {
+    const string cxx_header =
+        "<c" + own_header.substr(1, own_header.size() - 4) + ">";
+    public_headers_.erase(std::remove(public_headers_.begin(),
+                                      public_headers_.end(), cxx_header),
+                          public_headers_.end());
+  }
 }
 
 const vector<string>& OneUse::public_headers() {
-- 
2.43.0


From ebaace098d5e9878ff9de0f13221abc02b4ba356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 54/67] fix: report the using declaration for 'struct ns::Foo'

Clang has no UsingType for a name with an elaborated keyword, so 'struct
std::tm' was said to need <time.h> rather than <ctime>, which is the header
with the using declaration.
---
 iwyu.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index ae60504..8cbb1d6 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -225,6 +225,7 @@ using clang::MemberExpr;
 using clang::MemberPointerType;
 using clang::NamedDecl;
 using clang::NamespaceAliasDecl;
+using clang::NamespaceDecl;
 using clang::NestedNameSpecifier;
 using clang::NestedNameSpecifierLoc;
 using clang::OptionalFileEntryRef;
@@ -4578,10 +4579,38 @@ class IwyuAstConsumer
       preprocessor_info()
           .FileInfoFor(CurrentFileEntry())
           ->AddElaboratedType(type_loc);
+      if (!CanIgnoreCurrentASTNode())
+        ReportUsingDeclOfElaboratedType(type_loc.getTypePtr());
     }
     return Base::VisitElaboratedTypeLoc(type_loc);
   }
 
+  // Clang keeps no UsingType for 'struct ns::Foo': look up whether Foo is in ns
+  // by way of a using declaration.
+  void ReportUsingDeclOfElaboratedType(const ElaboratedType* type) {
+    const NestedNameSpecifier* nns = type->getQualifier();
+    const TagDecl* tag = type->getAsTagDecl();
+    if (!nns || !tag || isa<UsingType>(type->getNamedType()))
+      return;
+    const NamespaceDecl* ns = nns->getAsNamespace();
+    if (const NamespaceAliasDecl* alias = nns->getAsNamespaceAlias())
+      ns = alias->getNamespace();
+    if (!ns)
+      return;
+    for (const NamedDecl* found : ns->lookup(tag->getDeclName())) {
+      const auto* shadow = dyn_cast<UsingShadowDecl>(found);
+      if (!shadow || shadow->getTargetDecl()->getCanonicalDecl() !=
+                         tag->getCanonicalDecl())
+        continue;
+      if (const auto* using_decl = dyn_cast<UsingDecl>(shadow->getIntroducer()))
+        preprocessor_info()
+            .FileInfoFor(CurrentFileEntry())
+            ->ReportUsingDeclUse(CurrentLoc(), using_decl,
+                                 ComputeUseFlags(current_ast_node()),
+                                 "(for using decl)");
+    }
+  }
+
   // --- Visitors defined by BaseASTVisitor (not RecursiveASTVisitor).
 
   bool VisitTemplateName(TemplateName template_name) {
-- 
2.43.0


From 1fe9e2fa735404a73894334a6b3f26168b2e764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 55/67] fix: <sys/time.h> does not provide <bits/time.h>

It lost it with glibc 2.25, so a program said to need only <sys/time.h> for
CLOCKS_PER_SEC or CLOCK_REALTIME does not compile. struct timeval, which used
to be in there, has a symbol mapping.
---
 gcc.libc.imp           | 1 -
 iwyu_include_picker.cc | 1 -
 2 files changed, 2 deletions(-)

diff --git a/gcc.libc.imp b/gcc.libc.imp
index 9fd4f04..bae63b0 100644
--- a/gcc.libc.imp
+++ b/gcc.libc.imp
@@ -105,7 +105,6 @@
   { "include": [ "<bits/termios-struct.h>", "private", "<termios.h>", "public"] },
   { "include": [ "<bits/termios-tcflow.h>", "private", "<termios.h>", "public"] },
   { "include": [ "<bits/time.h>", "private", "<time.h>", "public"] },
-  { "include": [ "<bits/time.h>", "private", "<sys/time.h>", "public"] },
   { "include": [ "<bits/timerfd.h>", "private", "<sys/timerfd.h>", "public"] },
   { "include": [ "<bits/timex.h>", "private", "<sys/timex.h>", "public"] },
   { "include": [ "<bits/types.h>", "private", "<sys/types.h>", "public"] },
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 0ed3c24..1eb9b1a 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -451,7 +451,6 @@ const IncludeMapEntry libc_include_map[] = {
   { "<bits/termios-tcflow.h>", kPrivate, "<termios.h>", kPublic },
   { "<bits/termios.h>", kPrivate, "<termios.h>", kPublic },
   { "<bits/time.h>", kPrivate, "<time.h>", kPublic },
-  { "<bits/time.h>", kPrivate, "<sys/time.h>", kPublic },
   { "<bits/timerfd.h>", kPrivate, "<sys/timerfd.h>", kPublic },
   { "<bits/timex.h>", kPrivate, "<sys/timex.h>", kPublic },
   { "<bits/types.h>", kPrivate, "<sys/types.h>", kPublic },
-- 
2.43.0


From e5c331614610d30a21440a4ff172c6f3ab2646b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 56/67] fix: find conversion constructors of a template behind
 a forward declaration

When a template was forward-declared before its definition, its constructors
were looked for in the forward declaration, so that the author of a function
with a parameter of such a type was told to remove the header for autocasts.
---
 iwyu_ast_util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 7ee6f94..e6187ef 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -761,9 +761,10 @@ bool HasImplicitConversionCtor(const CXXRecordDecl* cxx_class) {
   if (const auto* tpl_spec =
           dyn_cast<ClassTemplateSpecializationDecl>(cxx_class)) {
     if (!tpl_spec->isExplicitSpecialization()) {
-      cxx_class = tpl_spec->getSpecializedTemplate()
-                      ->getCanonicalDecl()
-                      ->getTemplatedDecl();
+      cxx_class = tpl_spec->getSpecializedTemplate()->getTemplatedDecl();
+      // The first declaration found may be just a forward declaration.
+      if (const CXXRecordDecl* definition = cxx_class->getDefinition())
+        cxx_class = definition;
     }
     // TODO(bolshakov): handle partial specializations.
   }
-- 
2.43.0


From c5591dd4bd2a17fae0b79fdac25f7049f2dc7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 57/67] fix: look at the base types of an instantiated template
 from its definition

The types which a class template gets as a base were looked for in the
intent of the files around the template-id only, so a defaulted argument
used as a base was demanded from the user of the template, though the
author of the template provides it.
---
 iwyu.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 8cbb1d6..28e0bff 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -3795,10 +3795,21 @@ class InstantiatedTemplateVisitor
         return false;
     }
 
+    // The base types are written in the template, so look at them from there,
+    // as TraverseDecl does with the members.
+    ASTNode node(class_decl);
+    node.SetParent(current_ast_node());
+    set_current_ast_node(&node);
+    bool bases_traversed = true;
     for (const CXXBaseSpecifier& base : class_decl->bases()) {
-      if (!TraverseType(base.getType()))
-        return false;
+      if (!TraverseType(base.getType())) {
+        bases_traversed = false;
+        break;
+      }
     }
+    set_current_ast_node(const_cast<ASTNode*>(node.parent()));
+    if (!bases_traversed)
+      return false;
 
     // Most methods on template classes are instantiated when they're
     // called, and we don't need to deal with them here.  But virtual
-- 
2.43.0


From acd9afb9e85d8ae202d60a56ae5029a0e1e2800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 58/67] fix: name the namespaces around an extern "C" block in
 forward declarations

---
 iwyu_output.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index d56d361..a33a9b5 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -425,8 +425,9 @@ string PrintForwardDeclare(const NamedDecl* decl,
   bool seen_namespace = false;
   // Anonymous namespaces are not using the more concise syntax.
   bool concat_namespaces = cxx17ns && !decl->isInAnonymousNamespace();
-  for (const DeclContext* ctx = decl->getDeclContext();
-       ctx && isa<NamedDecl>(ctx); ctx = ctx->getParent()) {
+  // Look through contexts such as 'extern "C"', which may be in namespaces.
+  for (const DeclContext* ctx = decl->getDeclContext()->getRedeclContext();
+       isa<NamedDecl>(ctx); ctx = ctx->getParent()->getRedeclContext()) {
     if (const RecordDecl* rec = DynCastFrom(ctx)) {
       fwd_decl = std::string(rec->getName()) + "::" + fwd_decl;
     } else if (const NamespaceDecl* ns = DynCastFrom(ctx)) {
@@ -444,7 +445,7 @@ string PrintForwardDeclare(const NamedDecl* decl,
           first = false;
           prefix = prefix + " { ";
         }
-        if (ctx->getParent() && isa<NamedDecl>(ctx->getParent())) {
+        if (isa<NamedDecl>(ctx->getParent()->getRedeclContext())) {
           prefix = "::" + prefix;
         } else {
           prefix = "namespace " + prefix;
-- 
2.43.0


From 529676f56a45ee1e5863abeb1936da643d7fd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 59/67] fix: print forward declarations of templates whose
 heads have colons or braces

---
 iwyu_output.cc | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index a33a9b5..55faf89 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -482,37 +482,18 @@ string MungedForwardDeclareLineForNontemplates(const TagDecl* decl) {
 // forward-declare the template, e.g.
 //     "namespace ns { template <typename T> class Foo; }".
 string MungedForwardDeclareLineForTemplates(const TemplateDecl* decl) {
-  // DeclPrinter prints the class name just as we like it (with default args and
-  // everything) -- with logic that doesn't exist elsewhere in clang that I can
-  // see. Unfortunately, it also prints the full class body. So, as a hack, we
-  // postprocess the printed decl and then cut off everything after the template
-  // name. We also have to replace the name with the fully qualified name.
-  // TODO(csilvers): prepend namespaces instead.
   std::string line;
   raw_string_ostream ostream(line);
 
-  // Print the decl using PolishForDeclaration, which strips some semantic
-  // attributes.
-  PrintingPolicy policy = decl->getASTContext().getPrintingPolicy();
+  // Print the parameters using PolishForDeclaration, which strips some semantic
+  // attributes.  This includes the requires-clause, and ends with a space.
+  const clang::ASTContext& context = decl->getASTContext();
+  PrintingPolicy policy = context.getPrintingPolicy();
   policy.PolishForDeclaration = true;
-  decl->print(ostream, policy);
+  decl->getTemplateParameters()->print(ostream, context, policy);
+  ostream << GetKindName(cast<TagDecl>(decl->getTemplatedDecl()));
   ostream.flush();
 
-  // Remove "final" specifier, it isn't allowed for forward declarations.
-  ReplaceAll(&line, " final ", " ");
-
-  // Get rid of the superclasses, if any (this will nix the body too).
-  DropFrom(&line, " :");
-  // Get rid of the template body, if any (true if no superclasses).
-  DropFrom(&line, " {");
-
-  // The template name is now the last word on the line. Replace it by its
-  // fully-qualified form.
-  const string::size_type name = line.rfind(' ');
-  CHECK_(name != string::npos && "Unexpected printable template-type");
-
-  line = line.substr(0, name);
-
   return PrintForwardDeclare(decl, line, GlobalFlags().cxx17ns);
 }
 
-- 
2.43.0


From 612878ab20eee60cb54a21e69b7f62e293196a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 60/67] fix: keep the braces of a requires-clause in a forward
 declaration inside a namespace

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index dd4562d..8f11696 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2037,7 +2037,9 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
   """
   # iwyu input is very regular, which is nice.
   iwyu_namespace_re = re.compile(r'namespace ([^{]*) { ')
-  iwyu_classname_re = re.compile(r'{ ([^{}]*) }')
+  # The class may have braces of its own, in a requires-clause.
+  braces = r'{(?:[^{}]|{(?:[^{}]|{[^{}]*})*})*}'
+  iwyu_classname_re = re.compile(r'{ ((?!namespace )(?:[^{}]|%s)*) }' % braces)
   # The line may come from the file, and have a comment (a pragma, say).
   trailing_comment_re = re.compile(r'}\s*(//.*|/\*.*\*/)\s*$')
 
-- 
2.43.0


From 4d00db5f6869f8e27a7a2f49a6722557f6419e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 61/67] fix: print local classes of functions whose names are
 not identifiers

---
 iwyu_output.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 55faf89..94c342d 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -459,7 +459,7 @@ string PrintForwardDeclare(const NamedDecl* decl,
       }
     } else if (const FunctionDecl* fn = DynCastFrom(ctx)) {
       // A local class (class defined inside a function).
-      fwd_decl = std::string(fn->getName()) + "::" + fwd_decl;
+      fwd_decl = fn->getNameAsString() + "::" + fwd_decl;
     } else {
       CHECK_UNREACHABLE_("Unexpected decoration for type");
     }
-- 
2.43.0


From d82945618c8808c2a9a491a7eb589ef7a6003045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 62/67] fix: keep forward declarations of local classes that
 are used

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 94c342d..9468d8d 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1163,7 +1163,9 @@ void ProcessForwardDeclare(OneUse* use,
       use->set_ignore_use();
       return;
     }
-  } else if (IsDeclaredInsideFunction(tag_decl)) {
+  } else if (IsDeclaredInsideFunction(tag_decl) &&
+             llvm::none_of(GetTagRedecls(tag_decl), IsForwardDecl)) {
+    // (A forward declaration inside the function may be there for this use.)
     VERRS(6) << "Ignoring fwd-decl use of " << use->symbol_name() << " ("
              << use->PrintableUseLoc() << "): declared inside a "
              << "function\n";
-- 
2.43.0


From feb9e7b34c35f14e7905ae92be856c6d5a4f2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 63/67] fix: look into explicit-specifiers

---
 iwyu.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 28e0bff..b150de1 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -212,6 +212,7 @@ using clang::ElaboratedTypeLoc;
 using clang::EnumConstantDecl;
 using clang::EnumDecl;
 using clang::EnumType;
+using clang::ExplicitSpecifier;
 using clang::Expr;
 using clang::FriendDecl;
 using clang::FriendTemplateDecl;
@@ -1710,6 +1711,12 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (CanIgnoreCurrentASTNode())
       return true;
 
+    // The AST visitor does not look into 'explicit(...)'.
+    if (Expr* expr = ExplicitSpecifier::getFromDecl(decl).getExpr()) {
+      if (!this->getDerived().TraverseStmt(expr))
+        return false;
+    }
+
     if (decl->isThisDeclarationADefinition()) {
       // For non-member function definitions, report use of all previously seen
       // decls.
-- 
2.43.0


From d5789bf3e6bcb3b246ea88a6537772808a6ba850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 64/67] fix: look at template arguments in packs

---
 iwyu_ast_util.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index e6187ef..9ec1a6a 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -557,6 +557,20 @@ static const Type* GetTemplateArgAsType(const TemplateArgument& tpl_arg) {
   return nullptr;
 }
 
+// Returns the given arguments with packs replaced by what they contain.
+static vector<TemplateArgument> FlattenPacks(ArrayRef<TemplateArgument> args) {
+  vector<TemplateArgument> flat;
+  for (const TemplateArgument& arg : args) {
+    if (arg.getKind() == TemplateArgument::Pack) {
+      for (const TemplateArgument& element : FlattenPacks(arg.pack_elements()))
+        flat.push_back(element);
+    } else {
+      flat.push_back(arg);
+    }
+  }
+  return flat;
+}
+
 static bool IsSubstTemplateTypeParmType(const Type* type) {
   const Type* prev_type = type;
   do {
@@ -906,8 +920,9 @@ static map<const Type*, const Type*> GetTplTypeResugarMapForFunctionNoCallExpr(
     return retval;
   if (const TemplateArgumentList* tpl_list =
           decl->getTemplateSpecializationArgs()) {
-    for (unsigned i = start_arg; i < tpl_list->size(); ++i) {
-      if (const Type* arg_type = GetTemplateArgAsType(tpl_list->get(i))) {
+    const vector<TemplateArgument> args = FlattenPacks(tpl_list->asArray());
+    for (unsigned i = start_arg; i < args.size(); ++i) {
+      if (const Type* arg_type = GetTemplateArgAsType(args[i])) {
         retval[GetCanonicalType(arg_type)] = arg_type;
         VERRS(6) << "Adding an implicit tpl-function type of interest: "
                  << PrintableType(arg_type) << "\n";
@@ -1587,15 +1602,12 @@ static TemplateInstantiationData GetTplInstDataForClassNoComponentTypes(
   // Pull the template arguments out of the specialization type. If this is
   // a ClassTemplateSpecializationDecl specifically, we want to
   // get the arguments therefrom to correctly handle default arguments.
-  llvm::ArrayRef<TemplateArgument> tpl_args = written_tpl_args;
-  unsigned num_args = tpl_args.size();
-
+  vector<TemplateArgument> tpl_args = FlattenPacks(written_tpl_args);
   if (cls_tpl_decl) {
-    const TemplateArgumentList& tpl_arg_list =
-        cls_tpl_decl->getTemplateInstantiationArgs();
-    tpl_args = tpl_arg_list.asArray();
-    num_args = tpl_arg_list.size();
+    tpl_args = FlattenPacks(
+        cls_tpl_decl->getTemplateInstantiationArgs().asArray());
   }
+  const unsigned num_args = tpl_args.size();
 
   // TemplateSpecializationType only includes explicitly specified
   // types in its args list, so we start with that.  Note that an
-- 
2.43.0


From 2ccb63fbf37c87e013098ff81c00d4178eaeb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 65/67] fix: require the definitions of aggregates initialized
 from braced lists

---
 iwyu.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index b150de1..38238d7 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -214,12 +214,14 @@ using clang::EnumDecl;
 using clang::EnumType;
 using clang::ExplicitSpecifier;
 using clang::Expr;
+using clang::FieldDecl;
 using clang::FriendDecl;
 using clang::FriendTemplateDecl;
 using clang::FunctionDecl;
 using clang::FunctionProtoType;
 using clang::FunctionTemplateDecl;
 using clang::FunctionType;
+using clang::InitListExpr;
 using clang::LateParsedTemplate;
 using clang::LinkageSpecDecl;
 using clang::MemberExpr;
@@ -1475,12 +1477,17 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (const auto* method = dyn_cast<CXXMethodDecl>(fn_decl))
       fn_decl = GetFromLeastDerived(method);
 
-    // Collect the non-explicit, one-arg constructor ('autocast') types.
+    // Collect the non-explicit, one-arg constructor ('autocast') types, and
+    // those that may be initialized from a braced list without a constructor.
     set<const Type*> autocast_types;
     for (FunctionDecl::param_const_iterator param = fn_decl->param_begin();
          param != fn_decl->param_end(); ++param) {
       const Type* param_type = GetTypeOf(*param);
-      if (HasImplicitConversionConstructor(param_type)) {
+      const CXXRecordDecl* cxx_class =
+          DynCastFrom(TypeToDeclAsWritten(RemoveReferenceAsWritten(param_type)));
+      if (HasImplicitConversionConstructor(param_type) ||
+          (cxx_class && cxx_class->hasDefinition() &&
+           cxx_class->isAggregate())) {
         const Type* deref_param_type =
             RemovePointersAndReferencesAsWritten(param_type);
         autocast_types.insert(Desugar(deref_param_type));
@@ -2332,6 +2339,27 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     return true;
   }
 
+  // Initializing an aggregate from a braced list takes its definition, just as
+  // calling a constructor does.
+  bool VisitInitListExpr(InitListExpr* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+    const Type* type = GetTypeOf(expr);
+    if (!type->isRecordType())
+      return true;
+    // A class provides the definitions of its members.
+    const ASTNode* node = current_ast_node();
+    if (node->ParentIsA<InitListExpr>() || node->ParentIsA<FieldDecl>() ||
+        node->ParentIsA<CXXConstructorDecl>()) {
+      return true;
+    }
+    if (node->HasAncestorOfType<CallExpr>())
+      ReportWithAdditionalBlockedTypes(type, GetProvidedTypesForAutocast(node));
+    else
+      ReportTypeUse(CurrentLoc(), type, DerefKind::None);
+    return true;
+  }
+
   // An UnresolvedLookupExpr is an overloaded function or variable template
   // reference in an uninstantiated template, that can't be resolved until
   // the template is instantiated.  The simplest case is something like:
-- 
2.43.0


From 8639237e2a587ae2629db42b6be6e9eca61e7752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 66/67] fix: require what instantiated variable templates need
 of their arguments

Types that are only compared (__is_same, as in std::is_same_v) need not be
complete.
---
 iwyu.cc          | 64 ++++++++++++++++++++++++++++++++++++++++++++++++
 iwyu_ast_util.cc | 12 +++++++++
 iwyu_ast_util.h  |  7 ++++++
 3 files changed, 83 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 38238d7..ee68b3c 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -278,6 +278,7 @@ using clang::UsingShadowDecl;
 using clang::UsingType;
 using clang::ValueDecl;
 using clang::VarDecl;
+using clang::VarTemplateSpecializationDecl;
 using clang::driver::ToolChain;
 using llvm::cast;
 using llvm::dyn_cast;
@@ -2780,6 +2781,10 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
         // AST node) -- then we're forward-declarable by definition.
         if (IsForwardDecl(parent_decl))
           return true;
+      } else if (const auto* trait = ast_node->GetParentAs<TypeTraitExpr>()) {
+        // Types can be compared without being complete.
+        if (trait->getTrait() == TypeTrait::BTT_IsSame)
+          return true;
       }
     }
 
@@ -3134,6 +3139,20 @@ class InstantiatedTemplateVisitor
     TraverseExpandedTemplateFunctionHelper(fn_decl);
   }
 
+  // The same for a specialization of a variable template.
+  void ScanInstantiatedVariable(
+      const VarTemplateSpecializationDecl* var_decl,
+      const ASTNode* caller_ast_node,
+      const map<const Type*, const Type*>& resugar_map,
+      const set<const Type*>& blocked_types) {
+    Clear();
+    caller_ast_node_ = caller_ast_node;
+    resugar_map_ = resugar_map;
+    blocked_types_ = blocked_types;
+    set_current_ast_node(const_cast<ASTNode*>(caller_ast_node));
+    TraverseExpandedTemplateVariableHelper(var_decl);
+  }
+
   // This isn't a Stmt, but sometimes we need to fully instantiate
   // a template class to get at a field of it, for instance:
   // MyClass<T>::size_type s;
@@ -3611,6 +3630,17 @@ class InstantiatedTemplateVisitor
     return Base::VisitCXXConstructExpr(expr);
   }
 
+  bool VisitDeclRefExpr(DeclRefExpr* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+    if (const auto* var_decl =
+            dyn_cast<VarTemplateSpecializationDecl>(expr->getDecl())) {
+      if (!TraverseExpandedTemplateVariableHelper(var_decl))
+        return false;
+    }
+    return Base::VisitDeclRefExpr(expr);
+  }
+
   // --- Handler declared in IwyuBaseASTVisitor.
 
   void ReportTplSpecComponentTypes(const TemplateSpecializationType* type,
@@ -3747,6 +3777,32 @@ class InstantiatedTemplateVisitor
     return TraverseDecl(const_cast<FunctionDecl*>(fn_decl));
   }
 
+  bool TraverseExpandedTemplateVariableHelper(
+      const VarTemplateSpecializationDecl* var_decl) {
+    if (var_decl->isExplicitInstantiationOrSpecialization())
+      return true;
+    const VarDecl* definition = var_decl->getDefinition();
+    if (!definition || ContainsKey(traversed_decls_, definition))
+      return true;   // avoid recursion and repetition
+    traversed_decls_.insert(definition);
+
+    // As in TraverseExpandedTemplateFunctionHelper, we ignore all AST nodes
+    // that will be reported when we traverse the uninstantiated variable.
+    AstFlattenerVisitor nodeset_getter(compiler());
+    ValueSaver<AstFlattenerVisitor::NodeSet> s(&nodes_to_ignore_);
+    if (VarDecl* decl_as_written = definition->getTemplateInstantiationPattern())
+      nodes_to_ignore_.AddAll(nodeset_getter.GetNodesBelow(decl_as_written));
+
+    VarDecl* const decl = const_cast<VarDecl*>(definition);
+    ASTNode node(decl);
+    node.SetParent(current_ast_node());
+    ASTNode* const saved_node = current_ast_node();
+    set_current_ast_node(&node);
+    const bool result = TraverseVarDecl(decl);
+    set_current_ast_node(saved_node);
+    return result;
+  }
+
   // Does the actual recursing over data members and type members of
   // the instantiated class.  Unlike
   // TraverseClassTemplateSpecializationDecl() in the base class, it
@@ -4485,6 +4541,14 @@ class IwyuAstConsumer
     } else if (!isa<EnumConstantDecl>(expr->getDecl())) {
       ReportDeclUse(CurrentLoc(), expr->getDecl());
     }
+    if (const auto* var_decl =
+            dyn_cast<VarTemplateSpecializationDecl>(expr->getDecl())) {
+      TemplateInstantiationData data = GetTplInstDataForVariable(
+          expr,
+          [this](const Type* type) { return GetProvidedTypeComponents(type); });
+      instantiated_template_visitor_.ScanInstantiatedVariable(
+          var_decl, current_ast_node(), data.resugar_map, data.provided_types);
+    }
     return Base::VisitDeclRefExpr(expr);
   }
 
diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 9ec1a6a..65fc5e8 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -1014,6 +1014,18 @@ static map<const Type*, const Type*> GetDefaultedArgResugarMap(
   return res;
 }
 
+TemplateInstantiationData GetTplInstDataForVariable(
+    const DeclRefExpr* expr,
+    function<set<const Type*>(const Type*)> provided_getter) {
+  const map<const Type*, const Type*> resugar_map =
+      ResugarTypeComponents(GetTplTypeResugarMapForFunctionExplicitTplArgs(
+          GetExplicitTplArgs(expr)));
+  set<const Type*> provided_types;
+  for (const auto [_, sugared_type] : resugar_map)
+    InsertAllInto(provided_getter(sugared_type), &provided_types);
+  return TemplateInstantiationData{resugar_map, provided_types};
+}
+
 TemplateInstantiationData GetTplInstDataForFunction(
     const FunctionDecl* decl, const Expr* calling_expr,
     function<set<const Type*>(const Type*)> provided_getter) {
diff --git a/iwyu_ast_util.h b/iwyu_ast_util.h
index 7ce346c..8580d25 100644
--- a/iwyu_ast_util.h
+++ b/iwyu_ast_util.h
@@ -39,6 +39,7 @@ class ClassTemplateDecl;
 class ClassTemplateSpecializationDecl;
 class Decl;
 class DeclContext;
+class DeclRefExpr;
 class Expr;
 class FunctionDecl;
 class NamedDecl;
@@ -599,6 +600,12 @@ TemplateInstantiationData GetTplInstDataForFunction(
     const clang::FunctionDecl* decl, const clang::Expr* calling_expr,
     std::function<set<const clang::Type*>(const clang::Type*)> provided_getter);
 
+// The same for a reference to a specialization of a variable template, whose
+// arguments can only be given explicitly or by default.
+TemplateInstantiationData GetTplInstDataForVariable(
+    const clang::DeclRefExpr* expr,
+    std::function<set<const clang::Type*>(const clang::Type*)> provided_getter);
+
 // If class_decl is instantiated from a class template,
 // returns the decl for that template; otherwise returns class_decl.
 // As an example, consider this code:
-- 
2.43.0


From 1aefcbb25b9e4b9925ce625f8485616d776f8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 67/67] fix: require the class offsetof is asked for

---
 iwyu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index ee68b3c..f55a6d2 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -231,6 +231,7 @@ using clang::NamespaceAliasDecl;
 using clang::NamespaceDecl;
 using clang::NestedNameSpecifier;
 using clang::NestedNameSpecifierLoc;
+using clang::OffsetOfExpr;
 using clang::OptionalFileEntryRef;
 using clang::PPCallbacks;
 using clang::ParenType;
@@ -2203,6 +2204,15 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     }
   }
 
+  // The offset of a member takes the definition of the class, wherever it is
+  // asked for.
+  bool VisitOffsetOfExpr(OffsetOfExpr* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+    current_ast_node()->set_in_forward_declare_context(false);
+    return true;
+  }
+
   // Mark that we need the full type info for the thing we're taking
   // sizeof of.  Sometimes this is double-counting: for
   // sizeof(some_type), RecursiveASTVisitor will visit some_type and
-- 
2.43.0

