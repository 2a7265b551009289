From c806be42ab99606d62b027071a0c8827efada7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 1/9] fix: poll the kernel's abort flag in the parser when
 CHECK_ABORT is enabled

abortQ() was gated on a feature (USE_MATHLINK) that the wolfram-parser crate
does not have, so it always returned false and a running parse or tokenize
could never be aborted.
---
 crates/wolfram-parser/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 0f36c4c..f330250 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -699,10 +699,10 @@ pub(crate) fn abortQ() -> bool {
     //
     // return self.libData.AbortQ();
 
-    #[cfg(feature = "USE_MATHLINK")]
+    #[cfg(feature = "CHECK_ABORT")]
     return unsafe { wolfram_library_link::rtl::AbortQ() } != 0;
 
-    #[cfg(not(feature = "USE_MATHLINK"))]
+    #[cfg(not(feature = "CHECK_ABORT"))]
     return false;
 }
 
-- 
2.43.0


From 450ebf047ab7b18a6aff79a36a567d4509badaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:07 +0000
Subject: [PATCH 2/9] fix: let DestroyParserSession succeed and never free the
 caller's integer

The function required the session argument to be a function expression, so
every call with an integer handle failed; had the check passed, the integer
would have been handed to Box::from_raw. Sessions own nothing, so there is
nothing to free.
---
 crates/codeparser-wll/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/codeparser-wll/src/lib.rs b/crates/codeparser-wll/src/lib.rs
index 0858919..1094902 100644
--- a/crates/codeparser-wll/src/lib.rs
+++ b/crates/codeparser-wll/src/lib.rs
@@ -58,8 +58,10 @@ fn CreateParserSession() -> ParserSessionPtr {
     std::ptr::null_mut()
 }
 
-unsafe fn DestroyParserSession(session: ParserSessionPtr) {
-    drop(Box::from_raw(session))
+unsafe fn DestroyParserSession(_session: ParserSessionPtr) {
+    // CreateParserSession() does not allocate anything, so there is nothing to
+    // free. The value of the handle comes from the caller and must not be
+    // treated as a pointer.
 }
 
 // fn ParserSessionInit(
@@ -273,10 +275,6 @@ pub fn DestroyParserSession_LibraryLink(link: &mut wstp::Link) {
         todo!()
     }
 
-    if link.get_type().unwrap() != wstp::TokenType::Function {
-        todo!()
-    }
-
     let session = unsafe { read_session_from_link(link) };
 
     unsafe { DestroyParserSession(session) };
-- 
2.43.0


From a5d7979e941212143bed605a630f7f98c818f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:07 +0000
Subject: [PATCH 3/9] fix: stop the command-line tool at end of standard input

read_line() returns Ok(0) at end of input; the loop ignored it and printed
the result for an empty line forever.
---
 crates/wolfram-parser/src/bin/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/bin/main.rs b/crates/wolfram-parser/src/bin/main.rs
index 37c28bf..67cd623 100644
--- a/crates/wolfram-parser/src/bin/main.rs
+++ b/crates/wolfram-parser/src/bin/main.rs
@@ -84,7 +84,10 @@ fn read_std_in(mode: ApiMode, output_mode: OutputMode, quirks: QuirkSettings) {
         print!(">>> ");
         io::stdout().flush().unwrap();
 
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            // End of input.
+            break;
+        }
 
         handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
     }
-- 
2.43.0


From b80ddaf62039138dffbdde032104b637378bd4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:32 +0000
Subject: [PATCH 4/9] fix: write ConfidenceLevel metadata as a rule

Metadata::put() wrote the bare number into the association, so a container
carrying a confidence level did not round-trip.
---
 crates/codeparser-wll/src/convert_wstp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/codeparser-wll/src/convert_wstp.rs b/crates/codeparser-wll/src/convert_wstp.rs
index ab84420..917757e 100644
--- a/crates/codeparser-wll/src/convert_wstp.rs
+++ b/crates/codeparser-wll/src/convert_wstp.rs
@@ -195,6 +195,8 @@ impl WstpPut for Metadata {
         }
 
         if let Some(level) = confidence_level {
+            link.put_function("System`Rule", 2).unwrap();
+            link.put_symbol(sym::ConfidenceLevel.as_str()).unwrap();
             link.put_expr(&Expr::number(level.clone())).unwrap();
         }
 
-- 
2.43.0


From e738d52016ee9a74056f2c4d4b9cbd03ce188822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:11 +0000
Subject: [PATCH 5/9] fix: keep the last good line in the text of an
 unterminated token

The text of a reparsed unterminated string or comment left out the last line
of its reported source, and slicing panicked when only the first of several
lines was non-empty (e.g. a quote followed by two newlines).
---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From dd50219f24a87c3766ebd6369c685f1fc6aeb0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:11 +0000
Subject: [PATCH 6/9] fix: count characters, not bytes, when reparsing
 unterminated tokens

With the CharacterIndex convention, the source of an unterminated string or
comment after or containing a multi-byte character was computed from byte
offsets: wrong text and position, or a panic.
---
 crates/wolfram-parser/src/error.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index f6f7df6..2f860a4 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -534,15 +534,20 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
 }
 
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    // Character positions count code points, not bytes.
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    let Range { start, end } = range.to_rust_range();
+
+    let byte_index = |char_index: usize| -> usize {
+        s.char_indices()
+            .nth(char_index)
+            .map_or(s.len(), |(index, _)| index)
+    };
+
+    &s[byte_index(start)..byte_index(end)]
 }
 
 //==========================================================
-- 
2.43.0


From d6b0d114f2d0f9ea918884b75a8fc9f94160a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 7/9] fix: don't panic on an unterminated group in invalid
 UTF-8 input

The parser assumed that input it had read to the end was valid UTF-8; input
like the bytes FF 28 panicked instead of reporting the encoding problem.
---
 crates/wolfram-parser/src/parse.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..e693c28 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -1478,12 +1478,16 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // Reading all of the input does not mean that it was valid UTF-8. If it
+        // wasn't, the result is going to be the encoding error, so there is no
+        // point in finding better leaves.
+        let Ok(input) = std::str::from_utf8(self.input()) else {
+            return self.builder.reduce_group_missing_closer(
+                ctx_data,
+                op,
+                group_state,
+            );
+        };
 
         let tab_width = self.tokenizer.tab_width as usize;
 
-- 
2.43.0


From 269156d8f3b0bab0e5320fb208d6152be0aad494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:25 +0000
Subject: [PATCH 8/9] fix: don't panic on a BOM while reparsing an unterminated
 construct

Looking for the end of the statement tokenized each line as a &str and
unwrapped the result, so a BOM after an unterminated bracket panicked instead
of being reported.
---
 crates/wolfram-parser/src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 2f860a4..6615bf0 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -367,7 +367,13 @@ fn split_into_chunks<'s, 'i>(lines: &'s [Line<'i>]) -> Vec<&'s [Line<'i>]> {
 fn is_new_statement_line(line: &str) -> bool {
     debug_assert!(!line.contains(&['\r', '\n']));
 
-    let crate::NodeSeq(tokens) = crate::tokenize(line, &Default::default());
+    // A `&str` can still contain a character that is reported as an unsafe
+    // encoding (a BOM).
+    let Ok(crate::NodeSeq(tokens)) =
+        crate::tokenize_bytes(line.as_bytes(), &Default::default())
+    else {
+        return false;
+    };
 
     let tokens: Vec<_> = tokens
         .into_iter()
-- 
2.43.0


From aec6ec319fb54b10ad78db660240512a18caf8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 9/9] fix: keep a leading # that does not start a #! line

With FirstLineBehavior Check or Script, the # was skipped before it was known
whether a ! follows, so a file starting with e.g. #1& lost its first token.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..db10a81 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -183,12 +183,16 @@ impl<'i> Tokenizer<'i> {
                     return;
                 }
 
+                let mark = self.mark();
+
                 peek.skip(self);
 
                 peek = self.peek_token();
 
                 if peek.tok != TokenKind::Bang {
-                    // not #!
+                    // not #!; the # is part of the program
+
+                    self.seek(mark);
 
                     return;
                 }
@@ -239,6 +243,8 @@ impl<'i> Tokenizer<'i> {
                     return;
                 }
 
+                let mark = self.mark();
+
                 peek.skip(self);
 
                 peek = self.peek_token();
@@ -248,6 +254,8 @@ impl<'i> Tokenizer<'i> {
                     // TODO: add to Issues
                     //
 
+                    self.seek(mark);
+
                     return;
                 }
 
-- 
2.43.0

