From 7117804f0223f8ab63939344400f47a46e468a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:05 +0000
Subject: [PATCH 01/31] fix: report lines out of order in PO files as syntax
 errors

The parser panicked when a line was not allowed after the previous one,
for example a msgstr at the beginning of the file.
---
 rust/src/poparser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..e99bcc3 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -154,7 +154,20 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                None => {
+                    // line not allowed after the previous one
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    });
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
-- 
2.43.0


From 949de743a3c66e0085f7820ebd7e0170a1c3a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:05 +0000
Subject: [PATCH 02/31] fix: reject badly quoted strings in PO files with
 syntax errors

Strings made of a single quote, strings without opening quote and
msgstr[N] lines without a quoted string either panicked or lost their
first character. The strings of msgstr[N] lines are now checked for
unescaped quotes like those of the other keywords.
---
 rust/src/poparser.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index e99bcc3..ec8cb83 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -361,6 +361,20 @@ impl POFileParser {
                 }
             };
 
+            let (prefix, text) = self
+                .current_token
+                .split_once(']')
+                .unwrap_or((&self.current_token, ""));
+            maybe_raise_unescaped_double_quote_found_error(
+                text.trim_start(),
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                // +3 taking into account '] "' (bracket, space
+                // and first double quote)
+                prefix.chars().count() + 3,
+            )?;
+
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
@@ -749,17 +763,28 @@ fn maybe_raise_unescaped_double_quote_found_error(
     // Check if last character is not a double quote
     // to prevent slicing out of bounds
     let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text.len() < 2 || text_chars.last().unwrap_or('\0') != '"' {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
+    if !text.starts_with('"') {
+        return Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                path_or_content,
+                path_or_content_is_path,
+            ),
+            line: linenum,
+            index: 0,
+            message: format!("unquoted string '{}'", text),
+        });
+    }
 
     let text_str = text.to_string();
     let unescaped_double_quote_i = find_unescaped_double_quote_index(
-- 
2.43.0


From a62a09692577e0d39273ecea6ea5166e403ce6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:11 +0000
Subject: [PATCH 03/31] fix: read previous message lines of PO files correctly

Continuation lines of previous messages kept the marker and the quote
as part of the text, more than one space after the marker shifted the
text, and badly quoted strings panicked.
---
 rust/src/poparser.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index ec8cb83..2583b0c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -409,8 +409,19 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            let prev_line = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    prev_line,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    // +2 taking into account ' "' (space and first
+                    // double quote)
+                    tokens[0].chars().count() + 2,
+                )?;
+                self.current_token = prev_line.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -443,10 +454,19 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            let text = prev_line[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                text,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                // +3 taking into account the two spaces and the
+                // first double quote
+                tokens[0].chars().count()
+                    + tokens[1].chars().count()
+                    + 3,
+            )?;
+            self.current_token = text.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From 972c980e9af1f0b6718f08ee75cf920a478e62ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:17 +0000
Subject: [PATCH 04/31] fix: limit the index of msgstr[N] lines in PO files

A huge index made the parser overflow or allocate that many strings.
---
 rust/src/poparser.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 2583b0c..d330d55 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -53,6 +53,10 @@ lazy_static! {
     };
 }
 
+/// Maximum index allowed in `msgstr[N]` lines, which avoids to
+/// allocate as many strings as a malformed index could require
+const MAX_PLURAL_INDEX: usize = 255;
+
 /// Function to transition from a state to another in the parser
 type TransitionFn =
     dyn Fn(&mut POFileParser) -> Result<(), SyntaxError>;
@@ -339,9 +343,26 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index <= MAX_PLURAL_INDEX => {
                     self.msgstr_index = index;
                 }
+                Ok(_) => {
+                    return Err(SyntaxError::Custom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        message: format!(
+                            concat!(
+                                "Invalid msgstr plural index.",
+                                " Expected at most {}, found '{}'."
+                            ),
+                            MAX_PLURAL_INDEX, index,
+                        ),
+                        line: self.current_line,
+                        index: 7,
+                    });
+                }
                 Err(_) => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
-- 
2.43.0


From 89ff1a5c29dc7010c2ba488324ea84cdba48c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:23 +0000
Subject: [PATCH 05/31] fix: read header entries with plurals and with non
 fuzzy flags

A header entry without msgstr panicked, and any flag on the header
marked the metadata as fuzzy.
---
 rust/src/poparser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index d330d55..09ee4a2 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -233,12 +233,11 @@ impl POFileParser {
         let metadata_entry = self.file.find_by_msgid("");
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
-            self.file.metadata_is_fuzzy =
-                !metadata_entry.flags.is_empty();
+            self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From abf6191104500fe0bd38dc0e539dfb47110c291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:10 +0000
Subject: [PATCH 06/31] fix: report lines of PO files that can not be decoded
 as errors

The rest of the file after such a line was silently ignored.
---
 rust/src/poparser.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 09ee4a2..1f0aa31 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -80,14 +80,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = std::io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -212,10 +208,13 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
+        let first_line = self.check_line(
+            handler.next().unwrap_or(Ok("".to_string())),
+        )?;
         self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
 
         for line in handler.by_ref() {
+            let line = self.check_line(line)?;
             self.parse_line(&line)?;
         }
 
@@ -263,6 +262,21 @@ impl POFileParser {
         Ok(())
     }
 
+    fn check_line(
+        &self,
+        line: std::io::Result<String>,
+    ) -> Result<String, SyntaxError> {
+        line.map_err(|e| SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            line: self.current_line + 1,
+            index: 0,
+            message: e.to_string(),
+        })
+    }
+
     fn tokens_from_line(&self, line: &str) -> Vec<String> {
         let mut tokens: Vec<String> = Vec::with_capacity(3);
         for token in line.split_ascii_whitespace() {
-- 
2.43.0


From 08cf9dab7727fc7edcb110fd382a3288e82ca4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:16 +0000
Subject: [PATCH 07/31] fix: read PO files from content passed as bytes

The bytes were ignored, giving an empty file, and lost when the options
were passed by reference.
---
 rust/src/file/mod.rs | 4 ++--
 rust/src/poparser.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..3abf006 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -92,7 +92,7 @@ pub struct FileOptions {
     pub path_or_content: String,
     /// Wrap width for the PO file, used when converted as a string
     pub wrapwidth: usize,
-    /// Content as bytes, used by MO files when the content is passed as bytes
+    /// Content as bytes, used when the content is passed as bytes
     pub byte_content: Option<Vec<u8>>,
 }
 
@@ -111,7 +111,7 @@ impl From<&FileOptions> for FileOptions {
         Self {
             path_or_content: options.path_or_content.clone(),
             wrapwidth: options.wrapwidth,
-            ..Default::default()
+            byte_content: options.byte_content.clone(),
         }
     }
 }
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 1f0aa31..22976c4 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -197,8 +197,13 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let content = match &self.file.options.byte_content {
+            Some(bytes) => bytes.clone(),
+            None => {
+                self.file.options.path_or_content.clone().into_bytes()
+            }
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From 2e47231bc1ccb9f2d4f8b6c23a251f0366281ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 08/31] fix: return an error when there is no MO file to read

Passing a path that does not exist panicked. It is now handled like
an empty file.
---
 rust/src/moparser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..1a2a1f0 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,7 +70,7 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
@@ -80,7 +80,7 @@ impl MOFileParser<'_> {
                 File::open(&file.options.path_or_content).unwrap(),
             ),
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 068536dd42c283fe95bbb9a91fddc8d166de51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:28 +0000
Subject: [PATCH 09/31] fix: do not swap msgid and msgctxt reading MO files

MO files store the context before the EOT byte and the msgid after it.
---
 rust/src/moparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 1a2a1f0..e8706dd 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -52,7 +52,7 @@ fn maybe_extract_msgctxt_from_msgid(
     let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
 
     if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
+        (msgid_tokens[1].into(), Some(msgid_tokens[0].to_string()))
     } else {
         (msgid.into(), None)
     }
-- 
2.43.0


From af8fd83921a1ccae1fa4a0516885b279a1c97e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:35 +0000
Subject: [PATCH 10/31] fix: report messages of MO files that can not be read
 completely

Strings located out of the file were returned filled with null
characters, allocating as much memory as their corrupted length.
---
 rust/src/moparser.rs | 56 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index e8706dd..c0f595e 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -117,8 +117,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -264,25 +263,27 @@ impl MOFileParser<'_> {
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self.parse_string(
+                msgid_length,
+                msgid_offset,
+                "msgid",
+                i,
+            )?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.parse_string(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+                i,
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -323,6 +324,33 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
+    }
+
+    fn parse_string(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+        i: u32,
+    ) -> Result<Vec<u8>, IOError> {
+        let mut buffer = vec![];
+        self.fhandle.seek(SeekFrom::Start(offset as u64)).ok();
+        // read at most the content, the length could be corrupted
+        let read = self
+            .fhandle
+            .by_ref()
+            .take(length as u64)
+            .read_to_end(&mut buffer);
+        if read.is_err() || buffer.len() != length as usize {
+            return Err(IOError::CorruptedMOData {
+                context: format!(
+                    "parsing {} at index {}",
+                    context, i
+                ),
+            });
+        }
+        Ok(buffer)
     }
 }
 
-- 
2.43.0


From c8cab65820e5d4e02d41ba975e0caedab27386d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 11/31] fix: keep the comment marker on every line of wrapped
 comments

Comments longer than the wrap width were written without marker, so
the resulting PO file could not be parsed. Wrap widths lower than 2
panicked.
---
 rust/src/entry/poentry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..f335b40 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,7 +96,10 @@ impl POEntry {
     ) {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                let wrapped = wrap(line, wrapwidth.saturating_sub(2));
+                target.push_str(prefix);
+                target
+                    .push_str(&wrapped.join(&format!("\n{prefix}")));
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
-- 
2.43.0


From d7002ff08d14f68e705f5961f2aaf4ad3d843b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:02 +0000
Subject: [PATCH 12/31] fix: do not lose nor repeat occurrences wrapping their
 lines

---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index f335b40..b93afa7 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -154,11 +154,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From d37ec4fb1d2019ff4dc9c2529c67553e84340871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:08 +0000
Subject: [PATCH 13/31] fix: write the previous msgid_plural with its own
 keyword

It was written as a second previous msgid followed by a blank line.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index b93afa7..ede2dc7 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -212,7 +212,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -220,7 +220,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From 23a1cac76f7956bd25f4c2e27a74addfb61fea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:13 +0000
Subject: [PATCH 14/31] fix: keep the white space at the end of msgstr

---
 rust/src/entry/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..8f7e712 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -73,14 +73,8 @@ fn default_mo_entry_msgstr_formatter(
     delflag: &str,
     wrapwidth: usize,
 ) -> String {
-    POStringField::new(
-        "msgstr",
-        delflag,
-        msgstr.trim_end(),
-        "",
-        wrapwidth,
-    )
-    .to_string()
+    POStringField::new("msgstr", delflag, msgstr, "", wrapwidth)
+        .to_string()
 }
 
 fn mo_entry_to_string_with_msgstr_formatter(
-- 
2.43.0


From b37c723ff1b3baf3e0576345b896230717efa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:54 +0000
Subject: [PATCH 15/31] fix: do not leave white space at the end of wrapped
 comment lines

It disappears when the file is parsed again, so the text was not stable.
---
 rust/src/entry/poentry.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index ede2dc7..cc54a1d 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -97,6 +97,12 @@ impl POEntry {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
                 let wrapped = wrap(line, wrapwidth.saturating_sub(2));
+                // white space at breaks is not part of the comment
+                let wrapped = wrapped
+                    .iter()
+                    .map(|l| l.trim_end())
+                    .filter(|l| !l.is_empty())
+                    .collect::<Vec<&str>>();
                 target.push_str(prefix);
                 target
                     .push_str(&wrapped.join(&format!("\n{prefix}")));
-- 
2.43.0


From 2f51b55225fbe95e4297a447c0f5e1ab95a9cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:59 +0000
Subject: [PATCH 16/31] fix: use the wrap width of the options converting files
 to string

---
 rust/src/file/mofile.rs | 5 ++++-
 rust/src/file/pofile.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..779e23b 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -399,11 +399,13 @@ impl fmt::Display for POFile {
         let mut entries_ret = String::new();
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
+            let entry_repr = entry
+                .to_string_with_wrapwidth(self.options.wrapwidth);
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(&entry_repr);
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(&entry_repr);
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From 67d125b5eb1083688013fe7ea7f1b4be88d1dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:39 +0000
Subject: [PATCH 17/31] fix: keep blank lines at the end of comments

One of them was lost each time that the file was saved.
---
 rust/src/entry/poentry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index cc54a1d..a07110e 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -94,7 +94,7 @@ impl POEntry {
         wrapwidth: usize,
         target: &mut String,
     ) {
-        for line in comment.lines() {
+        for line in comment.split('\n') {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
                 let wrapped = wrap(line, wrapwidth.saturating_sub(2));
                 // white space at breaks is not part of the comment
-- 
2.43.0


From b039671e431b76d8c65d1e1a7858183e3abd5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:15 +0000
Subject: [PATCH 18/31] fix: always write metadata fields in the same order

Fields whose names only differ in spaces were written in random order.
---
 rust/src/file/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 3abf006..06a0e19 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,10 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        // different keys can be equal in natural order
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From 5f45126046241be9d963120e50e3cc41c82baa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:22 +0000
Subject: [PATCH 19/31] fix: remove only the first entry in remove_by_msgid
 methods

All the entries with the msgid were removed, also those in other
contexts, despite the documented behaviour.
---
 rust/src/file/mofile.rs | 17 ++++++++++++-----
 rust/src/file/pofile.rs | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index aa63090..c6d78bc 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -177,7 +177,11 @@ impl MOFile {
 
     /// Remove the first entry that has the same msgid
     pub fn remove_by_msgid(&mut self, msgid: &str) {
-        self.entries.retain(|e| e.msgid != msgid);
+        let index =
+            self.entries.iter().position(|e| e.msgid == msgid);
+        if let Some(index) = index {
+            self.entries.remove(index);
+        }
     }
 
     /// Remove the first entry that has the same msgid and msgctxt
@@ -186,11 +190,14 @@ impl MOFile {
         msgid: &str,
         msgctxt: &str,
     ) {
-        self.entries.retain(|e| {
-            e.msgid != msgid
-                || e.msgctxt.as_ref().unwrap_or(&"".to_string())
-                    != msgctxt
+        let index = self.entries.iter().position(|e| {
+            e.msgid == msgid
+                && e.msgctxt.as_ref().unwrap_or(&"".to_string())
+                    == msgctxt
         });
+        if let Some(index) = index {
+            self.entries.remove(index);
+        }
     }
 
     /// Returns the entry as a bytes vector
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 779e23b..f83282c 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -177,7 +177,11 @@ impl POFile {
 
     /// Remove the first entry that has the same msgid
     pub fn remove_by_msgid(&mut self, msgid: &str) {
-        self.entries.retain(|e| e.msgid != msgid);
+        let index =
+            self.entries.iter().position(|e| e.msgid == msgid);
+        if let Some(index) = index {
+            self.entries.remove(index);
+        }
     }
 
     /// Remove the first entry that has the same msgid and msgctxt
@@ -186,11 +190,14 @@ impl POFile {
         msgid: &str,
         msgctxt: &str,
     ) {
-        self.entries.retain(|e| {
-            e.msgid != msgid
-                || e.msgctxt.as_ref().unwrap_or(&"".to_string())
-                    != msgctxt
+        let index = self.entries.iter().position(|e| {
+            e.msgid == msgid
+                && e.msgctxt.as_ref().unwrap_or(&"".to_string())
+                    == msgctxt
         });
+        if let Some(index) = index {
+            self.entries.remove(index);
+        }
     }
 
     /// Find entries by a given field and value
-- 
2.43.0


From 6812ced2e7f1bd9373fe1b1a09d7b8c265b6cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:01 +0000
Subject: [PATCH 20/31] fix: do not break lines inside escape sequences

Escaped backslashes followed by quotes could be broken in two lines,
leaving an unescaped quote and a PO file that could not be parsed.
---
 rust/src/twrapper.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index de8913a..49cc473 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -49,13 +49,28 @@ fn get_linebreaks(
     ret
 }
 
+/// Returns if a position of a text is between a backslash
+/// and the character that it escapes
+fn inside_escape(text: &str, position: usize) -> bool {
+    let backslashes = text[..position]
+        .bytes()
+        .rev()
+        .take_while(|b| *b == b'\\')
+        .count();
+    backslashes % 2 == 1
+}
+
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
     let linebreaks = get_linebreaks(
-        &unicode_linebreaks(text).collect(),
+        &unicode_linebreaks(text)
+            .filter(|(lb, _)| {
+                *lb == text.len() || !inside_escape(text, *lb)
+            })
+            .collect(),
         text,
         wrapwidth,
     );
-- 
2.43.0


From d9fa0f37ad04ad992e7b43ded978898f2bc9454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 21/31] fix: take into account the context of messages merging
 PO files

Messages without context were not added if there was one with the same
msgid in some context, and messages whose context is not in the other
file were not marked as obsolete.
---
 rust/src/file/pofile.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index f83282c..867fc3b 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -62,6 +62,10 @@ fn by_previous_msgctxt_predicate(
         == value
 }
 
+fn same_message(entry: &POEntry, other: &POEntry) -> bool {
+    entry.msgid == other.msgid && entry.msgctxt == other.msgctxt
+}
+
 /// PO files factory function.
 ///
 /// It takes an argument that could be either:
@@ -457,13 +461,11 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry: Option<POEntry> = self
+                .entries
+                .iter()
+                .find(|e| same_message(e, other_entry))
+                .cloned();
 
             if let Some(e) = entry {
                 let mut entry = e;
@@ -477,7 +479,7 @@ impl Merge for POFile {
 
         let self_entries: &mut Vec<POEntry> = self.entries.as_mut();
         for entry in self_entries {
-            if other.find_by_msgid(&entry.msgid).is_none() {
+            if !other.entries.iter().any(|e| same_message(e, entry)) {
                 entry.obsolete = true;
             }
         }
-- 
2.43.0


From a27aa6c100c7a8296bfb22d9f8244cb59cbd29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:13 +0000
Subject: [PATCH 22/31] fix: create empty MO files from Python without
 arguments

MOFile() raised an error instead of creating an empty file.
---
 python/src/pymofile.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/pymofile.rs b/python/src/pymofile.rs
index 723438a..63e77fd 100644
--- a/python/src/pymofile.rs
+++ b/python/src/pymofile.rs
@@ -54,8 +54,11 @@ impl PyMOFile {
         path_or_content: &str,
         wrapwidth: usize,
     ) -> PyResult<Self> {
-        let result =
-            mofile(FileOptions::from((path_or_content, wrapwidth)));
+        let options = FileOptions::from((path_or_content, wrapwidth));
+        if path_or_content.is_empty() {
+            return Ok(PyMOFile(MOFile::new(options)));
+        }
+        let result = mofile(options);
         match result {
             Ok(mofile) => Ok(PyMOFile(mofile)),
             Err(e) => Err(PyErr::new::<exceptions::IOError, _>(
-- 
2.43.0


From db2ed501a0463cb9a55e9054007aa5d7025c2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:50 +0000
Subject: [PATCH 23/31] fix: keep blank lines at the beginning of the header

---
 rust/src/poparser.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 22976c4..48fba19 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -523,13 +523,9 @@ impl POFileParser {
 
 fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let mut newheader = match parser.file.header {
-        Some(ref header) => header,
-        None => "",
-    }
-    .to_string();
-    if !newheader.is_empty() {
-        newheader.push('\n');
-    }
+        Some(ref header) => format!("{header}\n"),
+        None => String::new(),
+    };
     if parser.current_token.len() > 2 {
         newheader.push_str(&parser.current_token[2..]);
     }
-- 
2.43.0


From aedc88dc5e47c2507574c9f816b57bdce41ede7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:03 +0000
Subject: [PATCH 24/31] fix: report strings ending in an escaped double quote
 as unterminated

---
 rust/src/poparser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 48fba19..5a9f74d 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -855,6 +855,24 @@ fn maybe_raise_unescaped_double_quote_found_error(
             index: double_quote_i + 1 + index_offset,
         });
     }
+
+    // An escaped double quote does not terminate the string
+    let escapes = text_str[..text_str.len() - 1]
+        .bytes()
+        .rev()
+        .take_while(|b| *b == b'\\')
+        .count();
+    if escapes % 2 == 1 {
+        return Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                path_or_content,
+                path_or_content_is_path,
+            ),
+            line: linenum,
+            index: text.chars().count().saturating_sub(1),
+            message: format!("unterminated string '{}'", text),
+        });
+    }
     Ok(())
 }
 
-- 
2.43.0


From 84d572f153bcac54979fc3ef26492d3bc1e563b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:04 +0000
Subject: [PATCH 25/31] fix: reject keywords out of order with comments between
 them

---
 rust/src/poparser.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 5a9f74d..831e6b1 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -105,6 +105,8 @@ pub(crate) struct POFileParser {
     msgstr_index: usize,
     /// Whether the current entry is obsolete
     entry_obsolete: bool,
+    /// Whether the msgid of the current entry has been read
+    msgid_read: bool,
 }
 
 impl POFileParser {
@@ -121,6 +123,7 @@ impl POFileParser {
             current_entry: POEntry::new(0),
             msgstr_index: 0,
             entry_obsolete: false,
+            msgid_read: false,
         }
     }
 
@@ -138,6 +141,7 @@ impl POFileParser {
         self.file.entries.push(unescaped_entry.unwrap());
         self.current_entry = POEntry::new(self.current_line);
         self.msgstr_index = 0;
+        self.msgid_read = false;
         Ok(())
     }
 
@@ -148,6 +152,27 @@ impl POFileParser {
         Ok(())
     }
 
+    /// Check if the current entry can have the keyword of the symbol,
+    /// even when there are comments between its lines
+    fn keyword_allowed(&self, symbol: &Symbol) -> bool {
+        let entry_ended =
+            [St::MS, St::MX].contains(&self.current_state);
+        match symbol {
+            St::CT => {
+                entry_ended
+                    || !self.msgid_read
+                        && self.current_entry.msgctxt.is_none()
+            }
+            St::MI => entry_ended || !self.msgid_read,
+            St::MP => {
+                self.msgid_read
+                    && self.current_entry.msgid_plural.is_none()
+            }
+            St::MS | St::MX => self.msgid_read,
+            _ => true,
+        }
+    }
+
     fn process(
         &mut self,
         symbol: &Symbol,
@@ -155,8 +180,10 @@ impl POFileParser {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
             match TRANSITIONS.get(&next_transition) {
-                Some(transition) => *transition,
-                None => {
+                Some(transition) if self.keyword_allowed(symbol) => {
+                    *transition
+                }
+                _ => {
                     // line not allowed after the previous one
                     return Err(SyntaxError::Generic {
                         maybe_filename: MaybeFilename::new(
@@ -662,6 +689,7 @@ fn handle_ct(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 fn handle_mi(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
     parser.current_entry.obsolete = parser.entry_obsolete;
+    parser.msgid_read = true;
     parser.current_entry.msgid = parser.current_token
         [1..parser.current_token.len() - 1]
         .to_string();
-- 
2.43.0


From 6086c2d7b7cb54fc9291611c16904ff9b04a32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:04 +0000
Subject: [PATCH 26/31] fix: keep the last message when its msgid is empty

A message without msgid but with context, flags or plurals was dropped
when it was the last one of the document.
---
 rust/src/poparser.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 831e6b1..4bae671 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -250,14 +250,8 @@ impl POFileParser {
             self.parse_line(&line)?;
         }
 
-        if self.current_entry.msgid.is_empty() {
-            // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
-            }
-        } else {
+        // Comments after the last entry are not an entry
+        if self.msgid_read {
             self.add_current_entry()?;
         }
 
-- 
2.43.0


From 959aae51df60423f4be7a28b23a5bd597c4f331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:10 +0000
Subject: [PATCH 27/31] fix: do not take messages with context as the metadata

---
 rust/src/poparser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 4bae671..b69c8fa 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -255,7 +255,13 @@ impl POFileParser {
             self.add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
+        // An entry with context is a message, not the header entry
+        let metadata_entry = self
+            .file
+            .entries
+            .iter()
+            .find(|e| e.msgid.is_empty() && e.msgctxt.is_none())
+            .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
             self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
-- 
2.43.0


From ce9b8fa79e07f7ad5efbfb472126abc5aaf00918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:10 +0000
Subject: [PATCH 28/31] fix: show the numbers read in the error of the magic
 number

---
 rust/src/errors.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rust/src/errors.rs b/rust/src/errors.rs
index b89bda8..d7a9cf1 100644
--- a/rust/src/errors.rs
+++ b/rust/src/errors.rs
@@ -132,13 +132,7 @@ pub enum IOError {
     /// Usually this happens because the buffer offset reading the
     /// file is not correct or the file has been saved with an
     /// incorrect magic number.
-    #[snafu(display(
-        concat!(
-            "Invalid mo file, magic number is incorrect",
-            " ({{magic_number_le}} read as le, {{magic_number_be}}",
-            " read as be)",
-        )
-    ))]
+    #[snafu(display("Invalid mo file, magic number is incorrect ({magic_number_le} read as le, {magic_number_be} read as be)"))]
     IncorrectMagicNumber {
         magic_number_le: u32,
         magic_number_be: u32,
-- 
2.43.0


From 76d2148996908ba91c29a473ea1db1565363e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:15 +0000
Subject: [PATCH 29/31] fix: do not accept empty strings that are out of a MO
 file

---
 rust/src/moparser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index c0f595e..187dcd3 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -335,6 +335,7 @@ impl MOFileParser<'_> {
         i: u32,
     ) -> Result<Vec<u8>, IOError> {
         let mut buffer = vec![];
+        let end = self.fhandle.seek(SeekFrom::End(0)).unwrap_or(0);
         self.fhandle.seek(SeekFrom::Start(offset as u64)).ok();
         // read at most the content, the length could be corrupted
         let read = self
@@ -342,7 +343,11 @@ impl MOFileParser<'_> {
             .by_ref()
             .take(length as u64)
             .read_to_end(&mut buffer);
-        if read.is_err() || buffer.len() != length as usize {
+        // an empty string could be out of the content
+        if read.is_err()
+            || buffer.len() != length as usize
+            || offset as u64 > end
+        {
             return Err(IOError::CorruptedMOData {
                 context: format!(
                     "parsing {} at index {}",
-- 
2.43.0


From 37bd950db92d6134b6d4378c04fee5ce20c35980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:08 +0000
Subject: [PATCH 30/31] fix: raise OSError in Python when a file cannot be
 saved

---
 python/src/pymofile.rs | 4 ++++
 python/src/pypofile.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/python/src/pymofile.rs b/python/src/pymofile.rs
index 63e77fd..e4372d1 100644
--- a/python/src/pymofile.rs
+++ b/python/src/pymofile.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::fs::File;
 
 use pyo3::prelude::*;
 
@@ -146,16 +147,19 @@ impl PyMOFile {
     }
 
     fn save(&self, path: &str) -> PyResult<()> {
+        File::create(path)?;
         self.0.save(path);
         Ok(())
     }
 
     fn save_as_pofile(&self, path: &str) -> PyResult<()> {
+        File::create(path)?;
         self.0.save_as_pofile(path);
         Ok(())
     }
 
     fn save_as_mofile(&self, path: &str) -> PyResult<()> {
+        File::create(path)?;
         self.0.save_as_mofile(path);
         Ok(())
     }
diff --git a/python/src/pypofile.rs b/python/src/pypofile.rs
index 2f6a70e..af51d41 100644
--- a/python/src/pypofile.rs
+++ b/python/src/pypofile.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::fs::File;
 
 use pyo3::prelude::*;
 
@@ -138,16 +139,19 @@ impl PyPOFile {
     }
 
     fn save(&self, path: &str) -> PyResult<()> {
+        File::create(path)?;
         self.0.save(path);
         Ok(())
     }
 
     fn save_as_pofile(&self, path: &str) -> PyResult<()> {
+        File::create(path)?;
         self.0.save_as_pofile(path);
         Ok(())
     }
 
     fn save_as_mofile(&self, path: &str) -> PyResult<()> {
+        File::create(path)?;
         self.0.save_as_mofile(path);
         Ok(())
     }
-- 
2.43.0


From 623474451e0f25499c101e863267ecfdcb70efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:08 +0000
Subject: [PATCH 31/31] fix: count the width of each character once wrapping
 lines

---
 rust/src/twrapper.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index 49cc473..1f61ede 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -18,16 +18,19 @@ fn get_linebreaks(
     let mut ret = vec![];
 
     let mut accum_char_bindex = 0;
+    let mut next_bindex = 0;
     let mut accum_char_width = 0; // bindex, width
     let mut last_break_width = 0;
 
     for (lbi, (lb, _)) in linebreaks.iter().enumerate() {
-        let range = accum_char_width..*lb;
+        let range = next_bindex..*lb;
         for bindex in range {
-            accum_char_width +=
-                char_indices_widths.get(&bindex).unwrap_or(&0);
-            accum_char_bindex = bindex;
+            if let Some(width) = char_indices_widths.get(&bindex) {
+                accum_char_width += width;
+                accum_char_bindex = bindex;
+            }
         }
+        next_bindex = *lb;
         if lbi == linebreaks.len() - 1 {
             continue;
         }
-- 
2.43.0

