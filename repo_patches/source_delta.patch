From f63b34a130bfa50d19d58329703725c5095f4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 01/24] fix: reject rules that jump to an undefined chain
 inside an All action

---
 src/rules/table/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..b81e19a 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -246,6 +246,7 @@ impl Action {
 
         match self {
             JumpChain(name) => table.get_chain(name).map(|_| ()),
+            All(actions) => actions.iter().try_for_each(|a| a.validate(table)),
             _ => Ok(()),
         }
     }
-- 
2.43.0


From 15e4f3f68ad11408665135298e905ba079bc5db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 02/24] fix: fail the PDF import when gm or tesseract exits
 unsuccessfully

---
 src/importers/nationwide_pdf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..78f82a9 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -98,10 +98,13 @@ impl NationwidePdf {
                 png_fmt.as_os_str(),
             ];
 
-            Command::new(self.graphics_magic_binary.as_os_str())
+            let status = Command::new(self.graphics_magic_binary.as_os_str())
                 .args(gm_args)
                 .status()
                 .context("converting PDF into PNG files")?;
+            if !status.success() {
+                bail!("converting PDF into PNG files: command failed with {}", status);
+            }
         }
 
         let png_list_file_path = tmpdir.path().join("png-files.txt");
@@ -137,10 +140,13 @@ impl NationwidePdf {
                 // Configuration to use (i.e output format).
                 "tsv".as_ref(),
             ];
-            Command::new(self.tesseract_binary.as_os_str())
+            let status = Command::new(self.tesseract_binary.as_os_str())
                 .args(tess_args)
                 .status()
                 .context("performing OCR on PNG files")?;
+            if !status.success() {
+                bail!("performing OCR on PNG files: command failed with {}", status);
+            }
         }
 
         {
-- 
2.43.0


From b39bcc06d18fb3ad43635ffe823ad4863ce649af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 03/24] fix: read Tesseract TSV without CSV quoting, which
 swallowed records after a leading quote

---
 src/importers/tesseract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..4a67b29 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -37,6 +37,7 @@ impl Document {
     pub fn from_tsv_reader<R: std::io::Read>(reader: R) -> Result<Self> {
         let r = csv::ReaderBuilder::new()
             .delimiter(b'\t')
+            .quoting(false)
             .has_headers(true)
             .trim(csv::Trim::All)
             .from_reader(reader);
-- 
2.43.0


From 4204adee3ba4379029d7892d892a24bb688cb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 04/24] fix: keep page order of PDF statements with more than
 100 pages

---
 src/importers/nationwide_pdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 78f82a9..3994936 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -86,7 +86,7 @@ impl NationwidePdf {
             .ok_or_else(|| anyhow!("converting glob path to utf-8 string"))?;
 
         {
-            let png_fmt = tmpdir.path().join("page-%02d.png");
+            let png_fmt = tmpdir.path().join("page-%04d.png");
             let gm_args: [&OsStr; 6] = [
                 "convert".as_ref(),
                 // DPI of the PNG files.
-- 
2.43.0


From f73821bbe804e92b82aa9ee73a49049103473b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 05/24] fix: read the exact amount of Nationwide CSV money
 values, and only well-formed ones

---
 src/importers/nationwide_csv.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..0efad8b 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -318,7 +318,6 @@ impl PostingFormer for RecordSix {
 
 mod de {
     use std::fmt;
-    use std::str::FromStr;
 
     use anyhow::{bail, Context, Result};
     use chrono::NaiveDate;
@@ -478,15 +477,13 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)(\d+\.\d+)$").unwrap();
             }
             let captures = RE
                 .captures(s)
                 .ok_or_else(|| de::Error::custom("incorrect monetary format"))?;
             let is_negative: bool = captures.get(1).unwrap().as_str() == "-";
-            let pounds: i64 = deserialize_captured_number(&captures, 2)?;
-            let pence: i64 = deserialize_captured_number(&captures, 3)?;
-            let mut quantity = Decimal::new(pounds * 100 + pence, 2);
+            let mut quantity = Decimal::from_str_exact(&captures[2]).map_err(de::Error::custom)?;
             quantity.set_sign_negative(is_negative);
             Ok(GbpValue(Amount {
                 commodity: Commodity {
@@ -505,19 +502,6 @@ mod de {
         Ok(())
     }
 
-    fn deserialize_captured_number<T, E>(c: &regex::Captures, i: usize) -> Result<T, E>
-    where
-        T: FromStr,
-        E: de::Error,
-        <T as FromStr>::Err: fmt::Display,
-    {
-        c.get(i)
-            .unwrap()
-            .as_str()
-            .parse()
-            .map_err(de::Error::custom)
-    }
-
     pub fn deserialize_required_record<T, R>(
         csv_records: &mut csv::StringRecordsIter<R>,
     ) -> Result<Option<T>>
-- 
2.43.0


From 1266730a6e36eeb33be6079b96b5e36816c12af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 06/24] fix: do not read colons inside comment words as flag
 tags

---
 src/comment.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index 6ed03c3..aa47328 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -43,7 +43,7 @@ impl Comment {
             static ref VALUE_TAG_RX: Regex = Regex::new(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$").unwrap();
         }
         lazy_static! {
-            static ref FLAG_TAG_RX: Regex = Regex::new(r":((?:[^: ]+:)+)").unwrap();
+            static ref FLAG_TAG_RX: Regex = Regex::new(r"^:((?:[^: ]+:)+)$").unwrap();
         }
 
         let mut result = Comment::new();
@@ -63,14 +63,20 @@ impl Comment {
                 let value = kv_parts.get(2).map(|c| c.as_str()).unwrap_or("");
                 result.value_tags.insert(key.to_string(), value.to_string());
             } else {
-                // Flag tag groups can be mixed into a line with comment text.
+                // Flag tag groups can be mixed into a line with comment text,
+                // but each is a word of its own (text can contain colons).
                 let mut leading_start: usize = 0;
-                for flag_group in FLAG_TAG_RX.captures_iter(line) {
+                let mut word_end: usize = 0;
+                for word in line.split_inclusive([' ', '\t']) {
+                    let word_start = word_end;
+                    word_end += word.len();
+                    let Some(flag_group) = FLAG_TAG_RX.captures(word.trim_end()) else {
+                        continue;
+                    };
                     // Found flags (maybe with text before them).
 
-                    let all = flag_group.get(0).expect("should always have group 0");
                     let flags = flag_group.get(1).expect("should always have group 1");
-                    let leading_end = all.start();
+                    let leading_end = word_start;
                     if leading_start < leading_end {
                         // Found text prior to flags.
                         let text = line[leading_start..leading_end].trim();
@@ -78,7 +84,7 @@ impl Comment {
                             result.lines.push(text.to_string());
                         }
                     }
-                    leading_start = all.end();
+                    leading_start = word_end;
 
                     // Flags.
                     for flag in flags.as_str().trim_end_matches(':').split(':') {
-- 
2.43.0


From 60d2ca4436328f66cb09ce184a59dcb1510a63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 07/24] fix: do not write comment text on a line where it reads
 as a value tag

---
 src/comment.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index aa47328..901d38c 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -6,6 +6,10 @@ use regex::Regex;
 /// Maximum length of a tag before it gets put onto a line on its own.
 const MAX_INLINE_TAG_LEN: usize = 12;
 
+lazy_static! {
+    static ref VALUE_TAG_RX: Regex = Regex::new(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$").unwrap();
+}
+
 /// Parsed contents of a Ledger comment, suitable for manipulation before being
 /// (re)output.
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
@@ -39,9 +43,6 @@ impl Comment {
 
     /// Parses the given string into a `Comment`.
     pub fn from_opt_comment(comment: Option<&str>) -> Self {
-        lazy_static! {
-            static ref VALUE_TAG_RX: Regex = Regex::new(r"^[ ]*([^: ]+):(?:[ ]+(.+))?$").unwrap();
-        }
         lazy_static! {
             static ref FLAG_TAG_RX: Regex = Regex::new(r"^:((?:[^: ]+:)+)$").unwrap();
         }
@@ -127,6 +128,11 @@ impl Comment {
                 // to reduce number of output lines.
                 out_lines[0].push(' ');
                 out_lines[0].push_str(line.trim());
+            } else if let (true, Some(prev)) = (VALUE_TAG_RX.is_match(&line), out_lines.last_mut())
+            {
+                // On a line of its own this text would be read as a value tag.
+                prev.push(' ');
+                prev.push_str(line.trim());
             } else {
                 out_lines.push(trim_string(line));
             }
-- 
2.43.0


From a77f005a0d9de7f17731cded2bfb319fd1ef819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 08/24] fix: name the same fingerprint in candidate tags on
 every run

---
 src/merge/posting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 003693f..6583048 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -318,8 +318,9 @@ fn merge(dest: &mut PostingInternal, mut src: PostingInternal) {
 }
 
 fn primary_fingerprint(comment: &Comment) -> &str {
+    // Always the same one, regardless of hash iteration order.
     fingerprints_from_comment(comment)
-        .next()
+        .min()
         .expect("must always have a fingerprint tag")
 }
 
-- 
2.43.0


From 7df6999d170c268b657a4a680203f4ac3c84c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 09/24] fix: soft match postings on the date of the transaction
 they were added to

---
 src/merge/merger.rs  |  3 ++-
 src/merge/posting.rs | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/merge/merger.rs b/src/merge/merger.rs
index 1dce4f5..0847459 100644
--- a/src/merge/merger.rs
+++ b/src/merge/merger.rs
@@ -145,10 +145,11 @@ impl Merger {
         dest_trn_idx: transaction::Index,
         post_actions: Vec<(posting::Input, PostingMergeAction)>,
     ) -> Result<()> {
+        let dest_date = self.trns.get(dest_trn_idx).trn.raw.date;
         for (post, action) in post_actions {
             match action {
                 PostingMergeAction::New => {
-                    let post_idx = self.posts.add(post, dest_trn_idx)?;
+                    let post_idx = self.posts.add(post, dest_trn_idx, dest_date)?;
                     self.trns.add_post_to_trn(dest_trn_idx, post_idx);
                 }
                 PostingMergeAction::MergeIntoExisting(dest_post_idx) => {
diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 6583048..17e96ad 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -50,17 +50,24 @@ impl IndexedPostings {
         ConsumePostings(self.post_arena)
     }
 
-    /// Adds a new posting, updating the fingerprint index.
-    pub fn add(&mut self, input: Input, parent_trn: transaction::Index) -> Result<Index> {
+    /// Adds a new posting, updating the fingerprint index. `parent_date` is the
+    /// date of the parent transaction, which may not be the date of the
+    /// transaction that the posting came from.
+    pub fn add(
+        &mut self,
+        input: Input,
+        parent_trn: transaction::Index,
+        parent_date: NaiveDate,
+    ) -> Result<Index> {
         #![allow(clippy::needless_collect)] // Collect because `input` is moved into Holder::from_input.
         let fingerprints: Vec<String> = fingerprints_from_comment(&input.posting.comment)
             .map(str::to_string)
             .collect();
-        let (holder, trn_date) = Holder::from_input(input, parent_trn);
+        let (holder, _) = Holder::from_input(input, parent_trn);
         let idx = self.post_arena.insert(holder);
         self.register_fingerprints(fingerprints.into_iter(), idx)?;
 
-        self.posts_by_date.entry(trn_date).or_default().push(idx);
+        self.posts_by_date.entry(parent_date).or_default().push(idx);
         Ok(idx)
     }
 
-- 
2.43.0


From a7dbf868357462cc44a04a483b068d77d24c6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 10/24] fix: do not panic on journals with trailing whitespace,
 no final newline or no account

---
 src/filespec.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index bcb45c3..e0728bd 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -7,7 +7,7 @@ use std::io::{stdin, stdout, Read, Write};
 use std::path::PathBuf;
 use std::str::FromStr;
 
-use anyhow::{Context, Error, Result};
+use anyhow::{bail, Context, Error, Result};
 use ledger_parser::Ledger;
 
 /// Specifies a file to read from to write to (depending on context).
@@ -72,10 +72,28 @@ pub fn read_file(file_spec: &FileSpec) -> Result<String> {
 }
 
 pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
-    let content: String = read_file(file_spec)?;
+    let content: String = normalize_lines(&read_file(file_spec)?)?;
     ledger_parser::parse(&content).map_err(Into::into)
 }
 
+/// Drops trailing whitespace and completes the last line, and reports lines
+/// without the account of a posting. `ledger_parser` panics on these.
+fn normalize_lines(content: &str) -> Result<String> {
+    let mut out = String::with_capacity(content.len() + 1);
+    for (i, line) in content.lines().enumerate() {
+        let line = line.trim_end_matches([' ', '\t', '\r']);
+        if line.contains('\r') {
+            bail!("unexpected carriage return within line {}", i + 1);
+        }
+        if line.trim_start_matches([' ', '\t']) == "!" {
+            bail!("missing account name on line {}", i + 1);
+        }
+        out.push_str(line);
+        out.push('\n');
+    }
+    Ok(out)
+}
+
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
     let mut f = file_spec.writer()?;
     f.write_all(content.as_bytes())?;
-- 
2.43.0


From ed47b7e434077b4e79e4c71e3f60a59ba6980676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 11/24] fix: read postings with a cleared status, which were
 taken for comments

---
 src/filespec.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index e0728bd..a418279 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -8,7 +8,7 @@ use std::path::PathBuf;
 use std::str::FromStr;
 
 use anyhow::{bail, Context, Error, Result};
-use ledger_parser::Ledger;
+use ledger_parser::{Ledger, LedgerItem, TransactionStatus};
 
 /// Specifies a file to read from to write to (depending on context).
 #[derive(Clone, Debug)]
@@ -73,27 +73,67 @@ pub fn read_file(file_spec: &FileSpec) -> Result<String> {
 
 pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
     let content: String = normalize_lines(&read_file(file_spec)?)?;
-    ledger_parser::parse(&content).map_err(Into::into)
+    let mut ledger = ledger_parser::parse(&content)?;
+    restore_cleared_postings(&mut ledger);
+    Ok(ledger)
 }
 
+/// Comment line that stands for the `*` status of a posting while parsing.
+const CLEARED_MARKER: &str = "\u{e000}cleared";
+
 /// Drops trailing whitespace and completes the last line, and reports lines
-/// without the account of a posting. `ledger_parser` panics on these.
+/// without the account of a posting. `ledger_parser` panics on these. It also
+/// takes postings with a `*` status for comments, so these are passed to it as
+/// pending with a marker, see `restore_cleared_postings`.
 fn normalize_lines(content: &str) -> Result<String> {
     let mut out = String::with_capacity(content.len() + 1);
+    let mut in_transaction = false;
     for (i, line) in content.lines().enumerate() {
         let line = line.trim_end_matches([' ', '\t', '\r']);
         if line.contains('\r') {
             bail!("unexpected carriage return within line {}", i + 1);
         }
-        if line.trim_start_matches([' ', '\t']) == "!" {
+        in_transaction = match line.chars().next() {
+            Some('0'..='9') => true,
+            Some(' ' | '\t' | ';' | '#' | '%' | '|' | '*') => in_transaction,
+            _ => false,
+        };
+        let unindented = line.trim_start_matches([' ', '\t']);
+        let cleared = (in_transaction && unindented.len() < line.len())
+            .then(|| unindented.strip_prefix('*'))
+            .flatten();
+        if unindented == "!" || cleared == Some("") {
             bail!("missing account name on line {}", i + 1);
         }
-        out.push_str(line);
+        if let Some(posting) = cleared {
+            out.push_str(&format!("  !{}\n  ; {}", posting, CLEARED_MARKER));
+        } else {
+            out.push_str(line);
+        }
         out.push('\n');
     }
     Ok(out)
 }
 
+fn restore_cleared_postings(ledger: &mut Ledger) {
+    for item in &mut ledger.items {
+        let LedgerItem::Transaction(trn) = item else {
+            continue;
+        };
+        for post in &mut trn.postings {
+            let Some(comment) = &post.comment else {
+                continue;
+            };
+            let lines: Vec<&str> = comment.split('\n').collect();
+            if let Some(i) = lines.iter().position(|line| *line == CLEARED_MARKER) {
+                let rest = [&lines[..i], &lines[i + 1..]].concat();
+                post.status = Some(TransactionStatus::Cleared);
+                post.comment = (!rest.is_empty()).then(|| rest.join("\n"));
+            }
+        }
+    }
+}
+
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
     let mut f = file_spec.writer()?;
     f.write_all(content.as_bytes())?;
-- 
2.43.0


From 75f757b217cb07e6ec447608731a0789df44a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 12/24] fix: import PayPal amounts exactly instead of via
 floating point

---
 src/importers/paypal_csv.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3b7fd20..ab49485 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -269,14 +269,23 @@ mod de {
         pub status: Status,
         #[serde(rename = "Currency")]
         pub currency: String,
-        #[serde(rename = "Amount")]
+        #[serde(rename = "Amount", deserialize_with = "deserialize_decimal")]
         pub amount: Decimal,
         #[serde(rename = "Receipt ID")]
         pub receipt_id: Option<String>,
-        #[serde(rename = "Balance")]
+        #[serde(rename = "Balance", deserialize_with = "deserialize_decimal")]
         pub balance: Decimal,
     }
 
+    /// Reads a decimal exactly (the `csv` crate would go through `f64`),
+    /// dropping trailing zeroes.
+    fn deserialize_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
+        let s = String::deserialize(d)?;
+        Decimal::from_str_exact(&s)
+            .map(|v| v.normalize())
+            .map_err(de::Error::custom)
+    }
+
     #[derive(Debug)]
     pub struct Date(pub NaiveDate);
 
-- 
2.43.0


From 9dcf4d955c5f4bcafebd560c1e9362536ee39aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 13/24] fix: report endlessly recursive rule chains instead of
 overflowing the stack

---
 src/rules/table/mod.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index b81e19a..f4bf480 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -18,6 +18,9 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
+/// Maximum number of nested chain jumps, to catch endless recursion.
+const MAX_JUMP_DEPTH: usize = 100;
+
 fn load_from_path(path: &std::path::Path) -> Result<Table> {
     let rf = source::File::from_path(path)?;
     let table = rf.load()?;
@@ -77,7 +80,7 @@ impl Table {
                 trn: &mut trn.trn,
                 post,
             };
-            start.apply(self, &mut ctx)?;
+            start.apply(self, &mut ctx, 0)?;
         }
         Ok(trn)
     }
@@ -114,9 +117,9 @@ impl Chain {
         Self(rules)
     }
 
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         for rule in &self.0 {
-            match rule.apply(table, ctx)? {
+            match rule.apply(table, ctx, depth)? {
                 RuleResult::Continue => {}
                 RuleResult::Return => break,
             }
@@ -140,9 +143,9 @@ pub struct Rule {
 }
 
 impl Rule {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<RuleResult> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<RuleResult> {
         if self.predicate.is_match(ctx) {
-            self.action.apply(table, ctx)?;
+            self.action.apply(table, ctx, depth)?;
             Ok(self.result)
         } else {
             Ok(RuleResult::Continue)
@@ -179,7 +182,7 @@ enum Action {
 }
 
 impl Action {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         use Action::*;
 
         match self {
@@ -203,7 +206,7 @@ impl Action {
             }
             All(actions) => {
                 for action in actions {
-                    action.apply(table, ctx)?;
+                    action.apply(table, ctx, depth)?;
                 }
             }
             Error(err_msg) => {
@@ -216,7 +219,14 @@ impl Action {
             }
             Noop => {}
             JumpChain(name) => {
-                table.get_chain(name)?.apply(table, ctx)?;
+                if depth >= MAX_JUMP_DEPTH {
+                    return Err(anyhow!(
+                        "more than {} nested jumps when jumping to chain {}",
+                        MAX_JUMP_DEPTH,
+                        name
+                    ));
+                }
+                table.get_chain(name)?.apply(table, ctx, depth + 1)?;
             }
             SetAccount(v) => {
                 ctx.post.raw.account = v.clone();
-- 
2.43.0


From 2a55410272e9405f10264c14839068c755746894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 14/24] fix: keep the quotes of commodity names that need them

---
 src/filespec.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index a418279..7184fc6 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -8,7 +8,7 @@ use std::path::PathBuf;
 use std::str::FromStr;
 
 use anyhow::{bail, Context, Error, Result};
-use ledger_parser::{Ledger, LedgerItem, TransactionStatus};
+use ledger_parser::{Balance, Ledger, LedgerItem, Price, TransactionStatus};
 
 /// Specifies a file to read from to write to (depending on context).
 #[derive(Clone, Debug)]
@@ -141,6 +141,43 @@ pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
 }
 
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
+    let mut ledger = ledger.clone();
+    quote_commodities(&mut ledger);
     let content: String = format!("{}", ledger);
     write_file(file_spec, &content)
 }
+
+/// Quotes the commodity names that need it, as `ledger_parser` strips the
+/// quotes on reading but does not write any.
+fn quote_commodities(ledger: &mut Ledger) {
+    for item in &mut ledger.items {
+        match item {
+            LedgerItem::Transaction(trn) => {
+                for post in &mut trn.postings {
+                    if let Some(amount) = &mut post.amount {
+                        quote_commodity(&mut amount.amount.commodity.name);
+                        for price in [&mut amount.lot_price, &mut amount.price] {
+                            if let Some(Price::Unit(a) | Price::Total(a)) = price {
+                                quote_commodity(&mut a.commodity.name);
+                            }
+                        }
+                    }
+                    if let Some(Balance::Amount(a)) = &mut post.balance {
+                        quote_commodity(&mut a.commodity.name);
+                    }
+                }
+            }
+            LedgerItem::CommodityPrice(price) => {
+                quote_commodity(&mut price.commodity_name);
+                quote_commodity(&mut price.amount.commodity.name);
+            }
+            _ => {}
+        }
+    }
+}
+
+fn quote_commodity(name: &mut String) {
+    if name.contains(|c| "0123456789{}[]()~`!@#%^&*-=+\\'\",./? ;\t\r\n".contains(c)) {
+        *name = format!("\"{}\"", name.replace('"', "\\\""));
+    }
+}
-- 
2.43.0


From 34f7400e0b2a984df28804d0b36223609dbaea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 15/24] fix: reject Nationwide CSV rows with missing or extra
 columns

---
 src/importers/nationwide_csv.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index 0efad8b..9016f55 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -104,11 +104,15 @@ impl NationwideCsv {
 
         let headers_str: Vec<&str> = headers.iter().map(String::as_str).collect();
         match &headers_str[..] {
-            ["Date", "Transactions", "Location", "Paid out", "Paid in"] => {
-                self.process_rows::<R, RecordFive>(csv_records, fp_prefix, account_name)
-            }
+            ["Date", "Transactions", "Location", "Paid out", "Paid in"] => self
+                .process_rows::<R, RecordFive>(csv_records, headers.len(), fp_prefix, account_name),
             ["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"] => {
-                self.process_rows::<R, RecordSix>(csv_records, fp_prefix, account_name)
+                self.process_rows::<R, RecordSix>(
+                    csv_records,
+                    headers.len(),
+                    fp_prefix,
+                    account_name,
+                )
             }
             _ => {
                 bail!(
@@ -122,6 +126,7 @@ impl NationwideCsv {
     fn process_rows<R: std::io::Read, T: DeserializeOwned + PostingFormer>(
         &self,
         csv_records: &mut csv::StringRecordsIter<R>,
+        num_columns: usize,
         fp_prefix: &str,
         account_name: &str,
     ) -> Result<Vec<Transaction>> {
@@ -132,6 +137,16 @@ impl NationwideCsv {
 
         for result in csv_records {
             let str_record = result?;
+            // The reader is flexible because of the leading records, and
+            // deserializing ignores excess columns.
+            if str_record.len() != num_columns {
+                bail!(
+                    "bad file format: expected {} columns, got {}: {:?}",
+                    num_columns,
+                    str_record.len(),
+                    str_record,
+                );
+            }
             let record: T = str_record.deserialize(None)?;
 
             // Maintain the per-date counter. Include a sequence number to each
-- 
2.43.0


From f3a3947b582b2f61e03134b2875c36d515786e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 16/24] fix: do not drop PDF statement lines after a year line,
 nor parse dates after the end of a table

---
 src/importers/nationwide_pdf.rs | 35 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 3994936..0ecbe9a 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -162,21 +162,9 @@ impl NationwidePdf {
         acc: &mut TransactionsAccumulator,
         trn_lines: Vec<table::TransactionLine>,
     ) -> Result<()> {
-        let mut prev_trn_line: Option<&table::TransactionLine> = None;
-
         for trn_line in &trn_lines {
-            if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
-                    // There have been blank lines, this is probably the end of
-                    // the transactions.
-                    break;
-                }
-            }
-
             acc.feed_line(trn_line)
                 .with_context(|| format!("for transaction line {}", trn_line))?;
-
-            prev_trn_line = Some(trn_line);
         }
 
         Ok(())
@@ -456,6 +444,8 @@ mod table {
             let mut trn_lines = Vec::<TransactionLine>::new();
             let mut date_parts: chrono::format::Parsed = Default::default();
             let mut date: Option<NaiveDate> = None;
+            // Previous line, once there have been transaction lines.
+            let mut prev_line: Option<&Line> = None;
             // Skip lines up to and including the line that contains the header
             // that we already found.
             for line in self
@@ -464,6 +454,17 @@ mod table {
                 .iter()
                 .skip(self.columns.header_line_idx + 1)
             {
+                if let Some(prev_line) = prev_line {
+                    let next_top = prev_line
+                        .top
+                        .saturating_add(prev_line.height.saturating_mul(2));
+                    if line.top > next_top {
+                        // There have been blank lines, this is probably the end
+                        // of the transactions.
+                        break;
+                    }
+                }
+
                 match self
                     .columns
                     .update_date_from_line(&mut date_parts, &mut date, line)?
@@ -483,12 +484,14 @@ mod table {
                                 payment: self.columns.payments.join_words_in(line),
                                 receipt: self.columns.receipts.join_words_in(line),
                                 balance: self.columns.balance.join_words_in(line),
-                                top: line.top,
-                                height: line.height,
                             });
                         }
                     }
                 }
+
+                if !trn_lines.is_empty() {
+                    prev_line = Some(line);
+                }
             }
             Ok(trn_lines)
         }
@@ -514,10 +517,6 @@ mod table {
         pub payment: Option<String>,
         pub receipt: Option<String>,
         pub balance: Option<String>,
-
-        // Spatial position of the line on the page.
-        pub top: i32,
-        pub height: i32,
     }
 
     impl fmt::Display for TransactionLine {
-- 
2.43.0


From 9a305f6d9fdbc79a55ad303a90e54c9f87a44346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 17/24] fix: do not overflow on out-of-range OCR word positions

---
 src/importers/tesseract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 4a67b29..f26bda3 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -259,7 +259,7 @@ impl Word {
     pub fn horiz_bounds(&self) -> Bounds {
         Bounds {
             min: self.left,
-            max: self.left + self.width,
+            max: self.left.saturating_add(self.width),
         }
     }
 }
-- 
2.43.0


From ac79e58f6d5b572c0645d6aebe958baab8ae6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 18/24] fix: keep counting PDF transactions of a date after a
 continuation line without date

---
 src/importers/nationwide_pdf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 0ecbe9a..a6586cf 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -255,7 +255,10 @@ impl TransactionsAccumulator {
             }
         }
 
-        self.prev_date = trn_line.implied_date;
+        // Continuation lines at the top of a table have no date.
+        if trn_line.implied_date.is_some() {
+            self.prev_date = trn_line.implied_date;
+        }
 
         let cur_trn: &mut TransactionBuilder = if let Some(cur_trn) = &mut self.cur_trn_opt {
             cur_trn
-- 
2.43.0


From 157be0b8d0746d543e31a6527575f5650cd17e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 19/24] fix: reject PayPal statements without the expected
 columns, even without rows

---
 src/importers/paypal_csv.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index ab49485..037ef4f 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -22,6 +22,19 @@ const TRANSACTION_NAME_TAG: &str = "trn_name";
 /// Transaction type field, provided by PayPal.
 const TRANSACTION_TYPE_TAG: &str = "trn_type";
 
+/// CSV columns that must be present, even if the statement has no rows.
+const REQUIRED_COLUMNS: &[&str] = &[
+    "Date",
+    "Time",
+    "Time zone",
+    "Name",
+    "Type",
+    "Status",
+    "Currency",
+    "Amount",
+    "Balance",
+];
+
 #[derive(Debug, Args)]
 /// Converts from PayPal CSV format to Ledger transactions.
 pub struct PaypalCsv {
@@ -48,6 +61,11 @@ impl TransactionImporter for PaypalCsv {
             .trim(csv::Trim::All)
             .from_reader(self.input.reader()?);
         let headers = csv_rdr.headers()?.clone();
+        for column in REQUIRED_COLUMNS {
+            if !headers.iter().any(|header| header == *column) {
+                bail!("bad input structure: missing CSV column {:?}", column);
+            }
+        }
         let mut csv_records = csv_rdr.records();
 
         let tz_abbrs = TzAbbrDB::from_reader(self.timezone_abbr_file.reader()?)?;
-- 
2.43.0


From ad2ca70d80162af5f353c17cb12574660dce6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 20/24] fix: reject imported dates that a journal cannot hold

The statement importers accept years beyond 9999 or before 0, but such a
date cannot be read back from the journal that is written.
---
 src/importers/cmd.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/importers/cmd.rs b/src/importers/cmd.rs
index d76a579..bb584af 100644
--- a/src/importers/cmd.rs
+++ b/src/importers/cmd.rs
@@ -1,4 +1,5 @@
 use anyhow::{anyhow, bail, Result};
+use chrono::Datelike;
 use clap::{Args, Subcommand};
 
 use crate::filespec::{self, FileSpec};
@@ -61,6 +62,14 @@ pub struct Command {
 impl Command {
     pub fn run(&self) -> Result<()> {
         let import = self.importer.do_import()?;
+        for trn in &import.transactions {
+            for date in std::iter::once(trn.date).chain(trn.effective_date) {
+                // Journals have years of exactly four digits.
+                if !(0..=9999).contains(&date.year()) {
+                    bail!("date {} cannot be represented in a journal", date);
+                }
+            }
+        }
         let output = if !self.substitute_output_path {
             self.output.clone()
         } else {
-- 
2.43.0


From a3b5df0f469176e2b52c99e2925dd25cd061730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 21/24] fix: reject PDF statement amounts with misplaced commas
 or underscores

---
 src/importers/nationwide_pdf.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a6586cf..d42446d 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -395,11 +395,16 @@ impl TransactionBuilder {
 }
 
 fn parse_amount(s: &str) -> Result<Amount> {
-    let quantity = if s.contains(',') {
-        Decimal::from_str(&s.replace(',', ""))?
-    } else {
-        Decimal::from_str(s)?
-    };
+    lazy_static! {
+        // Commas only separate thousands, as elsewhere they may be a misread
+        // decimal point. `Decimal` would also accept underscores.
+        static ref AMOUNT_RX: Regex =
+            Regex::new(r"^[-+]?(?:[0-9]*|[0-9]{1,3}(?:,[0-9]{3})+)(?:\.[0-9]*)?$").unwrap();
+    }
+    if !AMOUNT_RX.is_match(s) {
+        bail!("bad amount {:?}", s);
+    }
+    let quantity = Decimal::from_str(&s.replace(',', ""))?;
     Ok(Amount {
         quantity,
         commodity: ledger_parser::Commodity {
-- 
2.43.0


From ba5f3632df6c4b69d19c44c2d84ab9a1a30a89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 22/24] fix: reject PayPal amounts with underscores

---
 src/importers/paypal_csv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 037ef4f..e3d93f2 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -299,6 +299,10 @@ mod de {
     /// dropping trailing zeroes.
     fn deserialize_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
         let s = String::deserialize(d)?;
+        if s.contains('_') {
+            // `Decimal` would ignore these.
+            return Err(de::Error::custom("unexpected underscore in decimal"));
+        }
         Decimal::from_str_exact(&s)
             .map(|v| v.normalize())
             .map_err(de::Error::custom)
-- 
2.43.0


From e3307357fc7f91af897d59bdd7e0485db32d33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 23/24] fix: reject PayPal times with a second 60

---
 src/importers/paypal_csv.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index e3d93f2..24940db 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -264,7 +264,7 @@ fn deserialize_row(
 mod de {
     use std::fmt;
 
-    use chrono::{NaiveDate, NaiveTime};
+    use chrono::{NaiveDate, NaiveTime, Timelike};
 
     use ledger_parser::TransactionStatus;
     use rust_decimal::Decimal;
@@ -367,9 +367,12 @@ mod de {
         }
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S")
-                .map(Time)
-                .map_err(de::Error::custom)
+            let time = NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(de::Error::custom)?;
+            if time.nanosecond() >= 1_000_000_000 {
+                // `chrono` takes second 60 of any minute for a leap second.
+                return Err(de::Error::custom("seconds out of range"));
+            }
+            Ok(Time(time))
         }
     }
 }
-- 
2.43.0


From d975d6cb2e1cd50fc234ca8b7eff281ccb61cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 24/24] fix: reject PDF payment and receipt lines without
 details

---
 src/importers/nationwide_pdf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index d42446d..8977b85 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -485,14 +485,18 @@ mod table {
                     _ => {
                         // Lines that start with day and month or nothing at all
                         // can be part of a transaction.
+                        let payment = self.columns.payments.join_words_in(line);
+                        let receipt = self.columns.receipts.join_words_in(line);
                         if let Some(detail) = self.columns.details.join_words_in(line) {
                             trn_lines.push(TransactionLine {
                                 implied_date: date,
                                 detail,
-                                payment: self.columns.payments.join_words_in(line),
-                                receipt: self.columns.receipts.join_words_in(line),
+                                payment,
+                                receipt,
                                 balance: self.columns.balance.join_words_in(line),
                             });
+                        } else if let Some(amount) = payment.or(receipt) {
+                            bail!("transaction line has the amount {:?} but no details", amount);
                         }
                     }
                 }
-- 
2.43.0

