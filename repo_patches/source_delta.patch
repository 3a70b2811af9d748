From df5c11f2ee64714581d28d43b0c8e7b7d166c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 01/20] Add a cfg-guarded serve mode for verification harnesses

---
 src/main.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e002bf0..844c7ac 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,6 @@
+// For cfg(accountmerge_verif), see `mod verif`.
+#![allow(unexpected_cfgs)]
+
 use anyhow::Result;
 use clap::{Parser, Subcommand};
 
@@ -48,7 +51,15 @@ enum SubCommand {
 }
 
 fn main() -> Result<()> {
-    let cmd = Command::parse();
+    #[cfg(accountmerge_verif)]
+    if let Some(path) = std::env::var_os("ACCOUNTMERGE_VERIF_SOCK") {
+        return verif::serve(std::path::Path::new(&path));
+    }
+
+    run(Command::parse())
+}
+
+fn run(cmd: Command) -> Result<()> {
     use SubCommand::*;
     match cmd.subcmd {
         ApplyRules(cmd) => cmd.run(),
@@ -58,3 +69,44 @@ fn main() -> Result<()> {
         Merge(cmd) => cmd.run(),
     }
 }
+
+/// Verification hook, only compiled with `--cfg accountmerge_verif`: runs many
+/// command lines in a single process, so that an explorer does not pay for a
+/// process start per execution. Each request is a line of tab-separated
+/// command arguments, each reply is a status line.
+#[cfg(accountmerge_verif)]
+mod verif {
+    use std::io::{BufRead, BufReader, Write};
+    use std::os::unix::net::UnixStream;
+
+    use anyhow::Result;
+    use clap::Parser;
+
+    pub fn serve(path: &std::path::Path) -> Result<()> {
+        let mut stream = UnixStream::connect(path)?;
+        let mut requests = BufReader::new(stream.try_clone()?);
+        let mut line = String::new();
+        while requests.read_line(&mut line)? != 0 {
+            let args: Vec<String> = std::iter::once("accountmerge")
+                .chain(line.trim_end_matches('\n').split('\t'))
+                .map(str::to_string)
+                .collect();
+            line.clear();
+            // A new thread per request has its own hash seeds and stack, as a
+            // new process would.
+            let outcome = std::thread::Builder::new()
+                .stack_size(8 << 20)
+                .spawn(move || match super::Command::try_parse_from(args) {
+                    Ok(cmd) => match super::run(cmd) {
+                        Ok(()) => "ok".to_string(),
+                        Err(e) => format!("err {:?}", e),
+                    },
+                    Err(e) => format!("usage {}", e),
+                })?
+                .join()
+                .unwrap_or_else(|_| "panic".to_string());
+            writeln!(stream, "{}", outcome.replace('\n', "\u{1}"))?;
+        }
+        Ok(())
+    }
+}
-- 
2.43.0


From 093567544b01378400547a0c4f1dd583b766bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 02/20] fix: choose the primary fingerprint deterministically

A posting with several fingerprints had its candidate- tag in the unmerged
output built from whichever one the hash set happened to yield first, so
the output differed between runs on the same input.
---
 src/merge/posting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 003693f..80febee 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -318,8 +318,9 @@ fn merge(dest: &mut PostingInternal, mut src: PostingInternal) {
 }
 
 fn primary_fingerprint(comment: &Comment) -> &str {
+    // Tags have no inherent order, so pick one deterministically.
     fingerprints_from_comment(comment)
-        .next()
+        .min()
         .expect("must always have a fingerprint tag")
 }
 
-- 
2.43.0


From 89da72c5c713bf2b94bbca9bcc1c363af3aa4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 03/20] fix: validate chain jumps nested in All actions

A jump to a missing chain inside All([...]) was only reported when (and if)
a posting reached it, unlike the same jump outside of All.
---
 src/rules/table/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..d1b3b03 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -245,6 +245,7 @@ impl Action {
         use Action::*;
 
         match self {
+            All(actions) => actions.iter().try_for_each(|a| a.validate(table)),
             JumpChain(name) => table.get_chain(name).map(|_| ()),
             _ => Ok(()),
         }
-- 
2.43.0


From fb7d8a9ba14c545baa0e860839e0a851004d05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 04/20] fix: reject malformed monetary values in Nationwide CSV
 files
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The unanchored pattern accepted values such as "-£1.23" (read as +1.23),
"£1.5" (read as 1.05) and "£1.234" (read as 3.34), and large values
overflowed.
---
 src/importers/nationwide_csv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..d099ac9 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -478,7 +478,7 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)([0-9]+)\.([0-9]{2})$").unwrap();
             }
             let captures = RE
                 .captures(s)
@@ -486,7 +486,11 @@ mod de {
             let is_negative: bool = captures.get(1).unwrap().as_str() == "-";
             let pounds: i64 = deserialize_captured_number(&captures, 2)?;
             let pence: i64 = deserialize_captured_number(&captures, 3)?;
-            let mut quantity = Decimal::new(pounds * 100 + pence, 2);
+            let total_pence = pounds
+                .checked_mul(100)
+                .and_then(|v| v.checked_add(pence))
+                .ok_or_else(|| de::Error::custom("monetary value is out of range"))?;
+            let mut quantity = Decimal::new(total_pence, 2);
             quantity.set_sign_negative(is_negative);
             Ok(GbpValue(Amount {
                 commodity: Commodity {
-- 
2.43.0


From a0fe45418afff5fe877c2128c9899acd118c5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 05/20] fix: report failure of the PDF conversion and OCR
 commands

Their exit statuses were ignored, so a statement that was only partially
converted was imported as if it was complete.
---
 src/importers/nationwide_pdf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..7289275 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -98,10 +98,13 @@ impl NationwidePdf {
                 png_fmt.as_os_str(),
             ];
 
-            Command::new(self.graphics_magic_binary.as_os_str())
+            let status = Command::new(self.graphics_magic_binary.as_os_str())
                 .args(gm_args)
                 .status()
                 .context("converting PDF into PNG files")?;
+            if !status.success() {
+                bail!("converting PDF into PNG files: {}", status);
+            }
         }
 
         let png_list_file_path = tmpdir.path().join("png-files.txt");
@@ -137,10 +140,13 @@ impl NationwidePdf {
                 // Configuration to use (i.e output format).
                 "tsv".as_ref(),
             ];
-            Command::new(self.tesseract_binary.as_os_str())
+            let status = Command::new(self.tesseract_binary.as_os_str())
                 .args(tess_args)
                 .status()
                 .context("performing OCR on PNG files")?;
+            if !status.success() {
+                bail!("performing OCR on PNG files: {}", status);
+            }
         }
 
         {
-- 
2.43.0


From beef3bc908408cd0773c347ecf07a37fa0a8a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 06/20] fix: soft match against the date of the destination
 transaction

A posting that joined an existing transaction with another date (because a
sibling matched by fingerprint) was soft matched under the date of the
transaction it came from, rather than that of its parent transaction.
---
 src/merge/merger.rs  |  3 ++-
 src/merge/posting.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/merge/merger.rs b/src/merge/merger.rs
index 1dce4f5..b9da7cb 100644
--- a/src/merge/merger.rs
+++ b/src/merge/merger.rs
@@ -148,7 +148,8 @@ impl Merger {
         for (post, action) in post_actions {
             match action {
                 PostingMergeAction::New => {
-                    let post_idx = self.posts.add(post, dest_trn_idx)?;
+                    let date = self.trns.get(dest_trn_idx).trn.raw.date;
+                    let post_idx = self.posts.add(post, dest_trn_idx, date)?;
                     self.trns.add_post_to_trn(dest_trn_idx, post_idx);
                 }
                 PostingMergeAction::MergeIntoExisting(dest_post_idx) => {
diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 80febee..410292a 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -51,16 +51,22 @@ impl IndexedPostings {
     }
 
     /// Adds a new posting, updating the fingerprint index.
-    pub fn add(&mut self, input: Input, parent_trn: transaction::Index) -> Result<Index> {
+    /// `date` is the date of the parent transaction.
+    pub fn add(
+        &mut self,
+        input: Input,
+        parent_trn: transaction::Index,
+        date: NaiveDate,
+    ) -> Result<Index> {
         #![allow(clippy::needless_collect)] // Collect because `input` is moved into Holder::from_input.
         let fingerprints: Vec<String> = fingerprints_from_comment(&input.posting.comment)
             .map(str::to_string)
             .collect();
-        let (holder, trn_date) = Holder::from_input(input, parent_trn);
+        let (holder, _) = Holder::from_input(input, parent_trn);
         let idx = self.post_arena.insert(holder);
         self.register_fingerprints(fingerprints.into_iter(), idx)?;
 
-        self.posts_by_date.entry(trn_date).or_default().push(idx);
+        self.posts_by_date.entry(date).or_default().push(idx);
         Ok(idx)
     }
 
-- 
2.43.0


From 062f8c91f5cdd2ce368a81c17709ef64fe1b0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 07/20] fix: read cleared postings as postings rather than
 comments

ledger_parser takes indented lines starting with "*" as comments, so every
command that reads a journal silently lost the cleared postings in it, such
as those written by the PayPal importer.
---
 src/filespec.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index bcb45c3..b4d7905 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -8,7 +8,9 @@ use std::path::PathBuf;
 use std::str::FromStr;
 
 use anyhow::{Context, Error, Result};
-use ledger_parser::Ledger;
+use lazy_static::lazy_static;
+use ledger_parser::{Ledger, LedgerItem, TransactionStatus};
+use regex::{Captures, Regex};
 
 /// Specifies a file to read from to write to (depending on context).
 #[derive(Clone, Debug)]
@@ -73,7 +75,43 @@ pub fn read_file(file_spec: &FileSpec) -> Result<String> {
 
 pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
     let content: String = read_file(file_spec)?;
-    ledger_parser::parse(&content).map_err(Into::into)
+    parse_ledger(&content)
+}
+
+/// Parses a journal, with cleared postings.
+///
+/// `ledger_parser` takes an indented line that starts with "*" to be a comment
+/// on what precedes it. Have it parse those postings as pending, and then mark
+/// them as cleared.
+fn parse_ledger(content: &str) -> Result<Ledger> {
+    lazy_static! {
+        static ref POSTING_STATUS_RX: Regex = Regex::new(r"(?m)^([ \t]+)([*!])").unwrap();
+    }
+
+    let mut are_cleared = Vec::<bool>::new();
+    let content = POSTING_STATUS_RX.replace_all(content, |captures: &Captures| {
+        are_cleared.push(&captures[2] == "*");
+        format!("{}!", &captures[1])
+    });
+
+    let mut ledger = ledger_parser::parse(&content)?;
+
+    let pending_posts = ledger
+        .items
+        .iter_mut()
+        .filter_map(|item| match item {
+            LedgerItem::Transaction(trn) => Some(&mut trn.postings),
+            _ => None,
+        })
+        .flatten()
+        .filter(|post| post.status == Some(TransactionStatus::Pending));
+    for (post, is_cleared) in pending_posts.zip(are_cleared) {
+        if is_cleared {
+            post.status = Some(TransactionStatus::Cleared);
+        }
+    }
+
+    Ok(ledger)
 }
 
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
-- 
2.43.0


From fac9451e95faa415abc04821948bdb85a025f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 08/20] fix: report endless rule chain jumps as an error

Chains that jump to themselves or to each other overflowed the stack, which
ended the process with a signal rather than with an error message.
---
 src/rules/table/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index d1b3b03..94245a4 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::path::PathBuf;
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use clap::Args;
 use serde_derive::Deserialize;
 
@@ -18,6 +18,10 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
+/// Limits how deeply chain jumps can nest, to report chains that endlessly
+/// jump to each other.
+const MAX_JUMP_DEPTH: usize = 250;
+
 fn load_from_path(path: &std::path::Path) -> Result<Table> {
     let rf = source::File::from_path(path)?;
     let table = rf.load()?;
@@ -77,7 +81,7 @@ impl Table {
                 trn: &mut trn.trn,
                 post,
             };
-            start.apply(self, &mut ctx)?;
+            start.apply(self, &mut ctx, 0)?;
         }
         Ok(trn)
     }
@@ -114,9 +118,9 @@ impl Chain {
         Self(rules)
     }
 
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         for rule in &self.0 {
-            match rule.apply(table, ctx)? {
+            match rule.apply(table, ctx, depth)? {
                 RuleResult::Continue => {}
                 RuleResult::Return => break,
             }
@@ -140,9 +144,9 @@ pub struct Rule {
 }
 
 impl Rule {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<RuleResult> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<RuleResult> {
         if self.predicate.is_match(ctx) {
-            self.action.apply(table, ctx)?;
+            self.action.apply(table, ctx, depth)?;
             Ok(self.result)
         } else {
             Ok(RuleResult::Continue)
@@ -179,7 +183,7 @@ enum Action {
 }
 
 impl Action {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         use Action::*;
 
         match self {
@@ -203,7 +207,7 @@ impl Action {
             }
             All(actions) => {
                 for action in actions {
-                    action.apply(table, ctx)?;
+                    action.apply(table, ctx, depth)?;
                 }
             }
             Error(err_msg) => {
@@ -216,7 +220,13 @@ impl Action {
             }
             Noop => {}
             JumpChain(name) => {
-                table.get_chain(name)?.apply(table, ctx)?;
+                if depth >= MAX_JUMP_DEPTH {
+                    bail!(
+                        "chain {} jumped to too deeply, do chains jump to each other endlessly?",
+                        name
+                    );
+                }
+                table.get_chain(name)?.apply(table, ctx, depth + 1)?;
             }
             SetAccount(v) => {
                 ctx.post.raw.account = v.clone();
-- 
2.43.0


From a53572a83335122285d4f13dc9add13ce0cd6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 09/20] fix: reject Nationwide CSV rows with a wrong number of
 columns

---
 src/importers/nationwide_csv.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index d099ac9..dfe89a1 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -132,6 +132,14 @@ impl NationwideCsv {
 
         for result in csv_records {
             let str_record = result?;
+            if str_record.len() != T::NUM_COLUMNS {
+                bail!(
+                    "bad file format: want {} columns in transaction, got {}: {:?}",
+                    T::NUM_COLUMNS,
+                    str_record.len(),
+                    str_record
+                );
+            }
             let record: T = str_record.deserialize(None)?;
 
             // Maintain the per-date counter. Include a sequence number to each
@@ -169,6 +177,9 @@ impl NationwideCsv {
 }
 
 pub trait PostingFormer {
+    /// Number of columns in each transaction record.
+    const NUM_COLUMNS: usize;
+
     fn date(&self) -> NaiveDate;
     fn description(&self) -> String;
     fn form_postings(
@@ -181,6 +192,8 @@ pub trait PostingFormer {
 }
 
 impl PostingFormer for RecordFive {
+    const NUM_COLUMNS: usize = 5;
+
     fn date(&self) -> NaiveDate {
         self.date.0
     }
@@ -254,6 +267,8 @@ impl PostingFormer for RecordFive {
 }
 
 impl PostingFormer for RecordSix {
+    const NUM_COLUMNS: usize = 6;
+
     fn date(&self) -> NaiveDate {
         self.date.0
     }
-- 
2.43.0


From 14496558bd547ff0d135a289cc0326007f6c6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 10/20] fix: reject CSV dates without a four digit year

---
 src/importers/nationwide_csv.rs |  4 ++--
 src/importers/paypal_csv.rs     |  4 +++-
 src/importers/util.rs           | 17 +++++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index dfe89a1..abb25f1 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -347,7 +347,7 @@ mod de {
 
     use crate::fingerprint::{Accumulator, FingerprintBuilder, Fingerprintable};
     use crate::importers::util::{
-        self_and_peer_fingerprints, FingerprintHalves, TransactionHalves,
+        parse_date, self_and_peer_fingerprints, FingerprintHalves, TransactionHalves,
     };
 
     /// Contains the directly deserialized values from the five-column
@@ -462,7 +462,7 @@ mod de {
         }
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
-            NaiveDate::parse_from_str(s, "%d %b %Y")
+            parse_date(s, "%d %b %Y")
                 .map(Date)
                 .map_err(de::Error::custom)
         }
diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3b7fd20..c840bbd 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -253,6 +253,8 @@ mod de {
     use serde::{de, Deserialize, Deserializer};
     use serde_derive::Deserialize;
 
+    use crate::importers::util::parse_date;
+
     #[derive(Deserialize)]
     pub struct Record {
         #[serde(rename = "Date")]
@@ -295,7 +297,7 @@ mod de {
         }
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
-            NaiveDate::parse_from_str(s, "%d/%m/%Y")
+            parse_date(s, "%d/%m/%Y")
                 .map(Date)
                 .map_err(de::Error::custom)
         }
diff --git a/src/importers/util.rs b/src/importers/util.rs
index 368ff0d..ea68ba4 100644
--- a/src/importers/util.rs
+++ b/src/importers/util.rs
@@ -1,8 +1,25 @@
+use anyhow::{bail, Result};
+use chrono::NaiveDate;
+use lazy_static::lazy_static;
 use ledger_parser::Amount;
+use regex::Regex;
 
 use crate::accounts::{EXPENSES_UNKNOWN, INCOME_UNKNOWN};
 use crate::fingerprint::{Fingerprint, FingerprintBuilder};
 
+/// Parses a date whose format ends with a year. Unlike
+/// `NaiveDate::parse_from_str`, this requires the year to have exactly four
+/// digits and no sign.
+pub fn parse_date(s: &str, fmt: &str) -> Result<NaiveDate> {
+    lazy_static! {
+        static ref RE: Regex = Regex::new(r"[^-+0-9][0-9]{4}$").unwrap();
+    }
+    if !RE.is_match(s) {
+        bail!("want four digit year in date {:?}", s);
+    }
+    Ok(NaiveDate::parse_from_str(s, fmt)?)
+}
+
 pub fn negate_amount(amt: Amount) -> Amount {
     Amount {
         quantity: -amt.quantity,
-- 
2.43.0


From e6aca931cacffaa2f63fb63f61c5b4e651b62e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 11/20] fix: read PayPal CSV amounts exactly

---
 src/importers/paypal_csv.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index c840bbd..c2ff013 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -271,14 +271,35 @@ mod de {
         pub status: Status,
         #[serde(rename = "Currency")]
         pub currency: String,
-        #[serde(rename = "Amount")]
+        #[serde(rename = "Amount", deserialize_with = "deserialize_decimal")]
         pub amount: Decimal,
         #[serde(rename = "Receipt ID")]
         pub receipt_id: Option<String>,
-        #[serde(rename = "Balance")]
+        #[serde(rename = "Balance", deserialize_with = "deserialize_decimal")]
         pub balance: Decimal,
     }
 
+    /// Deserializes a decimal number exactly, without the detour via floating
+    /// point that CSV number inference takes.
+    fn deserialize_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
+        d.deserialize_str(DecimalVisitor)
+    }
+
+    struct DecimalVisitor;
+    impl<'de> de::Visitor<'de> for DecimalVisitor {
+        type Value = Decimal;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
+            formatter.write_str("a decimal number")
+        }
+
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            Decimal::from_str_exact(s)
+                .map(|quantity| quantity.normalize())
+                .map_err(de::Error::custom)
+        }
+    }
+
     #[derive(Debug)]
     pub struct Date(pub NaiveDate);
 
-- 
2.43.0


From 01db12240f1fc334115884d43a84ab5f76033adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 12/20] fix: read quotes in OCR output as text

---
 src/importers/tesseract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..ff58e4f 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -38,6 +38,8 @@ impl Document {
         let r = csv::ReaderBuilder::new()
             .delimiter(b'\t')
             .has_headers(true)
+            // Tesseract does not quote fields. Quotes are part of the text.
+            .quoting(false)
             .trim(csv::Trim::All)
             .from_reader(reader);
 
-- 
2.43.0


From fc1bbb776ffd7ef70276f78c6e69aa11e11acbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 13/20] fix: keep transactions after a year line in PDF
 statements

---
 src/importers/nationwide_pdf.rs | 43 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 7289275..25c48dd 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -162,21 +162,15 @@ impl NationwidePdf {
         acc: &mut TransactionsAccumulator,
         trn_lines: Vec<table::TransactionLine>,
     ) -> Result<()> {
-        let mut prev_trn_line: Option<&table::TransactionLine> = None;
-
         for trn_line in &trn_lines {
-            if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
-                    // There have been blank lines, this is probably the end of
-                    // the transactions.
-                    break;
-                }
+            if trn_line.follows_gap {
+                // There have been blank lines, this is probably the end of
+                // the transactions.
+                break;
             }
 
             acc.feed_line(trn_line)
                 .with_context(|| format!("for transaction line {}", trn_line))?;
-
-            prev_trn_line = Some(trn_line);
         }
 
         Ok(())
@@ -456,6 +450,10 @@ mod table {
             let mut trn_lines = Vec::<TransactionLine>::new();
             let mut date_parts: chrono::format::Parsed = Default::default();
             let mut date: Option<NaiveDate> = None;
+            // Top and height of the previous line in the table. Lines that
+            // specify a year count, other than before the first transaction
+            // line.
+            let mut prev_position: Option<(i32, i32)> = None;
             // Skip lines up to and including the line that contains the header
             // that we already found.
             for line in self
@@ -472,6 +470,11 @@ mod table {
                         // A transaction will not start on this line.
                         // Lines starting with years only specify the year, and
                         // maybe a carry-over balance.
+                        if let Some((prev_top, prev_height)) = prev_position {
+                            if !is_gap(prev_top, prev_height, line.top) {
+                                prev_position = Some((line.top, line.height));
+                            }
+                        }
                     }
                     _ => {
                         // Lines that start with day and month or nothing at all
@@ -483,9 +486,13 @@ mod table {
                                 payment: self.columns.payments.join_words_in(line),
                                 receipt: self.columns.receipts.join_words_in(line),
                                 balance: self.columns.balance.join_words_in(line),
-                                top: line.top,
-                                height: line.height,
+                                follows_gap: prev_position.is_some_and(
+                                    |(prev_top, prev_height)| {
+                                        is_gap(prev_top, prev_height, line.top)
+                                    },
+                                ),
                             });
+                            prev_position = Some((line.top, line.height));
                         }
                     }
                 }
@@ -515,9 +522,15 @@ mod table {
         pub receipt: Option<String>,
         pub balance: Option<String>,
 
-        // Spatial position of the line on the page.
-        pub top: i32,
-        pub height: i32,
+        // Whether there is a large gap between the previous line of the table
+        // and this one.
+        pub follows_gap: bool,
+    }
+
+    /// Returns true if there are blank lines between a line at `prev_top` with
+    /// height `prev_height`, and the next line at `top`.
+    fn is_gap(prev_top: i32, prev_height: i32, top: i32) -> bool {
+        top > prev_top + prev_height * 2
     }
 
     impl fmt::Display for TransactionLine {
-- 
2.43.0


From 79d92c6e801a62b23018adae5fe282317fc1bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 14/20] fix: do not overflow on extreme OCR coordinates

---
 src/importers/nationwide_pdf.rs | 2 +-
 src/importers/tesseract.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 25c48dd..d073f9b 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -530,7 +530,7 @@ mod table {
     /// Returns true if there are blank lines between a line at `prev_top` with
     /// height `prev_height`, and the next line at `top`.
     fn is_gap(prev_top: i32, prev_height: i32, top: i32) -> bool {
-        top > prev_top + prev_height * 2
+        i64::from(top) > i64::from(prev_top) + i64::from(prev_height) * 2
     }
 
     impl fmt::Display for TransactionLine {
diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index ff58e4f..c0c04c8 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -260,7 +260,7 @@ impl Word {
     pub fn horiz_bounds(&self) -> Bounds {
         Bounds {
             min: self.left,
-            max: self.left + self.width,
+            max: self.left.saturating_add(self.width),
         }
     }
 }
-- 
2.43.0


From 13e4feb35c09ad4933fff358a43f8a668162bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 15/20] fix: do not panic on journals with lines of white
 space, or without a final newline

---
 src/filespec.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index b4d7905..039bfd2 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -7,7 +7,7 @@ use std::io::{stdin, stdout, Read, Write};
 use std::path::PathBuf;
 use std::str::FromStr;
 
-use anyhow::{Context, Error, Result};
+use anyhow::{bail, Context, Error, Result};
 use lazy_static::lazy_static;
 use ledger_parser::{Ledger, LedgerItem, TransactionStatus};
 use regex::{Captures, Regex};
@@ -88,8 +88,9 @@ fn parse_ledger(content: &str) -> Result<Ledger> {
         static ref POSTING_STATUS_RX: Regex = Regex::new(r"(?m)^([ \t]+)([*!])").unwrap();
     }
 
+    let content = avoid_parser_panics(content)?;
     let mut are_cleared = Vec::<bool>::new();
-    let content = POSTING_STATUS_RX.replace_all(content, |captures: &Captures| {
+    let content = POSTING_STATUS_RX.replace_all(&content, |captures: &Captures| {
         are_cleared.push(&captures[2] == "*");
         format!("{}!", &captures[1])
     });
@@ -114,6 +115,36 @@ fn parse_ledger(content: &str) -> Result<Ledger> {
     Ok(ledger)
 }
 
+/// `ledger_parser` panics if a description or account is empty, which it takes
+/// that of a line of white space below a transaction to be, or if it is cut
+/// short by the end of the journal. Returns an equivalent journal without
+/// these, or an error.
+fn avoid_parser_panics(content: &str) -> Result<String> {
+    lazy_static! {
+        static ref BLANK_LINE_RX: Regex = Regex::new(r"(?m)^[ \t]+(\r?)$").unwrap();
+        static ref NO_ACCOUNT_RX: Regex = Regex::new(r"(?m)^[ \t]+[*!]?[ \t]*(?:\r|$)").unwrap();
+        static ref NO_DESCRIPTION_RX: Regex =
+            Regex::new(r"(?m)^[0-9./=-]+(?:[ \t]+[*!])?(?:[ \t]+\([^)]+\))?[ \t]+(?:\r|$)")
+                .unwrap();
+    }
+
+    let mut content = content.to_string();
+    if !content.is_empty() && !content.ends_with('\n') {
+        content.push('\n');
+    }
+    let content = BLANK_LINE_RX.replace_all(&content, "$1");
+
+    for (rx, what) in [
+        (&*NO_ACCOUNT_RX, "posting without account"),
+        (&*NO_DESCRIPTION_RX, "transaction without description"),
+    ] {
+        if let Some(found) = rx.find(&content) {
+            bail!("{}: {:?}", what, found.as_str().trim_end());
+        }
+    }
+    Ok(content.into_owned())
+}
+
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
     let mut f = file_spec.writer()?;
     f.write_all(content.as_bytes())?;
-- 
2.43.0


From d21fd4ecabf422435d02dcc7b68e7df2d2a1dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 16/20] fix: do not write journals that cannot be read back

---
 src/filespec.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/filespec.rs b/src/filespec.rs
index 039bfd2..606cb79 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -153,5 +153,30 @@ pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
 
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
     let content: String = format!("{}", ledger);
+    check_readable(&content, ledger)
+        .with_context(|| format!("result not written to {}", file_spec))?;
     write_file(file_spec, &content)
 }
+
+/// Checks that the serialized form of `ledger` can be read back. This is not so
+/// e.g. if a description is empty or contains a line break, as imports and
+/// rules may produce them.
+fn check_readable(content: &str, ledger: &Ledger) -> Result<()> {
+    fn posting_counts(ledger: &Ledger) -> Vec<usize> {
+        ledger
+            .items
+            .iter()
+            .filter_map(|item| match item {
+                LedgerItem::Transaction(trn) => Some(trn.postings.len()),
+                _ => None,
+            })
+            .collect()
+    }
+
+    let read_back =
+        parse_ledger(content).with_context(|| "result would not be a readable journal")?;
+    if posting_counts(&read_back) != posting_counts(ledger) {
+        bail!("result would be read back as different transactions");
+    }
+    Ok(())
+}
-- 
2.43.0


From 1094f7f42aaccbe6e60c14c9671bd2cf59a01d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:05 +0000
Subject: [PATCH 17/20] fix: quote commodity names in written journals where
 required

---
 src/filespec.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 606cb79..c0b6221 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -9,7 +9,7 @@ use std::str::FromStr;
 
 use anyhow::{bail, Context, Error, Result};
 use lazy_static::lazy_static;
-use ledger_parser::{Ledger, LedgerItem, TransactionStatus};
+use ledger_parser::{Balance, Ledger, LedgerItem, Price, TransactionStatus};
 use regex::{Captures, Regex};
 
 /// Specifies a file to read from to write to (depending on context).
@@ -152,12 +152,51 @@ pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
 }
 
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
-    let content: String = format!("{}", ledger);
+    let content: String = format!("{}", with_quoted_commodities(ledger.clone()));
     check_readable(&content, ledger)
         .with_context(|| format!("result not written to {}", file_spec))?;
     write_file(file_spec, &content)
 }
 
+/// Puts commodity names in quotes where journals require it, which
+/// `ledger_parser` does not do when it writes them.
+fn with_quoted_commodities(mut ledger: Ledger) -> Ledger {
+    fn quote(name: &mut String) {
+        const QUOTED_CHARS: &str = "0123456789{}[]()~`!@#%^&*-=+\\'\",./? ;\t\r\n";
+        if name.contains(|c| QUOTED_CHARS.contains(c)) {
+            *name = format!("\"{}\"", name.replace('"', "\\\""));
+        }
+    }
+    fn quote_price(price: &mut Option<Price>) {
+        if let Some(Price::Unit(amount)) | Some(Price::Total(amount)) = price {
+            quote(&mut amount.commodity.name);
+        }
+    }
+
+    for item in &mut ledger.items {
+        match item {
+            LedgerItem::Transaction(trn) => {
+                for post in &mut trn.postings {
+                    if let Some(amount) = &mut post.amount {
+                        quote(&mut amount.amount.commodity.name);
+                        quote_price(&mut amount.lot_price);
+                        quote_price(&mut amount.price);
+                    }
+                    if let Some(Balance::Amount(amount)) = &mut post.balance {
+                        quote(&mut amount.commodity.name);
+                    }
+                }
+            }
+            LedgerItem::CommodityPrice(price) => {
+                quote(&mut price.commodity_name);
+                quote(&mut price.amount.commodity.name);
+            }
+            _ => {}
+        }
+    }
+    ledger
+}
+
 /// Checks that the serialized form of `ledger` can be read back. This is not so
 /// e.g. if a description is empty or contains a line break, as imports and
 /// rules may produce them.
-- 
2.43.0


From 07e9318793a7d89e34c065953f8730b467413b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:45 +0000
Subject: [PATCH 18/20] fix: reject descriptions that would be read as a code
 over several lines

---
 src/filespec.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/filespec.rs b/src/filespec.rs
index c0b6221..f25c3d5 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -89,6 +89,7 @@ fn parse_ledger(content: &str) -> Result<Ledger> {
     }
 
     let content = avoid_parser_panics(content)?;
+    reject_multiline_codes(&content)?;
     let mut are_cleared = Vec::<bool>::new();
     let content = POSTING_STATUS_RX.replace_all(&content, |captures: &Captures| {
         are_cleared.push(&captures[2] == "*");
@@ -145,6 +146,22 @@ fn avoid_parser_panics(content: &str) -> Result<String> {
     Ok(content.into_owned())
 }
 
+/// `ledger_parser` takes a description that starts with "(" to be a code that
+/// reaches up to the next ")", even if that is in another transaction, and would
+/// silently drop what is in between.
+fn reject_multiline_codes(content: &str) -> Result<()> {
+    lazy_static! {
+        static ref MULTILINE_CODE_RX: Regex =
+            Regex::new(r"(?m)^[0-9./=-]+(?:[ \t]+[*!])?[ \t]+\([^)\n]*\n[^)]*\)").unwrap();
+    }
+
+    if let Some(found) = MULTILINE_CODE_RX.find(content) {
+        let first_line = found.as_str().lines().next().unwrap_or_default();
+        bail!("parenthesis not closed on its line: {:?}", first_line);
+    }
+    Ok(())
+}
+
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
     let mut f = file_spec.writer()?;
     f.write_all(content.as_bytes())?;
-- 
2.43.0


From 35dd71d438fcd559ba755584238cb1f4d0795701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 19/20] fix: find the page images of a PDF whatever characters
 the temporary directory's path has

The path of the temporary directory was part of the glob pattern that the page
images are found by, so that with special characters such as [1] in it
(TMPDIR=/tmp/a[1]) no page was found, and the statement taken for empty.
---
 src/importers/nationwide_pdf.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index d073f9b..0c2093c 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -80,10 +80,11 @@ impl NationwidePdf {
         use std::process::Command;
 
         let tmpdir = tempfile::tempdir().context("creating temporary directory")?;
-        let png_pattern = tmpdir.path().join("page-*.png");
-        let png_pattern_str = png_pattern
+        let tmpdir_str = tmpdir
+            .path()
             .to_str()
             .ok_or_else(|| anyhow!("converting glob path to utf-8 string"))?;
+        let png_pattern_str = format!("{}/page-*.png", glob::Pattern::escape(tmpdir_str));
 
         {
             let png_fmt = tmpdir.path().join("page-%02d.png");
@@ -112,7 +113,7 @@ impl NationwidePdf {
             use std::io::Write;
             let mut png_list_file =
                 File::create(&png_list_file_path).context("creating file to list PNG files")?;
-            let png_glob = glob::glob(png_pattern_str).context("globbing for PNG files")?;
+            let png_glob = glob::glob(&png_pattern_str).context("globbing for PNG files")?;
             for png_path_result in png_glob {
                 let png_path = png_path_result?;
                 let png_path_str = png_path
-- 
2.43.0


From 85cce07d4cd3156e398d1987748879bf1794b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 20/20] fix: keep the pages of a PDF in order when there are
 more than a hundred

Page images were numbered with two digits and then taken in alphabetical
order, so that page 101 came before page 11.
---
 src/importers/nationwide_pdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 0c2093c..5001ad2 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -87,7 +87,7 @@ impl NationwidePdf {
         let png_pattern_str = format!("{}/page-*.png", glob::Pattern::escape(tmpdir_str));
 
         {
-            let png_fmt = tmpdir.path().join("page-%02d.png");
+            let png_fmt = tmpdir.path().join("page-%06d.png");
             let gm_args: [&OsStr; 6] = [
                 "convert".as_ref(),
                 // DPI of the PNG files.
-- 
2.43.0

