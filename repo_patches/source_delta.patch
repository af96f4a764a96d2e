From 2dfa05fd8ae59000461361f18502bed227324729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 01/38] fix: carry the request id in error answers to parser.*
 requests

---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From eba70cf77416450981fc5a09db7f564ad36a74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 02/38] fix: a rejected reopening of a closed account leaves it
 closed

---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..ba984b5 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -576,12 +576,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From 22fa88fb221b0c58938acb4ca5d652e6ed2d0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 03/38] fix: report a pad whose source account is not open
 instead of panicking

---
 rust/src/api/booking/accumulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index ba984b5..fddd482 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -661,6 +661,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         ),
         IndexedReport,
     > {
+        self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
         let unused_pad = account.pad.take();
-- 
2.43.0


From b87c8cebfa9ecddc603f71083b8cae0b626d7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 04/38] fix: report a pad which would post a currency its
 source account disallows

---
 rust/src/api/booking/accumulator.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index fddd482..6cf6556 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -409,6 +409,20 @@ impl<'a, 't> Accumulator<'a, 't> {
         let account = self.get_mut_valid_account(balance.acc, element)?;
         account.validate_currency(balance.cur, element)?;
 
+        // pad can't last beyond balance
+        let pad = account.pad.take();
+
+        // what a pad takes from its source account must be allowed there too
+        if let (Some(margin), Some((booked_pad_idx, pad_element))) = (margin, pad)
+            && let booked::DirectiveVariant::Pad(pad) = &booked_directives[booked_pad_idx].variant
+            && let Err(e) = self.accounts[pad.source].validate_currency(balance.cur, pad_element)
+        {
+            let account = self.get_mut_valid_account(balance.acc, element)?;
+            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
+            return Err(e);
+        }
+        let account = self.get_mut_valid_account(balance.acc, element)?;
+
         let new_window_end = booked_directives.len();
         let new_window = match account.balance_window.take() {
             Some(old_window) => old_window.end..new_window_end,
@@ -416,9 +430,6 @@ impl<'a, 't> Accumulator<'a, 't> {
         };
         account.balance_window = Some(new_window);
 
-        // pad can't last beyond balance
-        let pad = account.pad.take();
-
         if margin.is_none() {
             // if there was a pad directive, we ought to have used it, so:
             let unused_pad = pad.map(|(_, pad_idx)| pad_idx);
-- 
2.43.0


From 0eb5a66d76c0306bbad343ea3b460b0785e1405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 05/38] fix: diagnose a failed balance from postings in its own
 currency only

---
 rust/src/api/booking/accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 6cf6556..623d663 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -523,7 +523,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
-- 
2.43.0


From c0d207c0ee67d62a3b695aedafb8991d08d08e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 06/38] fix: reject a pad from within the padded account, which
 can't satisfy its balance

---
 rust/src/api/booking/accumulator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 623d663..3e9c280 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -675,6 +675,11 @@ impl<'a, 't> Accumulator<'a, 't> {
         self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
+        // a balance totals the account and its subaccounts, so can't be padded from one of those
+        if is_nonstrict_subaccount(pad.acc, pad.source) {
+            return Err(element.report("source account within padded account"));
+        }
+
         let unused_pad = account.pad.take();
 
         // unused pad directives are errors
-- 
2.43.0


From 86819a735f48a61edbc1b05d0bf01f884574deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 07/38] fix: echo every JSON-RPC string or number id exactly

---
 rust/src/api/json_rpc.rs | 7 +++----
 rust/src/api/server.rs   | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..2f79c7c 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,12 +145,11 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i32),
-    Float(f64),
+    String(Cow<'a, str>),
+    Number(serde_json::Number),
 }
 
 pub(crate) const JSONRPC_VERSION: &str = "2.0";
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..e48644c 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -416,7 +416,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From 139c0fde614f388ac57c2a940871df11b2cb076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 08/38] fix: echo the id of a request which can't be decoded

---
 rust/src/api/json_rpc.rs | 7 +++++++
 rust/src/api/server.rs   | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 2f79c7c..e19d476 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -15,6 +15,13 @@ pub(crate) struct Request<'a> {
     pub(crate) method: RequestMethod<'a>,
 }
 
+/// Just the id, of a [Request] which can't otherwise be decoded
+#[derive(Deserialize, Clone, Debug)]
+pub(crate) struct RequestId<'a> {
+    #[serde(borrow)]
+    pub(crate) id: Option<Id<'a>>,
+}
+
 // TODO RequestMethod should be generic and the actual methods moved out of this module,
 // but the deserialize lifetimes are a bit tricksy
 #[derive(Deserialize, Clone, Debug)]
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index e48644c..d65a939 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -120,7 +120,12 @@ impl<'a> Server<'a> {
         use RequestMethod as Method;
 
         match serde_json::from_str::<Request>(request) {
-            Err(e) => write_other_error(None, ERROR_PARSE, Cow::Owned(e.to_string()), w).unwrap(),
+            Err(e) => {
+                let id = serde_json::from_str::<RequestId>(request)
+                    .ok()
+                    .and_then(|request| request.id);
+                write_other_error(id, ERROR_PARSE, Cow::Owned(e.to_string()), w).unwrap()
+            }
 
             Ok(Request {
                 id,
-- 
2.43.0


From 5c7a933fa41cb3efcc97b2dd05fb08e10b4b9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 09/38] fix: answer a request line which isn't UTF-8 instead of
 exiting

---
 rust/src/api/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index d65a939..391b217 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -105,6 +105,12 @@ impl<'a> Server<'a> {
                     }
                 }
 
+                // not UTF-8, so not JSON either, but that's no reason to give up on the next line
+                Err(e) if e.kind() == io::ErrorKind::InvalidData => {
+                    tracing::error!("<- {}", &e);
+                    write_other_error(None, ERROR_PARSE, Cow::Owned(e.to_string()), w).unwrap()
+                }
+
                 Err(e) => {
                     tracing::error!("<- {}", &e);
                     std::process::exit(1);
-- 
2.43.0


From 0848243852d0890ac5d054709f76b9ce38a4550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 10/38] fix: pass arguments which aren't UTF-8 through the
 launcher

---
 rust/src/bin/limabean/main.rs |  4 ++--
 rust/src/bin/limabean/run.rs  | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/rust/src/bin/limabean/main.rs b/rust/src/bin/limabean/main.rs
index 121fbd8..2b432ed 100644
--- a/rust/src/bin/limabean/main.rs
+++ b/rust/src/bin/limabean/main.rs
@@ -7,9 +7,9 @@ fn main() {
     tracing::subscriber::set_global_default(subscriber).unwrap();
 
     let runtime = Runtime::from_env();
-    let args = std::env::args().collect::<Vec<_>>();
+    let args = std::env::args_os().collect::<Vec<_>>();
 
-    if let Some("health") = args.get(1).map(String::as_str) {
+    if args.get(1).is_some_and(|arg| arg == "health") {
         health::check(&runtime, true);
     } else {
         run::run(&runtime, &args[1..]);
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 1b5eea9..f42398d 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -1,4 +1,7 @@
-use std::{ffi::OsStr, process::Command};
+use std::{
+    ffi::{OsStr, OsString},
+    process::Command,
+};
 
 pub(crate) enum Runtime {
     Java(String),
@@ -65,7 +68,7 @@ impl Runtime {
 
     fn command<S>(&self, args: &[S]) -> Command
     where
-        S: AsRef<str>,
+        S: AsRef<OsStr>,
     {
         use Runtime::*;
 
@@ -88,11 +91,7 @@ impl Runtime {
             }
         };
 
-        cmd.args(
-            args.iter()
-                .map(|s| OsStr::new(s.as_ref()))
-                .collect::<Vec<_>>(),
-        );
+        cmd.args(args);
 
         cmd
     }
@@ -112,7 +111,7 @@ fn run_or_fail(mut cmd: Command) {
     std::process::exit(1);
 }
 
-pub(crate) fn run(runtime: &Runtime, args: &[String]) {
+pub(crate) fn run(runtime: &Runtime, args: &[OsString]) {
     let verbose = args.iter().any(|arg| arg == "-v" || arg == "--verbose");
     let version = args.iter().any(|arg| arg == "--version");
 
-- 
2.43.0


From c3ad75ced892106c54c44298d4943594e7e2e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 11/38] fix: accept an explicit null for the date of a
 cost-spec

---
 rust/src/api/types.rs     | 13 +++++++++++++
 rust/src/api/types/raw.rs |  5 +++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/types.rs b/rust/src/api/types.rs
index e88b795..3968c72 100644
--- a/rust/src/api/types.rs
+++ b/rust/src/api/types.rs
@@ -116,6 +116,19 @@ fn parse_iso8601date(s: &str) -> Result<Date, time::error::Parse> {
 
 time::serde::format_description!(pub(crate) iso8601date, Date, "[year]-[month]-[day]");
 
+/// Deserialize an optional date, where null is as good as absent.
+///
+/// `iso8601date::option` doesn't take the null of a field within a tagged enum.
+pub(crate) fn deserialize_optional_date<'de, D>(deserializer: D) -> Result<Option<Date>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    #[derive(Deserialize)]
+    struct Iso8601Date(#[serde(with = "iso8601date")] Date);
+
+    Ok(Option::<Iso8601Date>::deserialize(deserializer)?.map(|Iso8601Date(date)| date))
+}
+
 pub(crate) mod booked;
 pub(crate) mod booking_type_conversions;
 pub(crate) mod parser_type_conversions;
diff --git a/rust/src/api/types/raw.rs b/rust/src/api/types/raw.rs
index 9289265..ac08599 100644
--- a/rust/src/api/types/raw.rs
+++ b/rust/src/api/types/raw.rs
@@ -7,7 +7,7 @@ use std::{
 use strum_macros;
 use time::Date;
 
-use super::iso8601date;
+use super::{deserialize_optional_date, iso8601date};
 
 /// A Beancount directive of a particular [DirectiveVariant].
 #[derive(Serialize, Deserialize, PartialEq, Eq, Clone, Debug)]
@@ -194,7 +194,8 @@ pub struct CostSpec<'a> {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub(crate) cur: Option<&'a str>,
     #[serde(skip_serializing_if = "Option::is_none")]
-    #[serde(with = "iso8601date::option")]
+    #[serde(serialize_with = "iso8601date::option::serialize")]
+    #[serde(deserialize_with = "deserialize_optional_date")]
     #[serde(default)]
     pub(crate) date: Option<Date>,
     #[serde(skip_serializing_if = "Option::is_none")]
-- 
2.43.0


From 01f0edc8c2279f56ec8af5a0da23ed4d7456c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 12/38] fix: escape the local root within the EDN passed to
 clojure

---
 rust/src/bin/limabean/run.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index f42398d..0a675ff 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -26,6 +26,11 @@ fn warn_uberjar_extra_deps_ignored() {
     );
 }
 
+/// escape as required within an EDN string
+fn edn_escaped(s: &str) -> String {
+    s.replace('\\', r"\\").replace('"', "\\\"")
+}
+
 impl Runtime {
     fn clojure(limabean_coord: String) -> Self {
         Runtime::Clojure(format!(
@@ -44,7 +49,7 @@ impl Runtime {
         if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
             Runtime::clojure(format!(
                 r###"{{:local/root "{}"}}{}"###,
-                &local_root,
+                edn_escaped(&local_root),
                 extra_deps.unwrap_or("".to_string())
             ))
         } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-- 
2.43.0


From bcbce3281f4110f36895662c93195219b24ac3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 13/38] fix: lots of equal cost are one position, whether or
 not it is written with decimals

---
 clj/src/limabean/core/inventory.clj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/inventory.clj b/clj/src/limabean/core/inventory.clj
index be17ac4..483437d 100644
--- a/clj/src/limabean/core/inventory.clj
+++ b/clj/src/limabean/core/inventory.clj
@@ -70,7 +70,9 @@
   [pos]
   (let [cost (:cost pos)]
     (if cost
-      [(:date cost) (:cur cost) (:per-unit cost) (:label cost) (:merge cost)]
+      ;; bigdec because 10 and 10.00M are the same cost
+      [(:date cost) (:cur cost) (some-> (:per-unit cost)
+                                        bigdec) (:label cost) (:merge cost)]
       [])))
 
 (defn- update-or-set
-- 
2.43.0


From 7a565df3225d8bf41231b2994116b0a80187741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 14/38] fix: the registry takes the default booking method from
 the option

---
 clj/src/limabean/core/registry.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/registry.clj b/clj/src/limabean/core/registry.clj
index 4d9c67e..03cba7e 100644
--- a/clj/src/limabean/core/registry.clj
+++ b/clj/src/limabean/core/registry.clj
@@ -6,7 +6,7 @@
 (defn build
   "Build the registry for given `directives` and `options`."
   [directives options]
-  (let [default-booking (get options :booking :strict)
+  (let [default-booking (keyword (get options :booking-method :strict))
         init (transient {:acc-booking (transient {}), :cur-freq (transient {})})
         result (reduce (fn [result dct]
                          (case (:dct dct)
-- 
2.43.0


From 8e1941b0fe7402b2db1e8b49b84df6a92298e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 15/38] fix: the inventory of very large whole numbers does not
 overflow

---
 clj/src/limabean/core/inventory.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/inventory.clj b/clj/src/limabean/core/inventory.clj
index 483437d..699c900 100644
--- a/clj/src/limabean/core/inventory.clj
+++ b/clj/src/limabean/core/inventory.clj
@@ -89,7 +89,7 @@
                                 positions
                                 k
                                 (fn [p0]
-                                  (assoc p0 :units (+ (:units p0) (:units p1))))
+                                  (assoc p0 :units (+' (:units p0) (:units p1))))
                                 p1))),
             :reduce-f (fn [rf result positions]
                         (let [cost-keys (sort compare-cost-keys
@@ -104,7 +104,7 @@
                    (assoc positions :at-cost (conj (:at-cost positions) p1))
                    (assoc positions
                      :simple (if-let [p0 (:simple positions)]
-                               (assoc p0 :units (+ (:units p0) (:units p1)))
+                               (assoc p0 :units (+' (:units p0) (:units p1)))
                                p1)))),
              :reduce-f (fn [rf result positions]
                          (let [result1 (if-let [simple (:simple positions)]
-- 
2.43.0


From 1f2ca6f1c3d67419717d05a0ab3476056531a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 16/38] fix: postings are not printed as if they were
 directives

---
 clj/src/limabean/core/xf.clj | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/xf.clj b/clj/src/limabean/core/xf.clj
index 79644d5..1663589 100644
--- a/clj/src/limabean/core/xf.clj
+++ b/clj/src/limabean/core/xf.clj
@@ -10,5 +10,9 @@
   []
   (comp (filter #(= :txn (:dct %)))
         (mapcat #(map (fn [pst]
-                        (merge (select-keys % [:date :payee :narration]) pst))
+                        ;; select-keys keeps the metadata, but a posting is
+                        ;; not a directive
+                        (with-meta
+                          (merge (select-keys % [:date :payee :narration]) pst)
+                          (meta pst)))
                    (:postings %)))))
-- 
2.43.0


From 058f253cf7bacd16f550588cd0cd2b05117765a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 17/38] fix: the rollup of an empty inventory is empty

---
 clj/src/limabean.clj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean.clj b/clj/src/limabean.clj
index eb10097..ff8d4e8 100644
--- a/clj/src/limabean.clj
+++ b/clj/src/limabean.clj
@@ -31,7 +31,9 @@
   ```
   "
   [inv]
-  (let [primary-cur (first (apply max-key val (inventory/cur-freq inv)))]
+  (let [primary-cur (some->> (seq (inventory/cur-freq inv))
+                             (apply max-key val)
+                             (first))]
     (rollup/build inv primary-cur)))
 
 (defn balances
-- 
2.43.0


From 5a1fbc53f7260b488e78bd65514c00974c7e30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 18/38] fix: quotes and backslashes are escaped in printed
 directives

---
 clj/src/limabean/core/format.clj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index d4cee09..a1436e9 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -11,9 +11,10 @@
           :else "nil")))
 
 (defn- double-quote
-  "Double quote a string, otherwise nil"
+  "Double quote a string, escaping as required, otherwise nil"
   [s]
-  (and (string? s) (format "\"%s\"" s)))
+  (and (string? s)
+       (format "\"%s\"" (str/escape s {\" "\\\"", \\ "\\\\"}))))
 
 (defn- prefix
   "Prefix a string, otherwise nil"
-- 
2.43.0


From 98d53703cd7d15c445bf8ee1e15d05d89647721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 19/38] fix: numbers are printed and shown without exponents

---
 clj/src/limabean/core/cell.clj   |  5 +++--
 clj/src/limabean/core/format.clj | 31 +++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/clj/src/limabean/core/cell.clj b/clj/src/limabean/core/cell.clj
index 959761f..6397914 100644
--- a/clj/src/limabean/core/cell.clj
+++ b/clj/src/limabean/core/cell.clj
@@ -1,6 +1,7 @@
 (ns limabean.core.cell
   (:require [java-time.api :as jt]
-            [clojure.string :as str]))
+            [clojure.string :as str]
+            [limabean.core.format :as format]))
 
 (def EMPTY {:empty nil})
 (def SPACE-MINOR " ")
@@ -71,7 +72,7 @@
 
 (defmethod cell ::number
   [x]
-  (let [s (str x)
+  (let [s (format/number->str x)
         dp (or (str/index-of s ".") (str/index-of s "/") (count s))]
     (anchored s (dec dp))))
 
diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index a1436e9..6755900 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -1,6 +1,11 @@
 (ns limabean.core.format
   (:require [clojure.string :as str]))
 
+(defn number->str
+  "Convert number to string, avoiding exponential notation"
+  [n]
+  (if (decimal? n) (.toPlainString ^BigDecimal n) (str n)))
+
 (defn- dct-type
   [dct]
   (let [t (:dct dct)]
@@ -41,11 +46,11 @@
   (cond (nil? v) ""
         (contains? v :acc) (get v :acc)
         (and (contains? v :units) (contains? v :cur))
-          (format "%s %s" (str (get v :units)) (get v :cur))
+          (format "%s %s" (number->str (get v :units)) (get v :cur))
         (contains? v :string) (double-quote (get v :string))
         (contains? v :bool) (str/upper-case (str (get v :bool)))
         (contains? v :cur) (get v :cur)
-        (contains? v :number) (str (get v :number))
+        (contains? v :number) (number->str (get v :number))
         (contains? v :tag) (prefix (get v :tag) "#")
         (contains? v :link) (prefix (get v :link) "^")
         (contains? v :date) (str (get v :date))))
@@ -67,8 +72,9 @@
           (with-out-str
             ;; print at most one of per-unit and total, preferring per-unit
             (if-let [per-unit (:per-unit cost)]
-              (print (str per-unit))
-              (when-let [total (:total cost)] (print "#" (str total))))
+              (print (number->str per-unit))
+              (when-let [total (:total cost)]
+                (print "#" (number->str total))))
             (when-let [cur (:cur cost)] (print "" cur))
             (when-let [date (:date cost)] (print "," (str date)))
             (when-let [label (double-quote (:label cost))] (print "," label))
@@ -82,8 +88,9 @@
                 ;; print at most one of per-unit and total, preferring
                 ;; per-unit
                 (if-let [per-unit (:per-unit price)]
-                  (print "" (str per-unit))
-                  (when-let [total (:total price)] (print " #" (str total))))
+                  (print "" (number->str per-unit))
+                  (when-let [total (:total price)]
+                    (print " #" (number->str total))))
                 (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
@@ -91,7 +98,7 @@
   (print " ")
   (when-let [flag (:flag pst)] (print "" flag))
   (print "" (:acc pst))
-  (when-let [units (:units pst)] (print "" (str units)))
+  (when-let [units (:units pst)] (print "" (number->str units)))
   (when-let [cur (:cur pst)] (print "" cur))
   (when-let [cost (or (:cost pst) (:cost-spec pst))]
     (print "" (cost->str cost)))
@@ -130,9 +137,13 @@
     (case (:dct dct)
       :txn (print-txn-specific-header-fields dct)
       :price (let [price (:price dct)]
-               (print "" (:cur dct) (str (:per-unit price)) (:cur price)))
-      :balance (do (print "" (:acc dct) (str (:units dct)) (:cur dct))
-                   (when-let [tol (:tolerance dct)] (print " ~" (str tol))))
+               (print ""
+                      (:cur dct)
+                      (number->str (:per-unit price))
+                      (:cur price)))
+      :balance (do (print "" (:acc dct) (number->str (:units dct)) (:cur dct))
+                   (when-let [tol (:tolerance dct)]
+                     (print " ~" (number->str tol))))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
                   (print "" (str/join "," (sort currencies))))
-- 
2.43.0


From e0a80cb95fa781ced5b9afd10c713409bda25693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 20/38] fix: the tolerance of a balance is printed before the
 currency

---
 clj/src/limabean/core/format.clj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 6755900..076d5b7 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -141,9 +141,10 @@
                       (:cur dct)
                       (number->str (:per-unit price))
                       (:cur price)))
-      :balance (do (print "" (:acc dct) (number->str (:units dct)) (:cur dct))
+      :balance (do (print "" (:acc dct) (number->str (:units dct)))
                    (when-let [tol (:tolerance dct)]
-                     (print " ~" (number->str tol))))
+                     (print " ~" (number->str tol)))
+                   (print "" (:cur dct)))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
                   (print "" (str/join "," (sort currencies))))
-- 
2.43.0


From a4ed3e74e51baedc97f426039c5ce5d941d2163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 21/38] fix: null values of custom directives are printed

---
 clj/src/limabean/core/format.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 076d5b7..65cf09d 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -159,7 +159,8 @@
         (print "" (double-quote (:type dct)) (double-quote (:description dct)))
       :query (print "" (double-quote (:name dct)) (double-quote (:content dct)))
       :custom (do (print "" (double-quote (:type dct)))
-                  (doseq [v (:values dct)] (print "" (meta-value->str v))))
+                  (doseq [v (:values dct)]
+                    (print "" (if (nil? v) "NULL" (meta-value->str v)))))
       nil)
     (when-not (= (:dct dct) :custom)
       (print-tags-and-links-inline (:tags dct) (:links dct)))
-- 
2.43.0


From 7bbb5ef535d5b3a4911fda0e2ad2b0a03798d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 22/38] fix: total prices are printed with @@

---
 clj/src/limabean/core/format.clj | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 65cf09d..0314be6 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -84,14 +84,14 @@
 (defn- price->str
   "Convert price or price-spec to string"
   [price]
-  (with-out-str (print "@")
-                ;; print at most one of per-unit and total, preferring
-                ;; per-unit
-                (if-let [per-unit (:per-unit price)]
-                  (print "" (number->str per-unit))
-                  (when-let [total (:total price)]
-                    (print " #" (number->str total))))
-                (when-let [cur (:cur price)] (print "" cur))))
+  (with-out-str
+    ;; print at most one of per-unit and total, preferring per-unit
+    (if-let [per-unit (:per-unit price)]
+      (print "@" (number->str per-unit))
+      (if-let [total (:total price)]
+        (print "@@" (number->str total))
+        (print "@")))
+    (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
   [pst]
-- 
2.43.0


From 0f28270c422f98f7b60fb2d385e47ebc999b4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 23/38] fix: a cost specification with both numbers is printed
 with both

---
 clj/src/limabean/core/format.clj | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 0314be6..a142180 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -70,11 +70,10 @@
   [cost]
   (let [bare-cost-str
           (with-out-str
-            ;; print at most one of per-unit and total, preferring per-unit
-            (if-let [per-unit (:per-unit cost)]
-              (print (number->str per-unit))
-              (when-let [total (:total cost)]
-                (print "#" (number->str total))))
+            (when-let [per-unit (:per-unit cost)]
+              (print "" (number->str per-unit)))
+            (when-let [total (:total cost)]
+              (print " #" (number->str total)))
             (when-let [cur (:cur cost)] (print "" cur))
             (when-let [date (:date cost)] (print "," (str date)))
             (when-let [label (double-quote (:label cost))] (print "," label))
@@ -100,7 +99,8 @@
   (print "" (:acc pst))
   (when-let [units (:units pst)] (print "" (number->str units)))
   (when-let [cur (:cur pst)] (print "" cur))
-  (when-let [cost (or (:cost pst) (:cost-spec pst))]
+  ;; the total of a cost, unlike a cost-spec, merely follows from its per-unit
+  (when-let [cost (or (dissoc (:cost pst) :total) (:cost-spec pst))]
     (print "" (cost->str cost)))
   (when-let [price (or (:price pst) (:price-spec pst))]
     (print "" (price->str price)))
-- 
2.43.0


From 9624c505ebad853626445821f39fcd82238c131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 24/38] fix: booking errors are reported also without raw
 plugins

---
 clj/src/limabean/adapter/loader.clj | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 2403984..18912f3 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -170,10 +170,15 @@
                     :booked-directives (type/directives resolved-directives))
             (debug/dump-configured?) (dump :booked-directives)
             (seq warnings) (assoc :booked-warnings warnings)))
-        (let [indexed-reports (:indexed-reports err)
-              spanned-reports (resolve-reports-from-raw indexed-reports
-                                                        raw-directives)]
-          (assoc-in m [:error :booking] {:spanned-reports spanned-reports}))))
+        (let [{:keys [spanned-reports indexed-reports message]} err]
+          ;; reports are indexed only if raw directives were passed
+          (assoc-in m
+            [:error :booking]
+            (cond spanned-reports {:spanned-reports spanned-reports}
+                  message {:message message}
+                  :else {:spanned-reports (resolve-reports-from-raw
+                                            indexed-reports
+                                            raw-directives)})))))
     (catch Exception e
       (assoc-in m [:error :booking] {:exception (Throwable->map e)}))))
 
-- 
2.43.0


From 6ee04dab0a9217d26e75b334d516dc11a7d40d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 25/38] fix: a whole number is a valid tolerance

---
 clj/src/limabean/spec.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index 2645447..cb7a9b4 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -41,7 +41,7 @@
 (s/def ::narration string?)
 
 ;; balance fields
-(s/def ::tolerance decimal?)
+(s/def ::tolerance ::number)
 
 ;; open fields
 (s/def ::currencies (s/coll-of ::cur :kind set?))
-- 
2.43.0


From b7e26bd14d7be9ab93c1631d201c8d795218a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 26/38] fix: print the message of an exception thrown by a
 plugin

---
 clj/src/limabean/adapter/error.clj  | 2 +-
 clj/src/limabean/adapter/loader.clj | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 5af1bfb..e9dda88 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -36,7 +36,7 @@
         spanned-reports' (or spanned-reports (dct-errors->reports dct-errors))]
     (when message (println message))
     (when spanned-reports' (println (pod/format-errors pod spanned-reports')))
-    (when exception (println (:message exception)))))
+    (when exception (println (:cause exception)))))
 
 (defn print-errors
   "Print errors if any."
diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 18912f3..f08c7ad 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -86,7 +86,7 @@
                                 " plugin, all "
                                 kind-name
                                 " plugins ignored")),
-                :exception e}))))))
+                :exception (Throwable->map e)}))))))
 
 (defn- merge-span-and-provenance
   [booked raw]
-- 
2.43.0


From f9fb075e8985f5527c567528a406d49b87c38fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 27/38] fix: relate an error in a directive modified by plugins
 to its source

---
 clj/src/limabean/adapter/error.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index e9dda88..1f6969c 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -25,7 +25,7 @@
                         (cond-> {:message (:plugin err),
                                  :reason (:message err),
                                  :span (or (:span-p dct) (:span dct))}
-                          (and (:span dct) (:span-p :dct))
+                          (and (:span dct) (:span-p dct))
                             (assoc :related [["source" (:span dct)]])))
                    (:err dct)))
          dct-errors)))
-- 
2.43.0


From 0fbce8b220c027699f8788243c6a1d4ee70d2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 28/38] fix: directives modified by plugins are recognised also
 if their identity hash codes collide

---
 clj/src/limabean/adapter/plugins.clj | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 7c32262..18094bb 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -50,7 +50,7 @@
 
 (defn- tag-and-validate-unseen
   "Transducer to tag non-error directives which haven't been seen before, and if spec is non-nil, validate"
-  [known-directives tagf spec]
+  [^java.util.Set known-directives tagf spec]
   (fn [rf]
     (fn
       ;; init
@@ -60,11 +60,9 @@
       ;; step
       ([result d]
        (if (and (not (:err d))
-                (not (contains? @known-directives (System/identityHashCode d))))
+                (not (.contains known-directives d)))
          (let [tagged-d (tagf d)]
-           (vreset! known-directives
-                    (conj! @known-directives
-                           (System/identityHashCode tagged-d)))
+           (.add known-directives tagged-d)
            (rf result (if spec (s/assert spec tagged-d) tagged-d)))
          ;; otherwise emit the original directive, whatever it was
          (rf result d))))))
@@ -103,7 +101,9 @@
 (defn run-plugins-of-kind
   "Run the non-error plugins selected by `sel`, one of `:raw-xf,` `:booked-xf`"
   [directives resolved-plugins sel directive-spec]
-  (let [known-directives (volatile! (transient #{}))
+  (let [;; by identity proper, since identity hash codes are not unique
+        known-directives (java.util.Collections/newSetFromMap
+                           (java.util.IdentityHashMap.))
         xf-directives (into []
                             (compose-and-wrap-resolved-plugins resolved-plugins
                                                                sel
-- 
2.43.0


From 514a9b8b1c5edd795594955cbc0a240841e85896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 29/38] fix: an error in a directive inserted by a plugin is
 reported

---
 clj/src/limabean/adapter/plugins.clj | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 18094bb..3066e73 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -49,7 +49,9 @@
   (mapv (resolve-xfs-with-config options) plugins))
 
 (defn- tag-and-validate-unseen
-  "Transducer to tag non-error directives which haven't been seen before, and if spec is non-nil, validate"
+  "Transducer to tag directives which haven't been seen before, and if spec is non-nil, validate.
+
+  Error directives are not validated, and are tagged only if they lack the span necessary for reporting the error."
   [^java.util.Set known-directives tagf spec]
   (fn [rf]
     (fn
@@ -59,11 +61,12 @@
       ([result] (rf result))
       ;; step
       ([result d]
-       (if (and (not (:err d))
+       (if (and (not (and (:err d) (or (:span d) (:span-p d))))
                 (not (.contains known-directives d)))
          (let [tagged-d (tagf d)]
            (.add known-directives tagged-d)
-           (rf result (if spec (s/assert spec tagged-d) tagged-d)))
+           (rf result
+               (if (and spec (not (:err d))) (s/assert spec tagged-d) tagged-d)))
          ;; otherwise emit the original directive, whatever it was
          (rf result d))))))
 
-- 
2.43.0


From 0ca699ddd5074a0a3f0cb460433784064154cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 30/38] fix: the provenance tells just once that a directive
 was booked

---
 clj/src/limabean/adapter/plugins.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 3066e73..1e56b6f 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -78,7 +78,7 @@
             :provenance
             #(let [existing (or % [])]
                (cond-> existing
-                 (and phase (not (contains? existing phase))) (conj phase)
+                 (and phase (not-any? #{phase} existing)) (conj phase)
                  true (conj provenance))))))
 
 (defn- compose-and-wrap-resolved-plugins
-- 
2.43.0


From 0464a76ddad6368c71259c16104300ba64f2995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 31/38] fix: dump the directives resulting from plugins

---
 clj/src/limabean/adapter/loader.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index f08c7ad..445dd47 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -74,7 +74,7 @@
                                    (:pod m)))
                  dct-errors (filterv :err xf-directives)]
              (cond-> (assoc m (:xf-directives key) xf-directives)
-               (debug/dump-configured?) (dump (:directives key))
+               (debug/dump-configured?) (dump (:xf-directives key))
                (seq dct-errors) (assoc-in [:error (:plugins key) :dct-errors]
                                   dct-errors)))
            (catch Exception e
-- 
2.43.0


From 4117f30d3e5b60fac88bb2bf9112400aea378b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 32/38] fix: auto_accounts opens accounts whatever collects its
 result

---
 clj/src/beancount/plugins/auto_accounts.clj | 24 ++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/clj/src/beancount/plugins/auto_accounts.clj b/clj/src/beancount/plugins/auto_accounts.clj
index 25a8131..a1e3278 100644
--- a/clj/src/beancount/plugins/auto_accounts.clj
+++ b/clj/src/beancount/plugins/auto_accounts.clj
@@ -23,14 +23,18 @@
                                                            @opened-accounts)))]
                    (when (seq new-accs)
                      (vreset! opened-accounts
-                              (apply conj @opened-accounts new-accs))
-                     (reduce (fn [result acc]
-                               (let [auto-open {:dct :open,
-                                                :date (:date dct),
-                                                :acc acc,
-                                                :metadata {:auto nil}}]
-                                 (rf result auto-open)))
-                       result
-                       new-accs))
-                   (rf result dct))
+                              (apply conj @opened-accounts new-accs)))
+                   (let [result' (reduce (fn [result acc]
+                                           (let [auto-open {:dct :open,
+                                                            :date (:date dct),
+                                                            :acc acc,
+                                                            :metadata {:auto
+                                                                         nil}}
+                                                 result' (rf result auto-open)]
+                                             (if (reduced? result')
+                                               (reduced result')
+                                               result')))
+                                   result
+                                   new-accs)]
+                     (if (reduced? result') result' (rf result' dct))))
                :else (rf result dct)))))))
-- 
2.43.0


From 16e17d8530eeebf2ecbc22a184603af9d3d46936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 33/38] fix: metadata keyed dct or booking keep their values

---
 clj/src/limabean/adapter/pod.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 04623b9..040441b 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -37,8 +37,8 @@
     (fn [x]
       (cond-> x
         (and (map? x) (string? (:date x))) (update :date jt/local-date)
-        (and (map? x) (contains? x :dct)) (update :dct keyword)
-        (and (map? x) (contains? x :booking)) (update :booking keyword)))
+        (and (map? x) (string? (:dct x))) (update :dct keyword)
+        (and (map? x) (string? (:booking x))) (update :booking keyword)))
     data))
 
 (defn- coerce-arrays
-- 
2.43.0


From b16f0db51e32728b752438f309d1df000c207579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 34/38] fix: a whole number of any size is valid in directives
 changed by plugins

---
 clj/src/limabean/spec.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index cb7a9b4..ccd0acd 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -9,7 +9,7 @@
 (s/def ::acc string?)
 (s/def ::number
   (s/or :decimal decimal?
-        :int int?))
+        :int integer?))
 (s/def ::units ::number)
 (s/def ::cur string?)
 (s/def ::amount
-- 
2.43.0


From 42be4bce8f3f25c105f55baaea239163d6719646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 35/38] fix: talk UTF-8 to the pod in any locale

---
 clj/src/limabean/adapter/pod.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 040441b..0e558a2 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -6,6 +6,7 @@
             [clojure.walk :as walk]
             [java-time.api :as jt])
   (:import [java.io OutputStreamWriter PrintWriter]
+           [java.nio.charset StandardCharsets]
            [java.util.concurrent TimeUnit]))
 
 (defn- next-id! [pod] (swap! (:next-id pod) inc))
@@ -138,7 +139,7 @@
           (process/start {:err :inherit} "limabean-pod" "serve" beancount-path)
         pod {:process pod-process,
              :in (-> (process/stdin pod-process)
-                     OutputStreamWriter.
+                     (OutputStreamWriter. StandardCharsets/UTF_8)
                      PrintWriter.),
              :out (-> (process/stdout pod-process)
                       io/reader),
-- 
2.43.0


From bd2880eb0c41992df009d8e3c8151ad5059c4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 36/38] fix: an error in a posting is told with its transaction
 also after plugins

---
 clj/src/limabean/adapter/loader.clj | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 445dd47..ee61622 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -127,7 +127,7 @@
       (and (:provenance dct) (or (:span pst) (:span dct)))
         (update :description
                 #(str % ", modified by " (str/join " " (:provenance dct))))
-      pst (assoc :context ["txn" dct-span]))))
+      pst (assoc :contexts [[(dct-name dct) dct-span]]))))
 
 (defn- resolve-report-related
   "Return a function to resolve the related field in a report"
@@ -139,12 +139,12 @@
 (defn- resolve-report-from-raw
   "Resolve idx to span in indexed report"
   [report raw-directives]
-  (let [{:keys [description span context]} (resolve-report-idx (:idx report)
-                                                               raw-directives)]
+  (let [{:keys [description span contexts]} (resolve-report-idx (:idx report)
+                                                                raw-directives)]
     (cond-> (assoc (select-keys report [:reason :annotation])
               :message (str "invalid " description)
               :span span)
-      context (assoc :context context)
+      contexts (assoc :contexts contexts)
       (:related report) (assoc :related
                           (mapv (resolve-report-related raw-directives)
                             (:related report))))))
-- 
2.43.0


From 0997bc47c8a5020d6182aa01c931115fb24d3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 37/38] fix: show sets and maps of ratios and decimals which
 don't compare

---
 clj/src/limabean/core/cell.clj | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/cell.clj b/clj/src/limabean/core/cell.clj
index 6397914..605b88f 100644
--- a/clj/src/limabean/core/cell.clj
+++ b/clj/src/limabean/core/cell.clj
@@ -47,7 +47,10 @@
 (defn- try-sort
   "Sort if possible, otherwise don't"
   [xs]
-  (try (sort xs) (catch ClassCastException _ xs)))
+  (try (sort xs)
+       (catch ClassCastException _ xs)
+       ;; decimals don't compare with ratios having no decimal expansion
+       (catch ArithmeticException _ xs)))
 
 (defmethod cell ::map
   [x]
-- 
2.43.0


From faa47eee5ad88f069a8bcc52aa8572a09e8a771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 38/38] fix: reject directives whose :dct is nil

---
 clj/src/limabean/spec.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index ccd0acd..3782fa1 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -134,7 +134,7 @@
 (defmethod raw-dct :event [_] ::event)
 (defmethod raw-dct :query [_] ::query)
 (defmethod raw-dct :custom [_] ::custom)
-(defmethod raw-dct nil [_] (s/and map? #(contains? % :dct)))
+(defmethod raw-dct nil [_] (s/and map? #(some? (:dct %))))
 (s/def ::raw-dct (s/and ::base-dct (s/multi-spec raw-dct :dct)))
 
 (defmulti booked-dct :dct)
@@ -150,7 +150,7 @@
 (defmethod booked-dct :event [_] ::event)
 (defmethod booked-dct :query [_] ::query)
 (defmethod booked-dct :custom [_] ::custom)
-(defmethod booked-dct nil [_] (s/and map? #(contains? % :dct)))
+(defmethod booked-dct nil [_] (s/and map? #(some? (:dct %))))
 (s/def ::booked-dct (s/and ::base-dct (s/multi-spec booked-dct :dct)))
 
 (s/def ::raw-dcts (s/coll-of ::raw-dct))
-- 
2.43.0

