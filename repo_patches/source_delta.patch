From 847981e265bbe81482d1fdf0d39f61463fd82011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:24 +0000
Subject: [PATCH 01/29] verification hooks behind --cfg hive_verif:
 caller-supplied subgraph executors, offline connector

---
 bin/router/src/executor/executors/map.rs   |  4 ++++
 bin/router/src/executor/executors/tls.rs   | 14 ++++++++++++++
 bin/router/src/executor/executors/verif.rs | 18 ++++++++++++++++++
 bin/router/src/lib.rs                      |  2 ++
 4 files changed, 38 insertions(+)
 create mode 100644 bin/router/src/executor/executors/verif.rs

diff --git a/bin/router/src/executor/executors/map.rs b/bin/router/src/executor/executors/map.rs
index 239c0ea..7be9bc3 100644
--- a/bin/router/src/executor/executors/map.rs
+++ b/bin/router/src/executor/executors/map.rs
@@ -1163,3 +1163,7 @@ pub fn compile_duration_or_expression(
         }
     }
 }
+
+#[cfg(hive_verif)]
+#[path = "verif.rs"]
+mod verif;
diff --git a/bin/router/src/executor/executors/tls.rs b/bin/router/src/executor/executors/tls.rs
index b497dde..3284c18 100644
--- a/bin/router/src/executor/executors/tls.rs
+++ b/bin/router/src/executor/executors/tls.rs
@@ -152,6 +152,10 @@ pub fn build_https_client_config(
 pub fn build_https_connector(
     tls_config: Option<&ClientTLSConfig>,
 ) -> Result<HttpsConnector<HttpConnector>, SubgraphExecutorError> {
+    #[cfg(hive_verif)]
+    if true {
+        return Ok(verif_offline_connector());
+    }
     Ok(HttpsConnectorBuilder::new()
         .with_tls_config(build_https_client_config(tls_config)?)
         .https_or_http()
@@ -186,3 +190,13 @@ pub fn get_merged_tls_config(
         (None, None) => None,
     }
 }
+
+/// Verification hook: a connector that is never used to connect, so no TLS configuration is built for it.
+#[cfg(hive_verif)]
+fn verif_offline_connector() -> HttpsConnector<HttpConnector> {
+    let unused = Arc::new(std::mem::MaybeUninit::<ClientConfig>::uninit());
+    std::mem::forget(unused.clone());
+    // Safety: never dereferenced (no connection is made) and never dropped (see `forget` above).
+    let unused: Arc<ClientConfig> = unsafe { std::mem::transmute(unused) };
+    HttpsConnector::from((HttpConnector::new(), unused))
+}
diff --git a/bin/router/src/executor/executors/verif.rs b/bin/router/src/executor/executors/verif.rs
new file mode 100644
index 0000000..5e6145f
--- /dev/null
+++ b/bin/router/src/executor/executors/verif.rs
@@ -0,0 +1,18 @@
+//! Verification hook (compiled only with `--cfg hive_verif`): a map whose executors are supplied by the caller.
+use super::*;
+
+impl SubgraphExecutorMap {
+    /// Answers requests for `subgraph_name` with `executor` instead of the network.
+    pub fn verif_set_executor(&self, subgraph_name: &str, executor: SubgraphExecutorBoxedArc) {
+        let endpoint = executor.endpoint().to_string();
+        self.register_static_endpoint(subgraph_name, &endpoint);
+        self.http_executors_by_subgraph
+            .entry(subgraph_name.to_string())
+            .or_default()
+            .insert(endpoint.clone(), executor.clone());
+        self.subscription_executors_by_subgraph
+            .entry(subgraph_name.to_string())
+            .or_default()
+            .insert(endpoint, executor);
+    }
+}
diff --git a/bin/router/src/lib.rs b/bin/router/src/lib.rs
index c309280..3a962ac 100644
--- a/bin/router/src/lib.rs
+++ b/bin/router/src/lib.rs
@@ -1,5 +1,7 @@
 // Needed because of ntex's way of defining middlewares
 #![recursion_limit = "256"]
+// `hive_verif` guards verification hooks, see executor/executors/verif.rs
+#![allow(unexpected_cfgs)]
 
 pub mod background_tasks;
 mod cache_state;
-- 
2.43.0


From a3acfeb4469d8d923938321c02d8daffbe259bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 02/29] fix: do not send representations of entities whose type
 the fetch does not ask for

An input rewrite replaces __typename before the representation is projected, so
an entity of a type outside the fetch's type conditions was projected all the
same, while its hash (taken before the rewrite) covered nothing. All such
entities shared one hash, and the data fetched for the first was merged into
every one of them.
---
 bin/router/src/executor/execution/plan.rs |  8 ++++--
 bin/router/src/executor/response/value.rs | 33 ++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index b673473..ec08433 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -987,7 +987,9 @@ impl<'exec> Executor<'exec> {
                     normalized_path,
                     &self.schema_metadata.possible_types,
                     &mut |entity| {
-                        if entity.is_null() {
+                        if entity.is_null()
+                            || !entity.satisfies_requires(&requires_nodes.items, possible_types)
+                        {
                             representation_hashes.push(None);
                             return;
                         }
@@ -1525,7 +1527,9 @@ impl<'exec> Executor<'exec> {
                 let mut representation_hashes: Vec<Option<u64>> = Vec::new();
 
                 traverse_and_callback(data, merge_path.as_slice(), possible_types, &mut |entity| {
-                    if entity.is_null() {
+                    if entity.is_null()
+                        || !entity.satisfies_requires(&alias_spec.requires.items, possible_types)
+                    {
                         representation_hashes.push(None);
                         return;
                     }
diff --git a/bin/router/src/executor/response/value.rs b/bin/router/src/executor/response/value.rs
index a8f42aa..a08675c 100644
--- a/bin/router/src/executor/response/value.rs
+++ b/bin/router/src/executor/response/value.rs
@@ -79,6 +79,34 @@ impl<'a> Value<'a> {
         hasher.finish()
     }
 
+    /// Tells whether an entity is of a type that `requires` selections ask for.
+    /// It has to be asked before the input rewrites, as they may replace `__typename`.
+    pub fn satisfies_requires(
+        &self,
+        selection_items: &[SelectionItem],
+        possible_types: &PossibleTypes,
+    ) -> bool {
+        let Value::Object(obj) = self else {
+            return true;
+        };
+        let Some(type_name) = obj
+            .binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| k)
+            .ok()
+            .and_then(|idx| obj[idx].1.as_str())
+        else {
+            return true;
+        };
+
+        selection_items.iter().any(|item| match item {
+            SelectionItem::InlineFragment(inline_fragment) => {
+                let type_condition = &inline_fragment.type_condition;
+                possible_types.entity_satisfies_type_condition(type_name, type_condition)
+                    || possible_types.entity_satisfies_type_condition(type_condition, type_name)
+            }
+            _ => true,
+        })
+    }
+
     fn hash_with_requires<H: Hasher>(
         &self,
         state: &mut H,
@@ -133,7 +161,10 @@ impl<'a> Value<'a> {
                         .and_then(|idx| obj[idx].1.as_str())
                         .unwrap_or(type_condition);
 
-                    if possible_types.entity_satisfies_type_condition(type_name, type_condition) {
+                    // Must accept the same types as `project_requires`
+                    if possible_types.entity_satisfies_type_condition(type_name, type_condition)
+                        || possible_types.entity_satisfies_type_condition(type_condition, type_name)
+                    {
                         Value::hash_object_with_requires(
                             state,
                             obj,
-- 
2.43.0


From 7af31ebd8368f00308a961c76359c3159711906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 03/29] fix: keep null items of lists in entity representations

A null item of a required list was dropped from the representation, so the
subgraph received a shorter list than the one it asked for.
---
 bin/router/src/executor/projection/request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index 6680df3..f2fce4e 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -72,6 +72,13 @@ pub fn project_requires(
 
             let mut first = true;
             for entity_item in entity_array {
+                if entity_item.is_null() {
+                    // Dropping it would shift the items that follow
+                    write_response_key(first, None, buffer);
+                    buffer.put(NULL);
+                    first = false;
+                    continue;
+                }
                 let projected = project_requires(
                     possible_types,
                     requires_selections,
-- 
2.43.0


From 82117e9a481914bb06cc01851b40e4dd0914ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 04/29] fix: keep list items without required fields in entity
 representations

---
 bin/router/src/executor/projection/request.rs | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index f2fce4e..2511977 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -87,10 +87,25 @@ pub fn project_requires(
                     first,
                     None,
                 );
-                if projected {
-                    // Only update `first` if we actually write something
-                    first = false;
+                if !projected {
+                    // The item holds none of the required fields (e.g. its type matches no
+                    // fragment). Dropping it would shift the items that follow
+                    write_response_key(first, None, buffer);
+                    buffer.put(OPEN_BRACE);
+                    if let Some(type_name) = entity_item
+                        .as_object()
+                        .and_then(|obj| {
+                            obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| k)
+                                .ok()
+                                .map(|idx| &obj[idx].1)
+                        })
+                        .and_then(|value| value.as_str())
+                    {
+                        write_typename_field(buffer, type_name);
+                    }
+                    buffer.put(CLOSE_BRACE);
                 }
+                first = false;
             }
             buffer.put(CLOSE_BRACKET);
         }
-- 
2.43.0


From 56dbf5c82b3462d177e03e1811c6b34eca724ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 05/29] fix: let a CORS policy turn off the globally allowed
 credentials

---
 bin/router/src/pipeline/cors.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/pipeline/cors.rs b/bin/router/src/pipeline/cors.rs
index 89c895a..9599b5f 100644
--- a/bin/router/src/pipeline/cors.rs
+++ b/bin/router/src/pipeline/cors.rs
@@ -35,10 +35,10 @@ impl CompiledCORSPolicy {
                 .or_else(|| global.allow_headers_value.clone()),
             expose_headers_value: header_value_from_list(&policy_config.expose_headers)
                 .or_else(|| global.expose_headers_value.clone()),
-            allow_credentials_value: if policy_config.allow_credentials == Some(true) {
-                Some(HeaderValue::from_static("true"))
-            } else {
-                global.allow_credentials_value.clone()
+            allow_credentials_value: match policy_config.allow_credentials {
+                Some(true) => Some(HeaderValue::from_static("true")),
+                Some(false) => None,
+                None => global.allow_credentials_value.clone(),
             },
             max_age_value: if let Some(max_age) = policy_config.max_age {
                 HeaderValue::from_str(&max_age.to_string()).ok()
-- 
2.43.0


From f2f9737963fee3dff03aae06ea6e6bd7f82eeda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 06/29] fix: keep no-store, no-cache and private next to an
 unknown cache-control directive

---
 .../src/executor/headers/cache_control.rs     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/headers/cache_control.rs b/bin/router/src/executor/headers/cache_control.rs
index 547d31c..d684e6c 100644
--- a/bin/router/src/executor/headers/cache_control.rs
+++ b/bin/router/src/executor/headers/cache_control.rs
@@ -27,6 +27,9 @@ fn parse(header: &str) -> Option<CacheControl> {
     }
 
     let mut p = CacheControl::default();
+    // one invalid part discards the header, unless it forbids caching:
+    // that must not get lost because of a directive next to it
+    let mut valid = true;
 
     for part in trimmed.split(',') {
         let part = part.trim();
@@ -49,26 +52,26 @@ fn parse(header: &str) -> Option<CacheControl> {
                         Ok(n) => Some(n),
                         Err(_) => {
                             warn!(target: targets::CACHE_CONTROL, value = v, "cache-control max-age has non-numeric value");
-                            return None;
+                            valid = false;
+                            None
                         }
                     },
                     None => {
                         warn!(target: targets::CACHE_CONTROL, "cache-control max-age is missing a value");
-
-                        return None;
+                        valid = false;
+                        None
                     }
                 };
                 p.max_age = max_age;
             }
             v => {
-                // one invalid part is enough to stop parsing and discard the header
                 warn!(target: targets::CACHE_CONTROL, directive = v, "cache-control has unrecognized directive");
-                return None;
+                valid = false;
             }
         }
     }
 
-    Some(p)
+    (valid || p.no_store || p.no_cache || p.is_private).then_some(p)
 }
 
 fn merge_into(acc: &mut Option<CacheControl>, incoming: CacheControl) {
@@ -190,9 +193,11 @@ pub fn finalize(
     }
 
     let mut acc: Option<CacheControl> = None;
+    let mut parsed_values = 0;
     for v in values {
         if let Ok(s) = v.to_str() {
             if let Some(parsed) = parse(s) {
+                parsed_values += 1;
                 merge_into(&mut acc, parsed);
             }
         }
@@ -200,8 +205,9 @@ pub fn finalize(
 
     if let Some(mut merged) = acc {
         // a silent subgraph (no cache-control header at all) did not assert public,
-        // so public cannot hold when not every contacted subgraph sent it
-        if total_responses > values.len() {
+        // (or none that is understood), so public cannot hold when not every contacted
+        // subgraph sent it
+        if total_responses.max(values.len()) > parsed_values {
             merged.is_public = false;
         }
         let serialized = to_header_value(&merged);
-- 
2.43.0


From b15e852c627dbd32a7b5b5b51ffefa90d514bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 07/29] fix: never rename a propagated header to a hop-by-hop
 header

---
 bin/router/src/executor/headers/request.rs  | 5 ++++-
 bin/router/src/executor/headers/response.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index f7d4260..76496f4 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -82,8 +82,11 @@ impl ApplyRequestHeader for RequestPropagateNamed {
             }
             if let Some(header_value) = ctx.client_request.headers.get(header_name) {
                 let destination_name = self.rename.as_ref().unwrap_or(header_name);
-                output_headers.append(destination_name, header_value.into());
                 matched = true;
+                if is_denied_header(destination_name) {
+                    continue;
+                }
+                output_headers.append(destination_name, header_value.into());
             }
         }
 
diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index d18f141..405347e 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -90,6 +90,10 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
     ) -> Result<(), HeaderRuleRuntimeError> {
         let mut matched = false;
 
+        if self.rename.as_ref().is_some_and(is_denied_response_header) {
+            return Ok(());
+        }
+
         for header_name in &self.names {
             if is_denied_response_header(header_name) {
                 continue;
-- 
2.43.0


From c6755e091e0071d5da7f38f35dc3a3691d073ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 08/29] fix: apply exclude to header rules that remove

---
 bin/router/src/executor/headers/compile.rs  | 2 ++
 bin/router/src/executor/headers/plan.rs     | 2 ++
 bin/router/src/executor/headers/request.rs  | 8 +++++++-
 bin/router/src/executor/headers/response.rs | 7 ++++++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/headers/compile.rs b/bin/router/src/executor/headers/compile.rs
index d24dc6c..8c4fc46 100644
--- a/bin/router/src/executor/headers/compile.rs
+++ b/bin/router/src/executor/headers/compile.rs
@@ -71,6 +71,7 @@ impl HeaderRuleCompiler<Vec<RequestHeaderRule>> for config::RequestHeaderRule {
                 if let Some(regex_set) = spec.include_regex {
                     actions.push(RequestHeaderRule::RemoveRegex(RequestRemoveRegex {
                         regex: regex_set,
+                        exclude: spec.exclude_regex,
                     }));
                 }
             }
@@ -153,6 +154,7 @@ impl HeaderRuleCompiler<Vec<ResponseHeaderRule>> for config::ResponseHeaderRule
                 if let Some(regex_set) = spec.include_regex {
                     actions.push(ResponseHeaderRule::RemoveRegex(ResponseRemoveRegex {
                         regex: regex_set,
+                        exclude: spec.exclude_regex,
                     }));
                 }
             }
diff --git a/bin/router/src/executor/headers/plan.rs b/bin/router/src/executor/headers/plan.rs
index de6e595..75728c3 100644
--- a/bin/router/src/executor/headers/plan.rs
+++ b/bin/router/src/executor/headers/plan.rs
@@ -85,11 +85,13 @@ pub struct ResponseRemoveNamed {
 #[derive(Clone)]
 pub struct RequestRemoveRegex {
     pub regex: Regex,
+    pub exclude: Option<Regex>,
 }
 
 #[derive(Clone)]
 pub struct ResponseRemoveRegex {
     pub regex: Regex,
+    pub exclude: Option<Regex>,
 }
 
 #[derive(Clone)]
diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index 76496f4..52c51f0 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -215,7 +215,13 @@ impl ApplyRequestHeader for RequestRemoveRegex {
                 continue;
             }
 
-            if self.regex.is_match(header_name.as_str().as_bytes()) {
+            let header_bytes = header_name.as_str().as_bytes();
+            if self.regex.is_match(header_bytes)
+                && !self
+                    .exclude
+                    .as_ref()
+                    .is_some_and(|regex| regex.is_match(header_bytes))
+            {
                 headers_to_remove.push(header_name.clone());
             }
         }
diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index 405347e..bb62ede 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -250,7 +250,12 @@ impl ApplyResponseHeader for ResponseRemoveRegex {
                 return true;
             }
 
-            !self.regex.is_match(name.as_str().as_bytes())
+            let header_bytes = name.as_str().as_bytes();
+            !self.regex.is_match(header_bytes)
+                || self
+                    .exclude
+                    .as_ref()
+                    .is_some_and(|regex| regex.is_match(header_bytes))
         });
 
         Ok(())
-- 
2.43.0


From 0e78f8381ed440976bec3480f9b3b1c0791ee73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:54 +0000
Subject: [PATCH 09/29] fix: merge a response header with the algorithm of the
 rule that writes it

---
 bin/router/src/executor/headers/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index bb62ede..0bef0d7 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -375,8 +375,11 @@ impl ResponseHeaderAggregator {
         }
 
         // The `expect` is safe because we just inserted the entry if it didn't exist
-        let (strategy, values) = self.entries.get_mut(name).expect("Expected entry to exist");
+        let (entry_strategy, values) =
+            self.entries.get_mut(name).expect("Expected entry to exist");
 
+        // The strategy of the rule that writes now decides, not the one of the rule
+        // that happened to create the entry.
         match (strategy, values.len()) {
             (HeaderAggregationStrategy::First, 0) => {
                 values.push(value.clone());
@@ -386,6 +389,7 @@ impl ResponseHeaderAggregator {
                 values.push(value.clone());
             }
             (HeaderAggregationStrategy::Append, _) => {
+                *entry_strategy = strategy;
                 values.push(value.clone());
             }
             (_, _) => {}
-- 
2.43.0


From 9b7917cc4300de85cc864353b6b823d836c609e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:54 +0000
Subject: [PATCH 10/29] fix: use the default of a propagated response header
 only if no subgraph provides it

---
 bin/router/src/executor/headers/response.rs | 30 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index 0bef0d7..4ab0a78 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -11,7 +11,7 @@ use crate::executor::{
     },
 };
 use crate::vrl::expressions::ExecutableProgram;
-use ahash::HashMap;
+use ahash::{HashMap, HashSet};
 use ntex::http::HeaderMap as NtexHeaderMap;
 use std::iter::once;
 use std::sync::{Arc, Mutex};
@@ -128,7 +128,7 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
                     return Ok(());
                 }
 
-                accumulator.write(destination_name, default_value, self.strategy);
+                accumulator.write_default(destination_name, default_value, self.strategy);
             }
         }
 
@@ -326,6 +326,8 @@ type AggregatedHeader = (HeaderAggregationStrategy, Vec<HeaderValue>);
 #[derive(Default, Debug)]
 pub struct ResponseHeaderAggregator {
     pub entries: HashMap<HeaderName, AggregatedHeader>,
+    /// Names of the entries that hold nothing but the default of a propagation rule.
+    defaulted: HashSet<HeaderName>,
 }
 
 #[derive(Clone, Default, Debug)]
@@ -352,7 +354,8 @@ impl ResponseHeaderSink {
 
 impl ResponseHeaderAggregator {
     pub fn replace_with(&mut self, other: Self) {
-        self.entries = other.entries
+        self.entries = other.entries;
+        self.defaulted = other.defaulted;
     }
 
     /// Write a header to the aggregator according to the specified strategy.
@@ -368,6 +371,11 @@ impl ResponseHeaderAggregator {
             strategy
         };
 
+        // a default only stands as long as no subgraph provides a value
+        if self.defaulted.remove(name) {
+            self.entries.remove(name);
+        }
+
         if !self.entries.contains_key(name) {
             self.entries
                 .insert(name.clone(), (strategy, once(value.clone()).collect()));
@@ -396,6 +404,22 @@ impl ResponseHeaderAggregator {
         }
     }
 
+    /// Write the default of a propagation rule, which is used only if no subgraph
+    /// (neither before nor after this one) provides a value.
+    fn write_default(
+        &mut self,
+        name: &HeaderName,
+        value: &HeaderValue,
+        strategy: HeaderAggregationStrategy,
+    ) {
+        if self.entries.contains_key(name) {
+            return;
+        }
+
+        self.write(name, value, strategy);
+        self.defaulted.insert(name.clone());
+    }
+
     // I deliberately chose to have a dedicated funtion over From<T>
     // to convert headers from "early return responses" (from coprocessor and plugins),
     // to prevent us from accidentally using First, Last or Append strategies,
-- 
2.43.0


From 51365567c4859e1af6d73356509132d2390b7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 11/29] fix: count every token, and no more than the tokens,
 toward the token limit

---
 lib/graphql-tools/src/parser/tokenizer.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/graphql-tools/src/parser/tokenizer.rs b/lib/graphql-tools/src/parser/tokenizer.rs
index 2fab6e6..82dbf22 100644
--- a/lib/graphql-tools/src/parser/tokenizer.rs
+++ b/lib/graphql-tools/src/parser/tokenizer.rs
@@ -62,6 +62,7 @@ impl<'a> StreamOnce for TokenStream<'a> {
         }
         let old_pos = self.off;
         let (kind, len) = self.take_token()?;
+        self.token_count += 1;
         let value = &self.buf[self.off - len..self.off];
         self.skip_whitespace();
         let token = Token { kind, value };
@@ -166,25 +167,21 @@ impl<'a> TokenStream<'a> {
     fn advance_token<T>(&mut self, kind: Kind, size: usize) -> Result<(Kind, usize), T> {
         self.position.column += size;
         self.off += size;
-        // Should be counted?
-        if self.token_limit.is_some() {
-            self.token_count += 1;
-        }
         Ok((kind, size))
     }
 
     fn take_token(&mut self) -> Result<(Kind, usize), Error<Token<'a>, Token<'a>>> {
-        if let Some(limit) = self.token_limit {
-            if self.token_count >= limit {
-                return Err(Error::message_static_message("Token limit exceeded"));
-            }
-        }
         use self::Kind::*;
         let mut iter = self.buf[self.off..].char_indices();
         let cur_char = match iter.next() {
             Some((_, x)) => x,
             None => return Err(Error::end_of_input()),
         };
+        if let Some(limit) = self.token_limit {
+            if self.token_count >= limit {
+                return Err(Error::message_static_message("Token limit exceeded"));
+            }
+        }
 
         match cur_char {
             '(' | '[' | '{' => {
-- 
2.43.0


From 2011aa7adc3ba50809f2dc0bd18f434f02e67de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 12/29] fix: accept float exponents that start with 9, and none
 without digits

---
 lib/graphql-tools/src/parser/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/graphql-tools/src/parser/tokenizer.rs b/lib/graphql-tools/src/parser/tokenizer.rs
index 82dbf22..995789d 100644
--- a/lib/graphql-tools/src/parser/tokenizer.rs
+++ b/lib/graphql-tools/src/parser/tokenizer.rs
@@ -112,7 +112,10 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first == '-' || first == '+' {
+        return check_dec(&value[1..]);
+    }
+    if first <= '0' || first > '9' {
         return false;
     }
 
-- 
2.43.0


From b09f21806ecdc4d04d919e05e78e8d01fe411c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 13/29] fix: decode the escapes of string literals as the
 GraphQL grammar defines them

---
 lib/graphql-tools/src/parser/common.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/graphql-tools/src/parser/common.rs b/lib/graphql-tools/src/parser/common.rs
index 33c9087..54ec102 100644
--- a/lib/graphql-tools/src/parser/common.rs
+++ b/lib/graphql-tools/src/parser/common.rs
@@ -236,7 +236,7 @@ fn unquote_string<'a>(s: &'a str) -> Result<String, Error<Token<'a>, Token<'a>>>
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
@@ -245,7 +245,15 @@ fn unquote_string<'a>(s: &'a str) -> Result<String, Error<Token<'a>, Token<'a>>>
                         temp_code_point.clear();
                         for _ in 0..4 {
                             match chars.next() {
-                                Some(inner_c) => temp_code_point.push(inner_c),
+                                Some(inner_c) if inner_c.is_ascii_hexdigit() => {
+                                    temp_code_point.push(inner_c)
+                                }
+                                Some(inner_c) => {
+                                    return Err(Error::Unexpected(Info::Owned(
+                                        format_args!("bad hex digit {:?} after \\u", inner_c)
+                                            .to_string(),
+                                    )))
+                                }
                                 None => {
                                     return Err(Error::Unexpected(Info::Owned(
                                         format_args!(
-- 
2.43.0


From e005c1e4283ce49c431f7eb13a6cd673cc217cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 14/29] fix: remove the common indent of block strings as the
 GraphQL specification defines it

---
 lib/graphql-tools/src/parser/common.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/graphql-tools/src/parser/common.rs b/lib/graphql-tools/src/parser/common.rs
index 54ec102..db2902c 100644
--- a/lib/graphql-tools/src/parser/common.rs
+++ b/lib/graphql-tools/src/parser/common.rs
@@ -173,13 +173,15 @@ where
 
 fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>> {
     debug_assert!(src.starts_with("\"\"\"") && src.ends_with("\"\"\""));
-    let lines = src[3..src.len() - 3].lines();
+    // A line ends with \n, \r\n or \r.
+    let body = src[3..src.len() - 3].replace("\r\n", "\n").replace('\r', "\n");
+    let lines = body.lines();
 
     let mut common_indent = usize::MAX;
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        let indent = line.len() - line.trim_start_matches([' ', '\t']).len();
         if indent == line.len() {
             continue;
         }
@@ -206,8 +208,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // A line that is shorter than the indent has only whitespace.
+                line.get(common_indent..).unwrap_or("")
             } else {
                 line
             }
-- 
2.43.0


From a790bc70b5db935b281ffd6118ac999453e608cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 15/29] fix: print string values so that parsing them gives the
 same text

---
 lib/graphql-tools/src/parser/format.rs       | 30 ++++++++++-------
 lib/graphql-tools/src/parser/query/minify.rs | 35 +++++++-------------
 2 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/lib/graphql-tools/src/parser/format.rs b/lib/graphql-tools/src/parser/format.rs
index 7e36e51..5aa049f 100644
--- a/lib/graphql-tools/src/parser/format.rs
+++ b/lib/graphql-tools/src/parser/format.rs
@@ -124,16 +124,7 @@ impl<'a> Formatter<'a> {
     }
 
     pub fn write_quoted(&mut self, s: &str) {
-        let mut has_newline = false;
-        let mut has_nonprintable = false;
-        for c in s.chars() {
-            match c {
-                '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
-                _ => has_nonprintable = true,
-            }
-        }
-        if !has_newline || has_nonprintable {
+        if !reads_back_as_block_string(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -143,8 +134,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'.. => self.buf.push(c),
+                    _ => write!(&mut self.buf, "\\u{:04X}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
@@ -177,6 +168,21 @@ impl<'a> Formatter<'a> {
     }
 }
 
+/// Whether a text has several lines and, printed line by line as a block string, means the
+/// same when it is parsed: the parser removes leading and trailing blank lines and the indent
+/// that all lines have in common.
+pub(crate) fn reads_back_as_block_string(s: &str) -> bool {
+    let is_blank = |line: &str| line.trim().is_empty();
+    s.contains('\n')
+        && s.chars()
+            .all(|c| matches!(c, '\n' | '\t' | '\u{0020}'..='\u{FFFF}'))
+        && !s.split('\n').next().is_some_and(is_blank)
+        && !s.split('\n').next_back().is_some_and(is_blank)
+        && s.split('\n').all(|line| line.is_empty() || !is_blank(line))
+        && s.split('\n')
+            .any(|line| !line.is_empty() && !line.starts_with([' ', '\t']))
+}
+
 pub(crate) fn format_directives<'a, T>(dirs: &[Directive<'a, T>], f: &mut Formatter)
 where
     T: super::common::Text<'a>,
diff --git a/lib/graphql-tools/src/parser/query/minify.rs b/lib/graphql-tools/src/parser/query/minify.rs
index 8f68303..d0e1043 100644
--- a/lib/graphql-tools/src/parser/query/minify.rs
+++ b/lib/graphql-tools/src/parser/query/minify.rs
@@ -1,4 +1,5 @@
 use crate::parser::{
+    format::reads_back_as_block_string,
     query::{
         Definition, Directive, Document, FragmentDefinition, OperationDefinition, Selection,
         SelectionSet, Text, Type, TypeCondition, Value, VariableDefinition,
@@ -316,25 +317,13 @@ impl Minifier {
             self.buffer.push(' ');
         }
 
-        let bytes = s.as_bytes();
-        let mut has_newline = false;
-        let mut needs_escaping = false;
-
-        for &byte in bytes {
-            if byte == b'\n' {
-                has_newline = true;
-            // Check for control characters that need escaping. The parser accepts raw control characters in strings,
-            // so we must escape them here to produce valid minified output.
-            } else if byte == b'"' || byte == b'\\' || byte < 0x20 || byte == 0x7F {
-                needs_escaping = true;
-            }
-
-            if has_newline && needs_escaping {
-                break;
-            }
-        }
+        // Check for control characters that need escaping. The parser accepts raw control characters in strings,
+        // so we must escape them here to produce valid minified output.
+        let needs_escaping = s
+            .bytes()
+            .any(|byte| byte == b'"' || byte == b'\\' || byte < 0x20 || byte == 0x7F);
 
-        if !needs_escaping && !has_newline {
+        if !needs_escaping {
             self.buffer.reserve(s.len() + 2);
             self.buffer.push('"');
             self.buffer.push_str(s);
@@ -343,7 +332,7 @@ impl Minifier {
             return;
         }
 
-        if !has_newline {
+        if !reads_back_as_block_string(s) {
             use std::fmt::Write;
             // Reserve extra space for escape sequences. Most strings need 2 bytes for quotes,
             // and ~16 bytes accounts for typical escape sequences (e.g., \", \\, \u00XX).
@@ -358,9 +347,9 @@ impl Minifier {
                     '"' => self.buffer.push_str("\\\""),
                     '\\' => self.buffer.push_str(r"\\"),
                     // Regular text characters. These are safe to write directly without escaping.
-                    '\u{0020}'..='\u{FFFF}' => self.buffer.push(c),
-                    // Characters outside the printable range are escaped as \uXXXX.
-                    _ => write!(&mut self.buffer, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'.. => self.buffer.push(c),
+                    // Control characters are escaped as \uXXXX.
+                    _ => write!(&mut self.buffer, "\\u{:04X}", c as u32).unwrap(),
                 }
             }
             self.buffer.push('"');
@@ -379,7 +368,7 @@ impl Minifier {
                     let mut last_pos = 0;
                     for (pos, _) in line.match_indices(r#"""""#) {
                         self.buffer.push_str(&line[last_pos..pos]);
-                        self.buffer.push_str(r#"\"""#);
+                        self.buffer.push_str(r#"\""""#);
                         last_pos = pos + 3;
                     }
                     self.buffer.push_str(&line[last_pos..]);
-- 
2.43.0


From 4c070712bec526344dd1fe61984f28a789d3b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 16/29] fix: accept integers for ID variables and every number
 for Float, and reject Int variables beyond 32 bits

---
 bin/router/src/executor/variables/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bin/router/src/executor/variables/mod.rs b/bin/router/src/executor/variables/mod.rs
index 862d20b..8f3df59 100644
--- a/bin/router/src/executor/variables/mod.rs
+++ b/bin/router/src/executor/variables/mod.rs
@@ -162,7 +162,12 @@ fn validate_runtime_value(
                         }
                     }
                     "ID" => {
-                        if let ValueRef::String(_) = value {
+                        let is_valid = match value {
+                            ValueRef::String(_) => true,
+                            ValueRef::Number(ref num) => num.is_i64() || num.is_u64(),
+                            _ => false,
+                        };
+                        if is_valid {
                             Ok(())
                         } else {
                             Err(VariableCoercionError::ExpectedId {
@@ -171,7 +176,11 @@ fn validate_runtime_value(
                         }
                     }
                     "Int" => {
-                        let is_valid = matches!(value, ValueRef::Number(ref num) if num.is_i64());
+                        let is_valid = matches!(
+                            value,
+                            ValueRef::Number(ref num)
+                                if num.as_i64().is_some_and(|n| i32::try_from(n).is_ok())
+                        );
                         if is_valid {
                             Ok(())
                         } else {
@@ -181,10 +190,7 @@ fn validate_runtime_value(
                         }
                     }
                     "Float" => {
-                        let is_valid = matches!(
-                            value,
-                            ValueRef::Number(ref num) if num.is_f64() || num.is_i64()
-                        );
+                        let is_valid = matches!(value, ValueRef::Number(_));
                         if is_valid {
                             Ok(())
                         } else {
-- 
2.43.0


From 6471d076b1ddc500a1b6622560a57486fb79497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 17/29] fix: print the variables of anonymous subscriptions

---
 lib/graphql-tools/src/parser/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/graphql-tools/src/parser/query/format.rs b/lib/graphql-tools/src/parser/query/format.rs
index 569d7dc..8eb52ff 100644
--- a/lib/graphql-tools/src/parser/query/format.rs
+++ b/lib/graphql-tools/src/parser/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From 1aee17b87707adf63a04273bb43a6f80aca0c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:19 +0000
Subject: [PATCH 18/29] fix: reject a selection set on __typename

---
 .../src/validation/rules/leaf_field_selections.rs    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs b/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs
index d23aaab..e8ef68b 100644
--- a/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs
+++ b/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs
@@ -30,7 +30,17 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for LeafFieldSelection
         user_context: &mut ValidationErrorContext,
         field: &crate::static_graphql::query::Field,
     ) {
-        if let (Some(field_type), Some(field_type_literal)) = (
+        // `__typename` is a leaf that types do not declare
+        if field.name == "__typename" && !field.selection_set.items.is_empty() {
+            user_context.report_error(ValidationError {
+                error_code: self.error_code(),
+                locations: vec![field.position],
+                message: format!(
+                    "Field \"{}\" must not have a selection since type \"String!\" has no subfields.",
+                    field.name
+                ),
+            });
+        } else if let (Some(field_type), Some(field_type_literal)) = (
             (visitor_context.current_type()),
             (visitor_context.current_type_literal()),
         ) {
-- 
2.43.0


From 9b9695fed7d2ebaaa41b5f445da32fb1879c14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:19 +0000
Subject: [PATCH 19/29] fix: count the root fields of a subscription by their
 response names

---
 lib/graphql-tools/src/ast/collect_fields.rs                   | 4 +++-
 .../src/validation/rules/single_field_subscriptions.rs        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/graphql-tools/src/ast/collect_fields.rs b/lib/graphql-tools/src/ast/collect_fields.rs
index a44973c..e519807 100644
--- a/lib/graphql-tools/src/ast/collect_fields.rs
+++ b/lib/graphql-tools/src/ast/collect_fields.rs
@@ -69,7 +69,9 @@ fn collect_fields_inner<'a>(
 ) {
     selection_set.items.iter().for_each(|item| match item {
         Selection::Field(f) => {
-            let existing = result_arr.entry(f.name.clone()).or_default();
+            let existing = result_arr
+                .entry(f.alias.as_ref().unwrap_or(&f.name).clone())
+                .or_default();
             existing.push(f.clone());
         }
         Selection::InlineFragment(f) => {
diff --git a/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs b/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs
index 83be794..47bada4 100644
--- a/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs
+++ b/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs
@@ -61,7 +61,7 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for SingleFieldSubscri
                 selection_set_fields
               .into_iter()
               .filter_map(|(field_name, fields_records)| {
-                  if field_name.starts_with("__") {
+                  if fields_records.iter().any(|field| field.name.starts_with("__")) {
                       return Some((field_name, fields_records));
                   }
 
-- 
2.43.0


From aac67ea729ce859853cbcc08f4c663f8e64db47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:20 +0000
Subject: [PATCH 20/29] fix: compare the type of __typename when fields with
 the same response name are merged

---
 .../rules/overlapping_fields_can_be_merged.rs          | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/graphql-tools/src/validation/rules/overlapping_fields_can_be_merged.rs b/lib/graphql-tools/src/validation/rules/overlapping_fields_can_be_merged.rs
index fc7a907..7f4f6af 100644
--- a/lib/graphql-tools/src/validation/rules/overlapping_fields_can_be_merged.rs
+++ b/lib/graphql-tools/src/validation/rules/overlapping_fields_can_be_merged.rs
@@ -421,9 +421,15 @@ impl<'doc> OverlappingFieldsCanBeMerged<'doc> {
 
         let t1 = field1_def.as_ref().map(|def| &def.field_type);
         let t2 = field2_def.as_ref().map(|def| &def.field_type);
+        // `__typename` has a type although types do not declare it
+        let typename_type = Type::NonNullType(Box::new(Type::NamedType("String".to_string())));
+        let type_of = |field: &Field, field_type: Option<&'doc Type>| match field_type {
+            None if field.name == "__typename" => Some(typename_type.clone()),
+            _ => field_type.cloned(),
+        };
 
-        if let (Some(t1), Some(t2)) = (t1, t2) {
-            if Self::is_type_conflict(schema, t1, t2) {
+        if let (Some(t1), Some(t2)) = (type_of(field1, t1), type_of(field2, t2)) {
+            if Self::is_type_conflict(schema, &t1, &t2) {
                 return Some(Conflict(
                     ConflictReason(
                         out_field_name.to_owned(),
-- 
2.43.0


From 8fb1fcdf48a7a92ae17f9ca6dbdb3fbc29636d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:53 +0000
Subject: [PATCH 21/29] fix: reject literals of another kind than the type, and
 integers beyond 32 bits for Int

---
 lib/graphql-tools/src/ast/ext.rs              |  8 +++
 .../src/ast/operation_visitor.rs              | 10 +--
 .../rules/values_of_correct_type.rs           | 64 ++++++++++++++++++-
 3 files changed, 75 insertions(+), 7 deletions(-)

diff --git a/lib/graphql-tools/src/ast/ext.rs b/lib/graphql-tools/src/ast/ext.rs
index dd7c3a7..fd50598 100644
--- a/lib/graphql-tools/src/ast/ext.rs
+++ b/lib/graphql-tools/src/ast/ext.rs
@@ -226,6 +226,14 @@ impl Type {
         }
     }
 
+    /// The type without its outermost non-null
+    pub fn nullable_type(&self) -> &Type {
+        match self {
+            Type::NonNullType(child) => child,
+            Type::NamedType(_) | Type::ListType(_) => self,
+        }
+    }
+
     pub fn is_non_null(&self) -> bool {
         matches!(self, Type::NonNullType(_))
     }
diff --git a/lib/graphql-tools/src/ast/operation_visitor.rs b/lib/graphql-tools/src/ast/operation_visitor.rs
index a0919ec..b8ebeaa 100644
--- a/lib/graphql-tools/src/ast/operation_visitor.rs
+++ b/lib/graphql-tools/src/ast/operation_visitor.rs
@@ -276,10 +276,12 @@ fn visit_input_value<'a, Visitor, UserContext>(
         Value::List(v) => {
             visitor.enter_list_value(context, user_context, v);
 
-            let input_type = context.current_input_type_literal().and_then(|t| match t {
-                Type::ListType(inner_type) => Some(inner_type.as_ref()),
-                _ => None,
-            });
+            let input_type = context
+                .current_input_type_literal()
+                .and_then(|t| match t.nullable_type() {
+                    Type::ListType(inner_type) => Some(inner_type.as_ref()),
+                    _ => None,
+                });
 
             context.with_input_type(input_type, |context| {
                 for item in v {
diff --git a/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs b/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs
index 3adc4ec..10794f0 100644
--- a/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs
+++ b/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs
@@ -1,6 +1,6 @@
 use crate::parser::schema::TypeDefinition;
 
-use crate::static_graphql::query::Value;
+use crate::static_graphql::query::{Type, Value};
 use crate::validation::utils::ValidationError;
 use crate::{
     ast::{OperationVisitor, OperationVisitorContext},
@@ -26,6 +26,33 @@ impl ValuesOfCorrectType {
         !matches!(type_name, "String" | "Int" | "Float" | "Boolean" | "ID")
     }
 
+    fn is_builtin_scalar_or_enum(
+        &self,
+        visitor_context: &OperationVisitorContext,
+        type_name: &str,
+    ) -> bool {
+        match visitor_context.schema.type_by_name(type_name) {
+            Some(TypeDefinition::Scalar(_)) => !self.is_custom_scalar(type_name),
+            Some(TypeDefinition::Enum(_)) => true,
+            _ => false,
+        }
+    }
+
+    fn report_unexpected(
+        &self,
+        visitor_context: &OperationVisitorContext,
+        user_context: &mut ValidationErrorContext,
+        found: &str,
+    ) {
+        if let Some(input_type) = visitor_context.current_input_type_literal() {
+            user_context.report_error(ValidationError {
+                error_code: self.error_code(),
+                message: format!("Expected value of type \"{}\", found {}.", input_type, found),
+                locations: vec![],
+            })
+        }
+    }
+
     pub fn validate_value(
         &mut self,
         visitor_context: &mut OperationVisitorContext,
@@ -49,8 +76,12 @@ impl ValuesOfCorrectType {
 
                 if let TypeDefinition::Scalar(scalar_type_def) = &type_def {
                     match (scalar_type_def.name.as_ref(), raw_value) {
-                        ("Int", Value::Int(_))
-                        | ("ID", Value::Int(_))
+                        ("Int", Value::Int(value))
+                            if value.as_i64().is_some_and(|n| i32::try_from(n).is_ok()) =>
+                        {
+                            return
+                        }
+                        ("ID", Value::Int(_))
                         | ("ID", Value::String(_))
                         | ("Float", Value::Int(_))
                         | ("Float", Value::Float(_))
@@ -120,12 +151,39 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for ValuesOfCorrectTyp
         }
     }
 
+    fn enter_list_value(
+        &mut self,
+        visitor_context: &mut OperationVisitorContext<'doc>,
+        user_context: &mut ValidationErrorContext,
+        _: &Vec<Value>,
+    ) {
+        if let Some(Type::NamedType(name)) = visitor_context
+            .current_input_type_literal()
+            .map(|input_type| input_type.nullable_type())
+        {
+            let is_input_object = visitor_context
+                .schema
+                .type_by_name(name)
+                .is_some_and(|def| matches!(def, TypeDefinition::InputObject(_)));
+            if is_input_object || self.is_builtin_scalar_or_enum(visitor_context, name) {
+                self.report_unexpected(visitor_context, user_context, "a list");
+            }
+        }
+    }
+
     fn enter_object_value(
         &mut self,
         visitor_context: &mut OperationVisitorContext<'doc>,
         user_context: &mut ValidationErrorContext,
         object_value: &[(String, Value)],
     ) {
+        let named_type = visitor_context
+            .current_input_type_literal()
+            .map(|input_type| input_type.inner_type());
+        if named_type.is_some_and(|name| self.is_builtin_scalar_or_enum(visitor_context, name)) {
+            self.report_unexpected(visitor_context, user_context, "an object");
+        }
+
         if let Some(TypeDefinition::InputObject(input_object_def)) =
             visitor_context.current_input_type()
         {
-- 
2.43.0


From 0d7fc7cbbaf2704c5548d75f48a01533789ff7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 22/29] fix: tell operations apart that differ in the nesting
 of selections or the kind of a value

The hash of an operation keys its cached plan. A selection set and a list did not
contribute their length, and a value not its kind, so that two operations with
different results could share a plan: `{ n { ... on X { p q } } }` and
`{ n { ... on X { p } q } }`, or `any(a: 1)` and `any(a: true)`.
---
 bin/router/src/query_planner/ast/hash.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/query_planner/ast/hash.rs b/bin/router/src/query_planner/ast/hash.rs
index 3af0921..3bd439e 100644
--- a/bin/router/src/query_planner/ast/hash.rs
+++ b/bin/router/src/query_planner/ast/hash.rs
@@ -119,6 +119,8 @@ impl ASTHash for SelectionSet {
 
             hasher.write_u64(combined_hash);
         } else {
+            // Without the length, a selection after the set would look like a part of it
+            self.items.len().hash(hasher);
             for item in &self.items {
                 item.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
             }
@@ -309,21 +311,24 @@ impl ASTHash for TypeNode {
 
 impl ASTHash for Value {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
+        // The kind, and the length of lists and objects, tell values apart that hold the same parts,
+        // e.g. `"x"`, `x` and `$x`, or `[[1], [2]]` and `[[1, 2]]`.
+        std::mem::discriminant(self).hash(hasher);
         match self {
             Value::List(values) => {
+                values.len().hash(hasher);
                 for value in values {
                     value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
                 }
             }
             Value::Object(map) => {
+                map.len().hash(hasher);
                 for (name, value) in map {
                     name.hash(hasher);
                     value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
                 }
             }
-            Value::Null => {
-                "null".hash(hasher);
-            }
+            Value::Null => {}
             Value::Int(value) => value.hash(hasher),
             Value::Float(value) => {
                 if value.is_nan() {
-- 
2.43.0


From e530d107030c34c4fa49dccc03b4c2907136580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 23/29] fix: tell entities apart by the kind of their values
 and the length of their lists

The hash deduplicates the representations sent to a subgraph. Null and the
integer 0, or nested lists with the same items, collided.
---
 bin/router/src/executor/response/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/response/value.rs b/bin/router/src/executor/response/value.rs
index a08675c..ffd62e4 100644
--- a/bin/router/src/executor/response/value.rs
+++ b/bin/router/src/executor/response/value.rs
@@ -36,8 +36,9 @@ impl<'a> AsRef<Value<'a>> for Value<'a> {
 
 impl Hash for Value<'_> {
     fn hash<H: Hasher>(&self, state: &mut H) {
+        std::mem::discriminant(self).hash(state);
         match self {
-            Value::Null => 0.hash(state),
+            Value::Null => {}
             Value::F64(f) => f.to_bits().hash(state),
             Value::I64(i) => i.hash(state),
             Value::U64(u) => u.hash(state),
@@ -123,6 +124,9 @@ impl<'a> Value<'a> {
                 Value::hash_object_with_requires(state, obj, selection_items, possible_types);
             }
             Value::Array(arr) => {
+                // The same as `Value::hash` does for the items of an array
+                std::mem::discriminant(self).hash(state);
+                arr.len().hash(state);
                 for item in arr {
                     item.hash_with_requires(state, selection_items, possible_types);
                 }
-- 
2.43.0


From 53e06994e6bbd48ecf74152a52ed16ea0c7a8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 24/29] fix: consider repeated and opaque header values when
 subgraph requests are shared

Only the last value of a header counted, and none that is not visible ASCII.
---
 bin/router/src/executor/executors/dedupe.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/executors/dedupe.rs b/bin/router/src/executor/executors/dedupe.rs
index 84841e4..01ccda5 100644
--- a/bin/router/src/executor/executors/dedupe.rs
+++ b/bin/router/src/executor/executors/dedupe.rs
@@ -1,5 +1,4 @@
 use ahash::RandomState;
-use std::collections::BTreeMap;
 use std::hash::{Hash, Hasher};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::OnceLock;
@@ -9,13 +8,14 @@ use crate::executor::executors::http::SendRequestOpts;
 
 impl Hash for SendRequestOpts<'_> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        // BTreeMap to ensure case-insensitivity and consistent order for hashing
-        let mut headers = BTreeMap::new();
-        for (header_name, header_value) in self.headers.iter() {
-            if let Ok(value_str) = header_value.to_str() {
-                headers.insert(header_name.as_str(), value_str);
-            }
-        }
+        // Sorted by name, for a consistent order. The sort is stable,
+        // so the values of a header that is sent several times keep their order.
+        let mut headers: Vec<(&str, &[u8])> = self
+            .headers
+            .iter()
+            .map(|(name, value)| (name.as_str(), value.as_bytes()))
+            .collect();
+        headers.sort_by_key(|(name, _)| *name);
 
         self.method.hash(state);
         self.endpoint.hash(state);
-- 
2.43.0


From b129a7ad43f99d221dadee6a9d1e16d63359e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 25/29] fix: consider opaque header values when inbound
 requests are shared

A value that is not visible ASCII was left out of the fingerprint.
---
 bin/router/src/pipeline/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7e3d07d..e566052 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -928,12 +928,13 @@ pub fn connection_fingerprint(
 ) -> ConnectionFingerprint {
     let mut hasher = Xxh3::new();
 
-    let mut headers: Vec<(&str, &str)> = request_headers
+    // The values of a header that is sent several times keep their order
+    let mut headers: Vec<(&str, &[u8])> = request_headers
         .iter()
         .filter(|(name, _)| header_policy.should_include(name.as_str()))
-        .filter_map(|(name, value)| value.to_str().ok().map(|value| (name.as_str(), value)))
+        .map(|(name, value)| (name.as_str(), value.as_bytes()))
         .collect();
-    headers.sort_unstable();
+    headers.sort_by_key(|(name, _)| *name);
 
     method.hash(&mut hasher);
     path.hash(&mut hasher);
-- 
2.43.0


From c2fbfe2ca485d73a99f13e4dd40050f87e98eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:34 +0000
Subject: [PATCH 26/29] fix: recognise the end of a server-sent event when only
 its empty line ends with CRLF

The event was held back, and merged with the next one.
---
 bin/router/src/executor/executors/sse.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/bin/router/src/executor/executors/sse.rs b/bin/router/src/executor/executors/sse.rs
index 690cad2..3d4769e 100644
--- a/bin/router/src/executor/executors/sse.rs
+++ b/bin/router/src/executor/executors/sse.rs
@@ -103,20 +103,16 @@ struct SubgraphSseEvent {
     pub data: String,
 }
 
-/// find the boundary of a complete event in the stream, the '\n\n' or '\r\n\r\n'
+/// find the boundary of a complete event in the stream: an empty line, which ends with '\n' or '\r\n' like any other
 fn find_sse_event_boundary(buffer: &[u8]) -> Option<usize> {
-    for i in 0..buffer.len().saturating_sub(1) {
-        if buffer[i] == b'\r'
-            && i + 3 < buffer.len()
-            && buffer[i + 1] == b'\n'
-            && buffer[i + 2] == b'\r'
-            && buffer[i + 3] == b'\n'
-        {
-            return Some(i + 4);
-        }
-        if buffer[i] == b'\n' && buffer[i + 1] == b'\n' {
+    for (i, _) in buffer.iter().enumerate().filter(|(_, b)| **b == b'\n') {
+        let next_line = &buffer[i + 1..];
+        if next_line.starts_with(b"\n") {
             return Some(i + 2);
         }
+        if next_line.starts_with(b"\r\n") {
+            return Some(i + 3);
+        }
     }
     None
 }
-- 
2.43.0


From 68b1e08d9893bc9a0882825fc575dc4dad473b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:35 +0000
Subject: [PATCH 27/29] fix: find multipart delimiters only at the beginning of
 a line, and their end marker across chunks

A string in an event that contains the boundary broke the subscription, and a
stream whose last delimiter arrived in two chunks did not end.
---
 .../executor/executors/multipart_subscribe.rs | 107 ++++++++----------
 1 file changed, 46 insertions(+), 61 deletions(-)

diff --git a/bin/router/src/executor/executors/multipart_subscribe.rs b/bin/router/src/executor/executors/multipart_subscribe.rs
index 843a07b..1f21463 100644
--- a/bin/router/src/executor/executors/multipart_subscribe.rs
+++ b/bin/router/src/executor/executors/multipart_subscribe.rs
@@ -84,39 +84,49 @@ where
     B::Error: std::fmt::Display + Send,
 {
     let delimiter = format!("--{}", boundary);
-    let end_marker = format!("--{}--", boundary);
 
     let stream = async_stream::stream! {
         let mut body = body_stream;
         let mut buffer = Vec::<u8>::new();
         let mut started = false;
+        // the buffer begins with what follows a delimiter on its line
+        let mut after_delimiter = false;
 
         loop {
-            while let Some((part_end, skip_len, is_end)) = find_next_part(&buffer, &delimiter, &end_marker, started) {
-                if !started {
-                    buffer.drain(..skip_len);
-                    started = true;
-                    continue;
+            loop {
+                if after_delimiter {
+                    // `--` after a delimiter ends the stream, and can arrive later than the delimiter
+                    if buffer.starts_with(b"--") {
+                        return;
+                    }
+                    if b"--".starts_with(&buffer) {
+                        break;
+                    }
+                    after_delimiter = false;
                 }
 
+                let Some(part_end) = find_delimiter(&buffer, &delimiter, started) else {
+                    break;
+                };
+
                 let part_bytes: Vec<u8> = buffer.drain(..part_end).collect();
-                buffer.drain(..skip_len);
+                buffer.drain(..delimiter.len());
+                after_delimiter = true;
 
-                if !part_bytes.is_empty() {
-                    match parse_part(&part_bytes, custom_scalar_paths.as_ref()) {
-                        Ok(Some(response)) => {
-                            yield Ok(response);
-                        }
-                        Ok(None) => {}
-                        Err(e) => {
-                            yield Err(e);
-                            return;
-                        }
-                    }
+                if !started {
+                    started = true;
+                    continue;
                 }
 
-                if is_end {
-                    return;
+                match parse_part(&part_bytes, custom_scalar_paths.as_ref()) {
+                    Ok(Some(response)) => {
+                        yield Ok(response);
+                    }
+                    Ok(None) => {}
+                    Err(e) => {
+                        yield Err(e);
+                        return;
+                    }
                 }
             }
 
@@ -144,47 +154,22 @@ where
     Box::pin(stream)
 }
 
-fn find_next_part(
-    buffer: &[u8],
-    delimiter: &str,
-    end_marker: &str,
-    started: bool,
-) -> Option<(usize, usize, bool)> {
-    let delimiter_b = delimiter.as_bytes();
-    let end_marker_b = end_marker.as_bytes();
-
-    let find_bytes = |haystack: &[u8], needle: &[u8]| -> Option<usize> {
-        haystack.windows(needle.len()).position(|w| w == needle)
-    };
-
-    if !started {
-        let pos = find_bytes(buffer, delimiter_b)?;
-        let after_delimiter = pos + delimiter_b.len();
-        let newline_pos = buffer[after_delimiter..].iter().position(|&b| b == b'\n')?;
-        let skip_len = after_delimiter + newline_pos + 1;
-        return Some((0, skip_len, false));
-    }
-
-    let next_delimiter_pos = find_bytes(buffer, delimiter_b)?;
-    let is_end = buffer[next_delimiter_pos..].starts_with(end_marker_b);
-
-    let skip_len = if is_end {
-        let after_end = next_delimiter_pos + end_marker_b.len();
-        if let Some(newline) = buffer[after_end..].iter().position(|&b| b == b'\n') {
-            end_marker_b.len() + newline + 1
-        } else {
-            end_marker_b.len()
-        }
-    } else {
-        let after_delimiter = next_delimiter_pos + delimiter_b.len();
-        if let Some(newline) = buffer[after_delimiter..].iter().position(|&b| b == b'\n') {
-            delimiter_b.len() + newline + 1
-        } else {
-            delimiter_b.len()
-        }
-    };
-
-    Some((next_delimiter_pos, skip_len, is_end))
+/// Finds the next delimiter. It begins a line, the same text within a line belongs to a part.
+fn find_delimiter(buffer: &[u8], delimiter: &str, started: bool) -> Option<usize> {
+    let delimiter = delimiter.as_bytes();
+
+    buffer
+        .windows(delimiter.len())
+        .enumerate()
+        .find(|(pos, window)| {
+            *window == delimiter
+                && match pos.checked_sub(1) {
+                    Some(before) => buffer[before] == b'\n',
+                    // within the line of the previous delimiter, unless it is the first one
+                    None => !started,
+                }
+        })
+        .map(|(pos, _)| pos)
 }
 
 fn parse_part(
-- 
2.43.0


From 7e878b157eb70867da969df21f06683179df07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 28/29] fix: send a response with line breaks as one
 server-sent event

A custom scalar is passed on as the subgraph wrote it. Its line breaks cut the
event that a client of a subscription receives.
---
 bin/router/src/pipeline/sse.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/sse.rs b/bin/router/src/pipeline/sse.rs
index 9c9acb7..0272995 100644
--- a/bin/router/src/pipeline/sse.rs
+++ b/bin/router/src/pipeline/sse.rs
@@ -21,9 +21,14 @@ pub fn create_stream(
                              match std::str::from_utf8(&resp) {
                                 Ok(json_str) => {
                                     let mut sse_event = ntex::util::BytesMut::with_capacity(json_str.len() + 25);
-                                    sse_event.put_slice(b"event: next\ndata: ");
-                                    sse_event.put_slice(json_str.as_bytes());
-                                    sse_event.put_slice(b"\n\n");
+                                    sse_event.put_slice(b"event: next\n");
+                                    // a custom scalar is passed on as the subgraph wrote it, possibly in several lines
+                                    for line in json_str.split(['\n', '\r']) {
+                                        sse_event.put_slice(b"data: ");
+                                        sse_event.put_slice(line.as_bytes());
+                                        sse_event.put_slice(b"\n");
+                                    }
+                                    sse_event.put_slice(b"\n");
                                     yield Ok(sse_event.freeze());
                                 }
                                 Err(e) => {
-- 
2.43.0


From 8113d4db19fd6ec45b1ac7b786ab5fe63022b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 29/29] fix: let the text of an operation tell it apart, and
 keep the hash of its AST

The hash of an AST in order is pinned by a test, so the kinds of values and the
ends of selection sets go into the hash of an operation by its text. The hash
that minification uses to find equal selection sets has them itself.
---
 bin/router/src/query_planner/ast/hash.rs      | 19 ++++++++++-----
 bin/router/src/query_planner/ast/operation.rs | 24 +++++++++++++++++--
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/query_planner/ast/hash.rs b/bin/router/src/query_planner/ast/hash.rs
index 3bd439e..c6c1ad4 100644
--- a/bin/router/src/query_planner/ast/hash.rs
+++ b/bin/router/src/query_planner/ast/hash.rs
@@ -119,8 +119,6 @@ impl ASTHash for SelectionSet {
 
             hasher.write_u64(combined_hash);
         } else {
-            // Without the length, a selection after the set would look like a part of it
-            self.items.len().hash(hasher);
             for item in &self.items {
                 item.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
             }
@@ -313,22 +311,31 @@ impl ASTHash for Value {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
         // The kind, and the length of lists and objects, tell values apart that hold the same parts,
         // e.g. `"x"`, `x` and `$x`, or `[[1], [2]]` and `[[1, 2]]`.
-        std::mem::discriminant(self).hash(hasher);
+        // `OperationDefinition::hash` has the text of the operation for this.
+        if ORDER_INDEPENDENT {
+            std::mem::discriminant(self).hash(hasher);
+            if let Value::List(values) = self {
+                values.len().hash(hasher);
+            }
+            if let Value::Object(map) = self {
+                map.len().hash(hasher);
+            }
+        }
         match self {
             Value::List(values) => {
-                values.len().hash(hasher);
                 for value in values {
                     value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
                 }
             }
             Value::Object(map) => {
-                map.len().hash(hasher);
                 for (name, value) in map {
                     name.hash(hasher);
                     value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
                 }
             }
-            Value::Null => {}
+            Value::Null => {
+                "null".hash(hasher);
+            }
             Value::Int(value) => value.hash(hasher),
             Value::Float(value) => {
                 if value.is_nan() {
diff --git a/bin/router/src/query_planner/ast/operation.rs b/bin/router/src/query_planner/ast/operation.rs
index fcf57a5..27a84be 100644
--- a/bin/router/src/query_planner/ast/operation.rs
+++ b/bin/router/src/query_planner/ast/operation.rs
@@ -1,4 +1,5 @@
-use std::fmt::Display;
+use std::fmt::{Display, Write};
+use std::hash::{Hash, Hasher};
 
 use crate::query_planner::{
     ast::{document::Document, hash::ast_hash},
@@ -7,6 +8,7 @@ use crate::query_planner::{
 };
 use graphql_tools::parser::query as parser;
 use serde::{Deserialize, Serialize};
+use xxhash_rust::xxh3::Xxh3;
 
 use crate::query_planner::{
     state::supergraph_state::OperationKind,
@@ -36,7 +38,25 @@ impl OperationDefinition {
         )
     }
     pub fn hash(&self) -> u64 {
-        ast_hash(self)
+        let mut hasher = Xxh3::new();
+        ast_hash(self).hash(&mut hasher);
+        // The text tells apart what the hash of the AST does not: where a selection set or a list ends,
+        // and the kinds of values. The name is not a part of it.
+        let _ = write!(HasherWriter(&mut hasher), "{}", self.selection_set);
+        for definition in self.variable_definitions.iter().flatten() {
+            let _ = write!(HasherWriter(&mut hasher), "{}", definition);
+        }
+        hasher.finish()
+    }
+}
+
+/// Feeds formatted text to a hasher
+struct HasherWriter<'a, H: Hasher>(&'a mut H);
+
+impl<H: Hasher> Write for HasherWriter<'_, H> {
+    fn write_str(&mut self, s: &str) -> std::fmt::Result {
+        self.0.write(s.as_bytes());
+        Ok(())
     }
 }
 
-- 
2.43.0

