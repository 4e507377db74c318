From 87610c7b844ec25eefbdd4d36bbfb9c035e2ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:45 +0000
Subject: [PATCH 01/38] fix: wake waiting indexing work after a resource
 admission

An admitted request left the rest of the budget to waiters that may already
have looked at the queue and gone back to sleep, so work that fitted stayed
parked until an unrelated release.
---
 src/indexing_resources.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/indexing_resources.rs b/src/indexing_resources.rs
index 402176a..6cb3234 100644
--- a/src/indexing_resources.rs
+++ b/src/indexing_resources.rs
@@ -693,6 +693,10 @@ impl IndexingResourceGovernor {
                             );
                         }
                         registration.admitted = true;
+                        drop(admission);
+                        // The next waiter may fit what is left of the budget
+                        // and may have looked at the queue before this one.
+                        self.state.changed.notify_waiters();
                         return Ok(ActiveResourceLease {
                             state: self.state.clone(),
                             spec: queued.spec,
-- 
2.43.0


From 46286e68a5984eebfb9add28a0cd813ffb7febdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:30 +0000
Subject: [PATCH 02/38] fix: forget a failed single flight before reporting its
 failure

---
 src/single_flight.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/single_flight.rs b/src/single_flight.rs
index 8df54e1..64476d0 100644
--- a/src/single_flight.rs
+++ b/src/single_flight.rs
@@ -154,9 +154,8 @@ where
                 counters.record_producer_wall(producer_started.elapsed());
                 if result.is_err() {
                     counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                    // Forget the failed flight before reporting it, so that a
+                    // waiter retrying at once starts a new attempt.
                     let mut entries = entries.lock();
                     if entries
                         .get(&producer_key)
@@ -165,6 +164,7 @@ where
                         entries.remove(&producer_key);
                     }
                 }
+                producer_cell.complete(result);
             });
         }
         let wait_started = Instant::now();
@@ -327,11 +327,11 @@ where
                 cache
                     .counters
                     .record_producer_wall(producer_started.elapsed());
-                if result.is_err() {
+                let succeeded = result.is_ok();
+                if !succeeded {
                     cache.counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                    // Forget the failed flight before reporting it, so that a
+                    // waiter retrying at once starts a new attempt.
                     let mut entries = cache.entries.lock();
                     if entries
                         .get(&producer_key)
@@ -339,7 +339,9 @@ where
                     {
                         entries.remove(&producer_key);
                     }
-                } else {
+                }
+                producer_cell.complete(result);
+                if succeeded {
                     cache.evict_completed_to_limits();
                 }
             });
-- 
2.43.0


From eccb0648a103958948dedcd8a195e24d5b9fc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:37 +0000
Subject: [PATCH 03/38] Add guarded verification hooks for navigation demands
 (feature verif-hooks)

---
 Cargo.toml         |  2 ++
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 63 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index ec4ab78..1f31657 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -132,6 +132,8 @@ sha2 = "0.10.9"
 default = ["jemalloc"]
 memory-profiling = []
 jemalloc = ["dep:tikv-jemallocator"]
+# Opens internal state machines to the external verification harness.
+verif-hooks = []
 
 [profile.release]
 opt-level = "z"
diff --git a/src/lib.rs b/src/lib.rs
index 3bcf8c6..bd28982 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,3 +19,5 @@ pub mod single_flight;
 #[cfg(test)]
 pub mod test;
 pub mod utils;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..39343eb
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,63 @@
+//! Access to internal state machines for the external verification harness.
+//! Compiled only with the `verif-hooks` feature.
+
+use crate::navigation_demand::{
+    NavigationDemandController, NavigationDemandOutcome, NavigationDemandStage,
+};
+use std::future::Future;
+
+#[derive(Default)]
+pub struct NavigationDemands(NavigationDemandController);
+
+fn stage(dependency: bool) -> NavigationDemandStage {
+    if dependency {
+        NavigationDemandStage::Dependency
+    } else {
+        NavigationDemandStage::Project
+    }
+}
+
+impl NavigationDemands {
+    pub fn begin(&self, generation: u64) {
+        self.0.begin_generation(generation);
+    }
+
+    pub fn request(
+        &self,
+        generation: u64,
+        dependency: bool,
+        key: &str,
+    ) -> impl Future<Output = &'static str> + 'static {
+        let ticket = self.0.request(generation, stage(dependency), key);
+        async move {
+            match ticket.wait().await {
+                NavigationDemandOutcome::TargetProcessed => "processed",
+                NavigationDemandOutcome::StageComplete => "stagecomplete",
+                NavigationDemandOutcome::Superseded => "superseded",
+                NavigationDemandOutcome::Cancelled => "cancelled",
+                NavigationDemandOutcome::Saturated => "saturated",
+            }
+        }
+    }
+
+    pub fn drain(&self, generation: u64, dependency: bool) -> Vec<String> {
+        self.0.drain(generation, stage(dependency))
+    }
+
+    pub fn claim(&self, generation: u64, dependency: bool, key: &str) -> bool {
+        self.0
+            .claim_if_requested(generation, stage(dependency), key)
+    }
+
+    pub fn complete_keys(&self, generation: u64, dependency: bool, keys: &[String]) {
+        self.0.complete_keys(generation, stage(dependency), keys);
+    }
+
+    pub fn complete_stage(&self, generation: u64, dependency: bool) {
+        self.0.complete_stage(generation, stage(dependency));
+    }
+
+    pub fn cancel(&self, generation: u64) {
+        self.0.cancel_generation(generation);
+    }
+}
-- 
2.43.0


From 3bb1eeb15a9d6f6e466e4d28728f0717d42f5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 04/38] fix: do not carry constant type equations over to a
 file's new text

A closed file rewritten on disk was indexed with the constant equations of
its previous text, whose ranges no longer exist: the engine panicked.
---
 src/indexer/file_processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index 15eadf5..ca784a3 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -2003,7 +2003,10 @@ fn replace_analysis_facts_for_file(
 ) {
     let mut file_facts = file_analysis_facts_from_index(facts);
     if file_facts.inference == ruby_analysis::core::InferenceEvidence::default() {
-        if let Some(previous) = analysis_engine.read().inference_evidence_in_file(file_id) {
+        if let Some(mut previous) = analysis_engine.read().inference_evidence_in_file(file_id) {
+            // Constant equations target type facts by source range, and the facts
+            // of the previous source are replaced here: they cannot be carried over.
+            previous.constant_type_equations.clear();
             file_facts.inference = previous;
         }
     }
-- 
2.43.0


From fa5e961f9a81bed3748ddecd1a77517686884b9d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 05/38] fix: index the file on disk again when a changed
 document is closed without saving

---
 src/capabilities/indexing.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index d2da286..769dc35 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -661,7 +661,7 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
     let _semantic_guard = semantic_lock.lock().await;
 
     // Remove the document from in-memory cache but keep analysis facts.
-    server.docs.lock().remove(&uri);
+    let closed = server.docs.lock().remove(&uri);
     server.release_external_document_project(&uri);
     debug!("Doc cache size: {}", server.docs.lock().len());
 
@@ -671,6 +671,18 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
         return;
     }
 
+    // The file on disk is authoritative again: facts of discarded edits, or of
+    // text whose file changed on disk while it was open, must not outlive it.
+    if let Some(closed) = closed {
+        let content = closed.read().content.clone();
+        if analysis_file_kind(server, &uri) == Some(SourceKind::Project)
+            && !indexed_disk_content_matches(server, &uri, &content)
+        {
+            let changes = vec![FileEvent::new(uri.clone(), FileChangeType::CHANGED)];
+            handle_watched_files_changed(server, DidChangeWatchedFilesParams { changes }).await;
+        }
+    }
+
     // Keep unresolved entry diagnostics visible (project-wide diagnostics).
     // Use the file's workspace index so we don't surface diagnostics from
     // other workspaces.
-- 
2.43.0


From 6fc3211de6d1d89305e6baa603b32004219dfb14 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 06/38] fix: publish the diagnostics of open files refreshed
 after a dependency changed

---
 src/capabilities/indexing.rs | 37 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index 769dc35..1726af5 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -237,7 +237,7 @@ pub async fn handle_did_open(server: &RubyLanguageServer, params: DidOpenTextDoc
         }
     };
     if !skip_processing {
-        refresh_open_project_files_after_dependency_open(&indexer, server, &uri);
+        refresh_open_project_files_after_dependency_open(&indexer, server, &uri).await;
     }
     let process_elapsed = process_start.elapsed();
 
@@ -304,7 +304,7 @@ fn indexed_disk_content_matches(server: &RubyLanguageServer, uri: &Url, content:
         .is_some_and(|file_id| engine.file_content_matches(file_id, content))
 }
 
-fn refresh_open_project_files_after_dependency_open(
+async fn refresh_open_project_files_after_dependency_open(
     indexer: &FileProcessor,
     server: &RubyLanguageServer,
     opened_uri: &Url,
@@ -326,13 +326,17 @@ fn refresh_open_project_files_after_dependency_open(
     };
 
     for (uri, content) in open_docs {
-        if let Err(err) =
-            indexer.process_file_current_file_resolution_forced(&uri, &content, server)
-        {
-            log::warn!(
+        match indexer.process_file_current_file_resolution_forced(&uri, &content, server) {
+            Ok(result) => {
+                let query = EngineQuery::with_engine(server.analysis_engine_for_uri(&uri));
+                let mut diagnostics = result.diagnostics;
+                diagnostics.extend(query.get_unresolved_diagnostics(&uri));
+                server.publish_diagnostics(uri, diagnostics).await;
+            }
+            Err(err) => log::warn!(
                 "Failed to refresh open file after dependency open: {}: {err}",
                 uri.path()
-            );
+            ),
         }
     }
 }
@@ -792,13 +796,14 @@ pub async fn handle_watched_files_changed(
             &processor,
             server,
             &changed_dependency_uris,
-        );
+        )
+        .await;
         server.invalidate_namespace_tree_cache_debounced();
         debug!("Reindexed watched project files and invalidated namespace tree cache");
     }
 }
 
-fn refresh_open_project_files_for_dependency_engines(
+async fn refresh_open_project_files_for_dependency_engines(
     processor: &FileProcessor,
     server: &RubyLanguageServer,
     changed_uris: &[Url],
@@ -838,13 +843,17 @@ fn refresh_open_project_files_for_dependency_engines(
     open_project_files.sort_by(|left, right| left.0.as_str().cmp(right.0.as_str()));
 
     for (uri, content) in open_project_files {
-        if let Err(error) =
-            processor.process_file_current_file_resolution_forced(&uri, &content, server)
-        {
-            log::warn!(
+        match processor.process_file_current_file_resolution_forced(&uri, &content, server) {
+            Ok(result) => {
+                let query = EngineQuery::with_engine(server.analysis_engine_for_uri(&uri));
+                let mut diagnostics = result.diagnostics;
+                diagnostics.extend(query.get_unresolved_diagnostics(&uri));
+                server.publish_diagnostics(uri, diagnostics).await;
+            }
+            Err(error) => log::warn!(
                 "Failed to refresh open project consumer after dependency change: {}: {error}",
                 uri.path()
-            );
+            ),
         }
     }
 }
-- 
2.43.0


From 88e23fae7afeee2311005f092ee259c9fa28c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 07/38] fix: resolve reused facts against the current project
 on save and open

---
 src/capabilities/indexing.rs  | 6 ++++++
 src/indexer/file_processor.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index 1726af5..c564f47 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -202,6 +202,12 @@ pub async fn handle_did_open(server: &RubyLanguageServer, params: DidOpenTextDoc
             Vec::new()
         };
         if indexed_content_matches {
+            // The reused facts may have been resolved against texts of other open
+            // documents that have changed since.
+            server
+                .analysis_engine_for_uri(&uri)
+                .write()
+                .resolve_file(analysis_file_id);
             server
                 .docs
                 .lock()
diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index ca784a3..5211ccc 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -374,6 +374,11 @@ impl FileProcessor {
                 analysis_file_id,
             );
             let diagnostics = generate_diagnostics(&parse_result, &doc);
+            // The facts are current, but the rest of the project was not resolved
+            // against them when they were collected with current-file resolution.
+            if resolution == FileResolution::Full {
+                server.analysis_engine_for_uri(uri).write().resolve();
+            }
             return Ok(ProcessResult {
                 affected_uris: HashSet::new(),
                 diagnostics,
-- 
2.43.0


From 03332b915c038c2b70d0e4ba86018ec121d4663f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 08/38] fix: resolve the name of a module reopened inside a
 namespace of its own name

---
 .../src/indexer/analysis_indexer.rs              | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 5fe59c1..c308963 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1267,7 +1267,17 @@ impl Visit<'_> for AnalysisIndexer {
 
     fn visit_module_node(&mut self, node: &ModuleNode<'_>) {
         let lexical_context = self.namespace_stack.clone();
-        let reopened_target = constant_parts_and_absolute(&node.constant_path())
+        let syntactic_fqn =
+            constant_parts_and_absolute(&node.constant_path()).map(|(parts, absolute)| {
+                if absolute {
+                    FullyQualifiedName::namespace(parts)
+                } else {
+                    let mut probe = lexical_context.clone();
+                    probe.extend(parts);
+                    FullyQualifiedName::namespace(probe)
+                }
+            });
+        let mut reopened_target = constant_parts_and_absolute(&node.constant_path())
             .and_then(|(parts, absolute)| {
                 self.resolve_declaration_constant_value_type_from(
                     &parts,
@@ -1287,6 +1297,10 @@ impl Visit<'_> for AnalysisIndexer {
                 | RubyType::Union(_)
                 | RubyType::Unknown => None,
             });
+        // Reopening a module under its own name declares it once more.
+        if syntactic_fqn.as_ref() == reopened_target.as_ref() {
+            reopened_target = None;
+        }
         let (parts, previous_namespace) = if let Some(target) = &reopened_target {
             let parts = target.namespace_parts().to_vec();
             assert!(
-- 
2.43.0


From da81e4f03650a4de1783fbe44dfc3db1c99457c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:04 +0000
Subject: [PATCH 09/38] fix: collect references in a class or module header in
 the enclosing namespace

---
 .../src/indexer/fact_collector/mod.rs         | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index cfd5c2c..fdb89a2 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -3621,22 +3621,34 @@ impl Visit<'_> for FactCollector {
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
-        if !self.process_module_node_entry(node) {
-            visit_module_node(self, node);
+        // The declared name belongs to the enclosing namespace.
+        self.visit(&node.constant_path());
+        let entered = self.process_module_node_entry(node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
+        if !entered {
             return;
         }
-        visit_module_node(self, node);
         let namespace = self.scope_tracker.get_ns_stack();
         self.finalize_method_return_equations_for_namespace(&namespace);
         self.process_module_node_exit(node);
     }
 
     fn visit_class_node(&mut self, node: &ClassNode) {
-        if !self.process_class_node_entry(node) {
-            visit_class_node(self, node);
+        // The declared name and the superclass belong to the enclosing
+        // namespace.
+        self.visit(&node.constant_path());
+        if let Some(superclass) = node.superclass() {
+            self.visit(&superclass);
+        }
+        let entered = self.process_class_node_entry(node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
+        if !entered {
             return;
         }
-        visit_class_node(self, node);
         let namespace = self.scope_tracker.get_ns_stack();
         self.finalize_method_return_equations_for_namespace(&namespace);
         self.process_class_node_exit(node);
-- 
2.43.0


From 2052f7af7f17a0cecc3d0b3a89b8132faade4968 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:28:04 +0000
Subject: [PATCH 10/38] fix: resolve absolute constant paths at top level only

---
 .../src/indexer/fact_collector/constant_path_node.rs | 10 ++++++++--
 src/capabilities/rename.rs                           | 12 ++++++------
 src/query/definition.rs                              |  4 ++--
 src/query/implementation.rs                          |  4 ++--
 src/query/references.rs                              |  8 ++++----
 src/query/type_hierarchy.rs                          |  6 +++---
 6 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs
index 0c13b21..090894c 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs
@@ -1,5 +1,5 @@
-use crate::collect_namespaces;
 use crate::core::ReferenceCandidate;
+use crate::{collect_namespaces, constant_path_is_absolute};
 use ruby_prism::ConstantPathNode;
 
 use super::FactCollector;
@@ -13,12 +13,18 @@ impl FactCollector {
             return;
         }
 
+        // `::Name` is looked up at the top level only, wherever it is written.
+        let lexical_context = if constant_path_is_absolute(node) {
+            Vec::new()
+        } else {
+            self.scope_tracker.get_ns_stack()
+        };
         let range =
             self.text_range_from_prism_location(&node.location(), "constant path reference");
         self.reference_candidates.push(ReferenceCandidate::constant(
             range,
             namespaces,
-            self.scope_tracker.get_ns_stack(),
+            lexical_context,
         ));
     }
 
diff --git a/src/capabilities/rename.rs b/src/capabilities/rename.rs
index e9d56f2..88c7b60 100644
--- a/src/capabilities/rename.rs
+++ b/src/capabilities/rename.rs
@@ -65,13 +65,13 @@ pub async fn handle_prepare_rename(
     drop(engine);
 
     let analyzer = RubyPrismAnalyzer::new(uri.clone(), content.clone());
-    let (identifier, _, ancestors, _, _) = analyzer.get_identifier(analysis_offset);
-    let Identifier::RubyConstant { iden, .. } = identifier? else {
+    let (identifier, _, _, _, _) = analyzer.get_identifier(analysis_offset);
+    let Identifier::RubyConstant { namespace, iden } = identifier? else {
         return None;
     };
     let analysis_engine = server.analysis_engine_for_uri(&uri);
     let engine = analysis_engine.read();
-    let target = AnalysisQuery::new(&engine).constant_rename_target(&iden, &ancestors)?;
+    let target = AnalysisQuery::new(&engine).constant_rename_target(&iden, &namespace)?;
     let location = locations_for_ranges(&engine, target.ranges)
         .into_iter()
         .find(|location| location.uri == uri && range_contains(location.range, position))?;
@@ -153,15 +153,15 @@ pub async fn handle_rename(
 
         let new_constant = RubyConstant::new(&new_name).ok()?;
         let analyzer = RubyPrismAnalyzer::new(uri.clone(), content.clone());
-        let (identifier, _, ancestors, _, _) = analyzer.get_identifier(analysis_offset);
-        let Identifier::RubyConstant { iden, .. } = identifier? else {
+        let (identifier, _, _, _, _) = analyzer.get_identifier(analysis_offset);
+        let Identifier::RubyConstant { namespace, iden } = identifier? else {
             return None;
         };
 
         let analysis_engine = server.analysis_engine_for_uri(&uri);
         let engine = analysis_engine.read();
         let query = AnalysisQuery::new(&engine);
-        let target = query.constant_rename_target_for_name(&iden, &ancestors, new_constant)?;
+        let target = query.constant_rename_target_for_name(&iden, &namespace, new_constant)?;
         for location in locations_for_ranges(&engine, target.ranges) {
             changes
                 .entry(location.uri)
diff --git a/src/query/definition.rs b/src/query/definition.rs
index 775ac3c..e5f92de 100644
--- a/src/query/definition.rs
+++ b/src/query/definition.rs
@@ -268,9 +268,9 @@ impl EngineQuery {
         content: &str,
     ) -> Option<Vec<Location>> {
         match identifier {
-            Identifier::RubyConstant { namespace: _, iden } => {
+            Identifier::RubyConstant { namespace, iden } => {
                 // iden is Vec<RubyConstant> - the full constant path being referenced
-                self.find_constant_definitions_by_path(iden, ancestors)
+                self.find_constant_definitions_by_path(iden, namespace)
             }
             Identifier::RubyMethod {
                 namespace,
diff --git a/src/query/implementation.rs b/src/query/implementation.rs
index d82777c..d4520c3 100644
--- a/src/query/implementation.rs
+++ b/src/query/implementation.rs
@@ -60,8 +60,8 @@ impl EngineQuery {
                 )?;
                 self.method_implementations_from_analysis(&owner_fqn, iden)
             }
-            Identifier::RubyConstant { namespace: _, iden } => {
-                let fqn = self.resolve_constant_fqn(iden, &ancestors);
+            Identifier::RubyConstant { namespace, iden } => {
+                let fqn = self.resolve_constant_fqn(iden, namespace);
                 self.namespace_implementations_from_analysis(&fqn)
             }
             _ => {
diff --git a/src/query/references.rs b/src/query/references.rs
index a3f2e78..6e6e905 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -413,8 +413,8 @@ impl EngineQuery {
         content: &str,
     ) -> Option<Vec<Location>> {
         match identifier {
-            Identifier::RubyConstant { namespace: _, iden } => {
-                self.constant_reference_locations_from_analysis(iden, ancestors)
+            Identifier::RubyConstant { namespace, iden } => {
+                self.constant_reference_locations_from_analysis(iden, namespace)
             }
             Identifier::RubyMethod {
                 namespace: _,
@@ -472,8 +472,8 @@ impl EngineQuery {
         file_id: SourceFileId,
     ) -> Option<Vec<Location>> {
         match identifier {
-            Identifier::RubyConstant { namespace: _, iden } => {
-                self.same_file_constant_highlight_locations(iden, ancestors, file_id)
+            Identifier::RubyConstant { namespace, iden } => {
+                self.same_file_constant_highlight_locations(iden, namespace, file_id)
             }
             Identifier::RubyMethod {
                 namespace: _,
diff --git a/src/query/type_hierarchy.rs b/src/query/type_hierarchy.rs
index 025eca6..08f518f 100644
--- a/src/query/type_hierarchy.rs
+++ b/src/query/type_hierarchy.rs
@@ -66,14 +66,14 @@ impl EngineQuery {
 
         // Use analyzer to find identifier at position before locking analysis state.
         let analyzer = self.analyzer_at_position(uri, &content, position);
-        let (identifier, _, ancestors, _scope_id, _namespace_kind) =
+        let (identifier, _, _, _scope_id, _namespace_kind) =
             analyzer.get_identifier_at_position(source_position(position));
 
         let identifier = identifier?;
 
         // Only handle constants (class/module names)
-        let constant_parts = match &identifier {
-            Identifier::RubyConstant { namespace: _, iden } => iden.clone(),
+        let (constant_parts, ancestors) = match &identifier {
+            Identifier::RubyConstant { namespace, iden } => (iden.clone(), namespace.clone()),
             _ => {
                 debug!("Type hierarchy only supports constants (classes/modules)");
                 return None;
-- 
2.43.0


From 7e49d08233fca14e5198dd3ce28869479fe4919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 11/38] fix: rename local variables in keyword parameters,
 block locals and class, method and singleton headers

---
 crates/ruby-analysis/src/indexer/rename.rs | 72 ++++++++++++++++------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rename.rs b/crates/ruby-analysis/src/indexer/rename.rs
index 5b9f9d4..f9dd9ef 100644
--- a/crates/ruby-analysis/src/indexer/rename.rs
+++ b/crates/ruby-analysis/src/indexer/rename.rs
@@ -20,14 +20,14 @@
 
 use crate::core::{SourceFileId, TextRange};
 use ruby_prism::{
-    visit_block_node, visit_block_parameter_node, visit_class_node, visit_def_node,
-    visit_lambda_node, visit_local_variable_and_write_node,
-    visit_local_variable_operator_write_node, visit_local_variable_or_write_node,
-    visit_local_variable_write_node, visit_module_node, visit_optional_parameter_node,
-    visit_singleton_class_node, BlockNode, BlockParameterNode, ClassNode, DefNode,
-    KeywordRestParameterNode, LambdaNode, LocalVariableAndWriteNode,
-    LocalVariableOperatorWriteNode, LocalVariableOrWriteNode, LocalVariableReadNode,
-    LocalVariableTargetNode, LocalVariableWriteNode, ModuleNode, Node, OptionalParameterNode,
+    visit_block_node, visit_block_parameter_node, visit_lambda_node,
+    visit_local_variable_and_write_node, visit_local_variable_operator_write_node,
+    visit_local_variable_or_write_node, visit_local_variable_write_node,
+    visit_optional_keyword_parameter_node, visit_optional_parameter_node, BlockLocalVariableNode,
+    BlockNode, BlockParameterNode, ClassNode, DefNode, KeywordRestParameterNode, LambdaNode,
+    LocalVariableAndWriteNode, LocalVariableOperatorWriteNode, LocalVariableOrWriteNode,
+    LocalVariableReadNode, LocalVariableTargetNode, LocalVariableWriteNode, ModuleNode, Node,
+    OptionalKeywordParameterNode, OptionalParameterNode, RequiredKeywordParameterNode,
     RequiredParameterNode, RestParameterNode, SingletonClassNode, Visit,
 };
 
@@ -103,10 +103,6 @@ impl RenameVisitor {
         self.scope_stack.get(idx).copied()
     }
 
-    fn cursor_in_location(&self, location: &ruby_prism::Location) -> bool {
-        self.cursor_offset >= location.start_offset() && self.cursor_offset < location.end_offset()
-    }
-
     /// Process a local variable node (read, write, target, compound assignment).
     fn process_local_var(
         &mut self,
@@ -118,10 +114,13 @@ impl RenameVisitor {
             Some(id) => id,
             None => return,
         };
+        // The name alone: the name location of a keyword parameter covers its colon.
+        let start = name_range_location.start_offset();
+        let end = start + name_bytes.len();
 
         match self.phase {
             Phase::FindTarget => {
-                if self.target_name.is_none() && self.cursor_in_location(name_range_location) {
+                if self.target_name.is_none() && (start..end).contains(&self.cursor_offset) {
                     self.target_name = Some(String::from_utf8_lossy(name_bytes).to_string());
                     self.target_scope_id = Some(defining_scope);
                 }
@@ -134,10 +133,10 @@ impl RenameVisitor {
                     if name.as_ref() == target_name.as_str() && defining_scope == target_scope {
                         let range = TextRange::new(
                             self.file_id,
-                            u32::try_from(name_range_location.start_offset()).expect(
+                            u32::try_from(start).expect(
                                 "INVARIANT VIOLATED: rename start offset exceeded u32. This is a bug because TextRange stores u32 offsets. Fix: widen TextRange before accepting larger source files.",
                             ),
-                            u32::try_from(name_range_location.end_offset()).expect(
+                            u32::try_from(end).expect(
                                 "INVARIANT VIOLATED: rename end offset exceeded u32. This is a bug because TextRange stores u32 offsets. Fix: widen TextRange before accepting larger source files.",
                             ),
                         );
@@ -158,20 +157,37 @@ impl Visit<'_> for RenameVisitor {
     // ── Scope-creating nodes ────────────────────────────────────────────
 
     fn visit_def_node(&mut self, node: &DefNode) {
+        if let Some(receiver) = node.receiver() {
+            self.visit(&receiver);
+        }
         self.push_scope();
-        visit_def_node(self, node);
+        if let Some(parameters) = node.parameters() {
+            self.visit_parameters_node(&parameters);
+        }
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
     fn visit_class_node(&mut self, node: &ClassNode) {
+        self.visit(&node.constant_path());
+        if let Some(superclass) = node.superclass() {
+            self.visit(&superclass);
+        }
         self.push_scope();
-        visit_class_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
+        self.visit(&node.constant_path());
         self.push_scope();
-        visit_module_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
@@ -188,8 +204,11 @@ impl Visit<'_> for RenameVisitor {
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode) {
+        self.visit(&node.expression());
         self.push_scope();
-        visit_singleton_class_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
@@ -241,6 +260,21 @@ impl Visit<'_> for RenameVisitor {
         visit_optional_parameter_node(self, node);
     }
 
+    fn visit_required_keyword_parameter_node(&mut self, node: &RequiredKeywordParameterNode) {
+        self.process_parameter(node.name().as_slice(), &node.name_loc());
+        // Leaf node
+    }
+
+    fn visit_optional_keyword_parameter_node(&mut self, node: &OptionalKeywordParameterNode) {
+        self.process_parameter(node.name().as_slice(), &node.name_loc());
+        visit_optional_keyword_parameter_node(self, node);
+    }
+
+    fn visit_block_local_variable_node(&mut self, node: &BlockLocalVariableNode) {
+        self.process_parameter(node.name().as_slice(), &node.location());
+        // Leaf node
+    }
+
     fn visit_rest_parameter_node(&mut self, node: &RestParameterNode) {
         if let (Some(name), Some(name_loc)) = (node.name(), node.name_loc()) {
             self.process_parameter(name.as_slice(), &name_loc);
-- 
2.43.0


From 3ba4ad0fddc92a5e375b8f2f4645637280a9dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 12/38] fix: navigate local variables by the parser's scoping,
 as rename does

Operator writes, block locals and some parameters had no definition or
references, a write in a block counted as a new variable, and a block's own
variable was mixed up with a later outer one of the same name.
---
 .../src/indexer/ruby_document.rs              | 38 ---------
 src/query/definition.rs                       | 59 ++++----------
 src/query/references.rs                       | 81 +++++++------------
 3 files changed, 41 insertions(+), 137 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/ruby_document.rs b/crates/ruby-analysis/src/indexer/ruby_document.rs
index 5015728..6c3f689 100644
--- a/crates/ruby-analysis/src/indexer/ruby_document.rs
+++ b/crates/ruby-analysis/src/indexer/ruby_document.rs
@@ -183,44 +183,6 @@ impl RubyDocument {
         )
     }
 
-    pub fn local_variable_definition_range_before(
-        &self,
-        name: &str,
-        byte_offset: u32,
-    ) -> Option<TextRange> {
-        let file_id = self.analysis_file_id();
-        let scope_id = self
-            .variable_scopes
-            .find_scope_for_variable_at(name, file_id, byte_offset)
-            .or_else(|| self.variable_scopes.scope_at_position(file_id, byte_offset))?;
-        let (_sid, variable) = self.variable_scopes.find_variable(name, scope_id)?;
-        if variable.definition_location.start_byte < byte_offset {
-            Some(variable.definition_location)
-        } else {
-            None
-        }
-    }
-
-    pub fn local_variable_reference_ranges_at(
-        &self,
-        name: &str,
-        byte_offset: u32,
-    ) -> Vec<TextRange> {
-        let file_id = self.analysis_file_id();
-        let Some(scope_id) =
-            self.variable_scopes
-                .find_scope_for_variable_at(name, file_id, byte_offset)
-        else {
-            return Vec::new();
-        };
-
-        self.variable_scopes
-            .find_rename_targets(name, scope_id)
-            .into_iter()
-            .map(|target| target.location)
-            .collect()
-    }
-
     /// Returns a mutable reference to variable scopes for building during indexing
     pub fn variable_scopes_mut(&mut self) -> &mut VariableScopes {
         &mut self.variable_scopes
diff --git a/src/query/definition.rs b/src/query/definition.rs
index e5f92de..e86b028 100644
--- a/src/query/definition.rs
+++ b/src/query/definition.rs
@@ -5,7 +5,7 @@
 use log::info;
 use ruby_analysis::core::NamespaceKind;
 use ruby_analysis::core::RubyConstant;
-use ruby_analysis::core::{FullyQualifiedName, SymbolKind};
+use ruby_analysis::core::FullyQualifiedName;
 use ruby_analysis::engine::AnalysisQuery;
 use ruby_analysis::indexer::yard::YardParser;
 use ruby_analysis::indexer::{Identifier, MethodReceiver, RubyPrismAnalyzer};
@@ -13,7 +13,7 @@ use tower_lsp::lsp_types::{Location, Position, Url};
 
 use super::analysis_location::{locations_for_ranges, non_empty_locations};
 use super::EngineQuery;
-use crate::utils::lsp::{lsp_text_location, source_position};
+use crate::utils::lsp::source_position;
 use crate::utils::position_to_offset;
 
 impl EngineQuery {
@@ -45,6 +45,10 @@ impl EngineQuery {
             return self.find_yard_type_definitions(&yard_type.type_name, &ancestors);
         }
 
+        if let Some(locations) = self.find_local_variable_definition(position) {
+            return Some(locations);
+        }
+
         if let Some(locations) = self.resolved_reference_definition_locations(position) {
             return Some(locations);
         }
@@ -96,26 +100,13 @@ impl EngineQuery {
         None
     }
 
-    /// Find definitions for a local variable using VariableScopes (position-based lookup)
-    fn find_local_variable_definitions_at_position(
-        &self,
-        name: &str,
-        position: Position,
-    ) -> Option<Vec<Location>> {
-        let doc_arc = self.doc.as_ref()?;
-        let document = doc_arc.read();
-
-        let byte_offset = document.position_to_analysis_offset(source_position(position));
-        document
-            .local_variable_definition_range_before(name, byte_offset)
-            .map(|range| vec![lsp_text_location(&document, range)])
-            .or_else(|| {
-                self.local_variable_definition_locations_from_analysis(
-                    name,
-                    document.analysis_file_id(),
-                    byte_offset,
-                )
-            })
+    /// Find the definition of the local variable at a position: the first
+    /// occurrence of the variable that the parser binds there.
+    fn find_local_variable_definition(&self, position: Position) -> Option<Vec<Location>> {
+        self.find_local_variable_references(position)?
+            .into_iter()
+            .min_by_key(|location| location.range.start)
+            .map(|location| vec![location])
     }
 
     /// Find definitions for a global variable.
@@ -307,9 +298,7 @@ impl EngineQuery {
             Identifier::RubyGlobalVariable { name, .. } => {
                 self.find_global_variable_definitions(name)
             }
-            Identifier::RubyLocalVariable { name, .. } => {
-                self.find_local_variable_definitions_at_position(name, position)
-            }
+            Identifier::RubyLocalVariable { .. } => None,
             Identifier::YardType { type_name, .. } => {
                 // YardType identifier doesn't have namespace context, use empty ancestors
                 // The main YARD type path (detected via YardParser) handles namespace resolution
@@ -427,24 +416,4 @@ impl EngineQuery {
             query.global_variable_definition_ranges(name),
         ))
     }
-
-    fn local_variable_definition_locations_from_analysis(
-        &self,
-        name: &str,
-        file_id: ruby_analysis::core::SourceFileId,
-        byte_offset: u32,
-    ) -> Option<Vec<Location>> {
-        let fqn = FullyQualifiedName::local_variable(name.to_string()).ok()?;
-        let engine = self.analysis_engine()?;
-        let engine = engine.read();
-        let range = engine
-            .symbol_facts_for(&fqn)
-            .into_iter()
-            .filter(|fact| fact.kind == SymbolKind::LocalVariable)
-            .filter(|fact| fact.range.file_id == file_id)
-            .filter(|fact| fact.range.start_byte < byte_offset)
-            .max_by_key(|fact| fact.range.start_byte)
-            .map(|fact| fact.range)?;
-        non_empty_locations(locations_for_ranges(&engine, vec![range]))
-    }
 }
diff --git a/src/query/references.rs b/src/query/references.rs
index 6e6e905..e4c8d43 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -9,12 +9,9 @@ use ruby_analysis::core::RubyConstant;
 use ruby_analysis::core::RubyMethod;
 use ruby_analysis::core::SourceFileId;
 use ruby_analysis::core::TextRange;
-use ruby_analysis::indexer::fact_collector::{FactCollector, NullFactCollectorExtensionHost};
 use ruby_analysis::indexer::yard::YardTypeConverter;
-use ruby_analysis::indexer::{Identifier, MethodReceiver};
-use ruby_prism::Visit;
+use ruby_analysis::indexer::{Identifier, MethodReceiver, RenameVisitor};
 use std::path::Path;
-use std::sync::Arc;
 use tower_lsp::lsp_types::{Location, Position, Range, Url};
 
 use super::analysis_location::{locations_for_ranges, non_empty_locations};
@@ -29,6 +26,10 @@ impl EngineQuery {
         position: Position,
         content: &str,
     ) -> Option<Vec<Location>> {
+        if let Some(locations) = self.find_local_variable_references(position) {
+            return Some(locations);
+        }
+
         let analyzer = self.analyzer_at_position(uri, content, position);
         let (identifier_opt, _, ancestors, _scope_stack, namespace_kind) =
             analyzer.get_identifier_at_position(source_position(position));
@@ -55,6 +56,11 @@ impl EngineQuery {
         position: Position,
         content: &str,
     ) -> Option<Vec<Location>> {
+        // Locals are already document-scoped.
+        if let Some(locations) = self.find_local_variable_references(position) {
+            return Some(locations);
+        }
+
         let file_id = self.doc.as_ref()?.read().analysis_file_id();
         let analyzer = self.analyzer_at_position(uri, content, position);
         let (identifier_opt, _, ancestors, _scope_stack, namespace_kind) =
@@ -279,33 +285,24 @@ impl EngineQuery {
         None
     }
 
-    /// Find references to a local variable using VariableScopes.
-    fn find_local_variable_references(
+    /// Every occurrence of the local variable at a position, from the parser's
+    /// own scoping, so that navigation agrees with rename on what the variable is.
+    pub(super) fn find_local_variable_references(
         &self,
-        name: &str,
         position: Position,
     ) -> Option<Vec<Location>> {
-        let doc_arc = self.doc.as_ref()?;
-        let document = doc_arc.read();
-
-        let byte_offset = document.position_to_analysis_offset(source_position(position));
-        let ranges = document.local_variable_reference_ranges_at(name, byte_offset);
-        if !ranges.is_empty() {
-            return Some(
-                ranges
-                    .into_iter()
-                    .map(|range| lsp_text_location(&document, range))
-                    .collect(),
-            );
-        }
-        drop(document);
-
-        self.rebuild_local_variable_scopes_for_open_document()?;
-        let document = doc_arc.read();
-        let ranges = document.local_variable_reference_ranges_at(name, byte_offset);
-        if ranges.is_empty() {
-            return None;
-        }
+        let document = self.doc.as_ref()?.read();
+        let offset = document.position_to_offset(source_position(position));
+        let parse_result = document.parse();
+        let root = parse_result.node();
+        // A cursor right behind a name is on that name, too.
+        let ranges = [Some(offset), offset.checked_sub(1)]
+            .into_iter()
+            .flatten()
+            .map(|cursor| {
+                RenameVisitor::find_rename_targets(document.analysis_file_id(), cursor, &root)
+            })
+            .find(|ranges| !ranges.is_empty())?;
         Some(
             ranges
                 .into_iter()
@@ -449,9 +446,7 @@ impl EngineQuery {
                     None
                 }
             }
-            Identifier::RubyLocalVariable { name, .. } => {
-                self.find_local_variable_references(name, position)
-            }
+            Identifier::RubyLocalVariable { .. } => None,
             Identifier::YardType { type_name, .. } => {
                 if let Some(fqn) = YardTypeConverter::parse_type_name_to_fqn_public(type_name) {
                     self.find_constant_references(&fqn)
@@ -509,10 +504,7 @@ impl EngineQuery {
                     None
                 }
             }
-            Identifier::RubyLocalVariable { name, .. } => {
-                // Locals are already document-scoped via VariableScopes.
-                self.find_local_variable_references(name, position)
-            }
+            Identifier::RubyLocalVariable { .. } => None,
             Identifier::YardType { type_name, .. } => {
                 if let Some(fqn) = YardTypeConverter::parse_type_name_to_fqn_public(type_name) {
                     self.same_file_fqn_highlight_locations(&fqn, file_id)
@@ -797,25 +789,6 @@ impl EngineQuery {
             query.reference_ranges_for_fqn(fqn),
         ))
     }
-
-    fn rebuild_local_variable_scopes_for_open_document(&self) -> Option<()> {
-        let doc_arc = self.doc.as_ref()?;
-        let document = doc_arc.read().clone();
-        let content = document.content.clone();
-        let parse_result = ruby_prism::parse(content.as_bytes());
-        let node = parse_result.node();
-        let mut collector = FactCollector::analysis_only(
-            document,
-            Arc::new(NullFactCollectorExtensionHost),
-            self.analysis_engine()?.clone(),
-        )
-        .without_analysis_method_return_resolution()
-        .without_expression_receiver_inference()
-        .without_diagnostics();
-        collector.visit(&node);
-        doc_arc.write().variable_scopes = collector.document.variable_scopes;
-        Some(())
-    }
 }
 
 enum MethodHighlightMode {
-- 
2.43.0


From 6018b3e478d3263384586ed502e6f23b0bafe329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:40 +0000
Subject: [PATCH 13/38] fix: keep overlapping watched-file, open and change
 handlers from leaving stale analysis

---
 src/capabilities/indexing.rs | 30 ++++++++++++++++++++++++++----
 src/server.rs                |  7 +++++++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index c564f47..7daac53 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -6,7 +6,7 @@ use crate::query::EngineQuery;
 use crate::server::RubyLanguageServer;
 use crate::utils::ProjectFilePolicy;
 use ruby_analysis::core::SourceKind;
-use ruby_analysis::engine::{FileFacts, ResolveMode, SourceFileInput};
+use ruby_analysis::engine::{FileFacts, ResolveMode, SemanticChange, SourceFileInput};
 use ruby_analysis::indexer::RubyDocument;
 
 use log::{debug, info};
@@ -399,6 +399,13 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
     let analysis_file_id =
         server.open_or_update_analysis_file_with_kind(&uri, final_content.clone(), source_kind);
     let register_elapsed = register_start.elapsed();
+    let exports = |server: &RubyLanguageServer| {
+        server
+            .analysis_engine_for_uri(&uri)
+            .read()
+            .semantic_export_fingerprint(analysis_file_id)
+    };
+    let previous_exports = exports(server);
 
     let doc_start = Instant::now();
     // Update or create the document atomically
@@ -443,9 +450,16 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
         Err(_) => (
             std::collections::HashSet::new(),
             Vec::new(),
-            ruby_analysis::engine::SemanticChange::BodyOnly,
+            SemanticChange::BodyOnly,
         ),
     };
+    // A refresh on behalf of another document may have committed the new text first.
+    let semantic_change = match exports(server) {
+        Some(current) if semantic_change == SemanticChange::BodyOnly => {
+            SemanticChange::classify(previous_exports, current)
+        }
+        _ => semantic_change,
+    };
     let process_elapsed = process_start.elapsed();
 
     // Add unresolved diagnostics (now freshly computed with correct positions)
@@ -466,7 +480,7 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
 
     let open_refresh_start = Instant::now();
     let open_refresh_count =
-        if semantic_change == ruby_analysis::engine::SemanticChange::ExportsChanged {
+        if semantic_change == SemanticChange::ExportsChanged {
             refresh_bounded_open_diagnostics(server, &indexer, &uri).await
         } else {
             0
@@ -668,7 +682,7 @@ async fn append_external_linter_diagnostics(
 pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextDocumentParams) {
     let uri = params.text_document.uri.clone();
     let semantic_lock = server.document_semantic_lock(&uri);
-    let _semantic_guard = semantic_lock.lock().await;
+    let semantic_guard = semantic_lock.lock().await;
 
     // Remove the document from in-memory cache but keep analysis facts.
     let closed = server.docs.lock().remove(&uri);
@@ -689,6 +703,7 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
             && !indexed_disk_content_matches(server, &uri, &content)
         {
             let changes = vec![FileEvent::new(uri.clone(), FileChangeType::CHANGED)];
+            drop(semantic_guard);
             handle_watched_files_changed(server, DidChangeWatchedFilesParams { changes }).await;
         }
     }
@@ -721,7 +736,14 @@ pub async fn handle_watched_files_changed(
     let mut analysis_changed = false;
     let mut changed_dependency_uris = Vec::new();
 
+    // Each file is read and its facts are committed later: the stale read of an
+    // earlier batch must not overtake a later batch or an open document.
+    let watched_files_lock = server.watched_files_lock();
+    let _watched_files_guard = watched_files_lock.lock().await;
+
     for change in params.changes {
+        let semantic_lock = server.document_semantic_lock(&change.uri);
+        let _semantic_guard = semantic_lock.lock().await;
         let Some(workspace) = server.workspace_for_uri(&change.uri) else {
             continue;
         };
diff --git a/src/server.rs b/src/server.rs
index f25bd32..2f1e674 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -383,6 +383,7 @@ pub struct RubyLanguageServer {
     pub workspaces: Arc<RwLock<Vec<Workspace>>>,
     pub docs: Arc<Mutex<HashMap<Url, Arc<RwLock<RubyDocument>>>>>,
     document_semantic_locks: Arc<Mutex<HashMap<Url, Weak<tokio::sync::Mutex<()>>>>>,
+    watched_files_lock: Arc<tokio::sync::Mutex<()>>,
     /// Analysis state for open files outside every registered Ruby project.
     /// Project facts live in `Workspace::analysis_engine` and must never be
     /// written here.
@@ -470,6 +471,7 @@ impl RubyLanguageServer {
             workspaces: Arc::new(RwLock::new(Vec::new())),
             docs: Arc::new(Mutex::new(HashMap::new())),
             document_semantic_locks: Arc::new(Mutex::new(HashMap::new())),
+            watched_files_lock: Arc::new(tokio::sync::Mutex::new(())),
             analysis_engine: new_orphan_analysis_engine(),
             external_document_projects: Arc::new(RwLock::new(HashMap::new())),
             config: Arc::new(Mutex::new(config)),
@@ -552,6 +554,10 @@ impl RubyLanguageServer {
         self.watched_file_changes.lock().cancel();
     }
 
+    pub(crate) fn watched_files_lock(&self) -> Arc<tokio::sync::Mutex<()>> {
+        self.watched_files_lock.clone()
+    }
+
     pub(crate) fn document_semantic_lock(&self, uri: &Url) -> Arc<tokio::sync::Mutex<()>> {
         let mut locks = self.document_semantic_locks.lock();
         locks.retain(|_, lock| lock.strong_count() > 0);
@@ -1652,6 +1658,7 @@ impl Default for RubyLanguageServer {
             workspaces: Arc::new(RwLock::new(Vec::new())),
             docs: Arc::new(Mutex::new(HashMap::new())),
             document_semantic_locks: Arc::new(Mutex::new(HashMap::new())),
+            watched_files_lock: Arc::new(tokio::sync::Mutex::new(())),
             analysis_engine: new_orphan_analysis_engine(),
             external_document_projects: Arc::new(RwLock::new(HashMap::new())),
             config: Arc::new(Mutex::new(RubyFastLspConfig::default())),
-- 
2.43.0


From e5f02fe6428f451a788f3424ff545803071c2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 14/38] fix: apply the visibility of an inline definition
 (private def m)

---
 crates/ruby-analysis/src/indexer/analysis_indexer.rs   | 10 +++++++++-
 .../src/indexer/fact_collector/call_node/mod.rs        | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index c308963..511d044 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -535,7 +535,15 @@ impl AnalysisIndexer {
         }
 
         for arg in arguments.arguments().iter() {
-            let Some((name, range)) = method_name_and_range(&arg, self.file_id) else {
+            // `private def name` passes the name of the method it defines.
+            let named = match arg.as_def_node().filter(|def| def.receiver().is_none()) {
+                Some(def) => Some((
+                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
+                    text_range(self.file_id, &def.name_loc()),
+                )),
+                None => method_name_and_range(&arg, self.file_id),
+            };
+            let Some((name, range)) = named else {
                 continue;
             };
             let Ok(method) = RubyMethod::new(&name) else {
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 11a5ed0..375d02a 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -168,7 +168,15 @@ impl FactCollector {
         }
 
         for arg in arguments.arguments().iter() {
-            let Some((name, range)) = direct_method_name_and_range(self, &arg) else {
+            // `private def name` passes the name of the method it defines.
+            let named = match arg.as_def_node().filter(|def| def.receiver().is_none()) {
+                Some(def) => Some((
+                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
+                    self.direct_range(&def.name_loc()),
+                )),
+                None => direct_method_name_and_range(self, &arg),
+            };
+            let Some((name, range)) = named else {
                 continue;
             };
             let Ok(method) = RubyMethod::new(&name) else {
-- 
2.43.0


From 3a726a29069750a5930ac7b6925b14c579befdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 15/38] fix: let a literal self receiver reach private methods

---
 .../src/indexer/fact_collector/call_node/mod.rs             | 6 +++---
 src/query/definition.rs                                     | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 375d02a..0a4cc76 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -2006,9 +2006,9 @@ fn method_reference_access(
     }
 
     match receiver_info {
-        ReceiverInfo::NoReceiver => MethodReferenceAccess::Normal,
-        ReceiverInfo::SelfReceiver
-        | ReceiverInfo::ConstantReceiver(_)
+        // A literal `self` receiver may call private methods too.
+        ReceiverInfo::NoReceiver | ReceiverInfo::SelfReceiver => MethodReferenceAccess::Normal,
+        ReceiverInfo::ConstantReceiver(_)
         | ReceiverInfo::ExpressionReceiver
         | ReceiverInfo::InvalidConstantPath => MethodReferenceAccess::ExplicitReceiver,
     }
diff --git a/src/query/definition.rs b/src/query/definition.rs
index e86b028..c38734a 100644
--- a/src/query/definition.rs
+++ b/src/query/definition.rs
@@ -134,6 +134,7 @@ fn method_receiver_allows_private(
     matches!(
         receiver,
         ruby_analysis::indexer::MethodReceiver::None
+            | ruby_analysis::indexer::MethodReceiver::SelfReceiver
             | ruby_analysis::indexer::MethodReceiver::Super
     ) || static_send_symbol_at_position(content, position)
 }
-- 
2.43.0


From 410667e368be119e55cdd8c0b0c1ce06b43915c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 16/38] fix: order mixed-in modules as Ruby does

---
 crates/ruby-analysis/src/engine/resolution.rs | 114 +++++++++++-------
 1 file changed, 71 insertions(+), 43 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index dbac6da..d81cb48 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -2651,67 +2651,95 @@ fn build_mro(
     visited: &mut std::collections::HashSet<FullyQualifiedName>,
     allow_non_language_universal_edges: bool,
 ) {
-    if !visited.insert(fqn.clone()) {
+    if visited.contains(fqn) {
         return;
     }
+    let mut known = HashMap::new();
+    for ancestor in linear_ancestors(engine, fqn, allow_non_language_universal_edges, &mut known) {
+        if visited.insert(ancestor.clone()) {
+            chain.push(ancestor);
+        }
+    }
+}
+
+fn linear_ancestors(
+    engine: &crate::AnalysisEngine,
+    fqn: &FullyQualifiedName,
+    allow_non_language_universal_edges: bool,
+    known: &mut HashMap<FullyQualifiedName, Vec<FullyQualifiedName>>,
+) -> Vec<FullyQualifiedName> {
+    if let Some(ancestors) = known.get(fqn) {
+        return ancestors.clone();
+    }
+    // What leads back to itself contributes nothing more.
+    known.insert(fqn.clone(), Vec::new());
 
     let language_owned_only = is_universal_open_root(fqn) && !allow_non_language_universal_edges;
     let edge_is_allowed = |edge: &GraphEdgeFact| {
         !language_owned_only || method_lookup_edge_is_language_owned(engine, edge)
     };
-
-    let mut prepends = edges_from(engine, fqn, GraphEdgeKind::Prepend)
-        .into_iter()
-        .filter(&edge_is_allowed)
-        .collect::<Vec<_>>();
-    for edge in prepends.iter_mut().rev() {
-        build_mro(
+    let mut ancestors_of = |edge: &GraphEdgeFact| {
+        linear_ancestors(
             engine,
             &edge.target,
-            chain,
-            visited,
             allow_non_language_universal_edges,
-        );
-    }
-
-    chain.push(fqn.clone());
+            known,
+        )
+    };
 
-    let mut includes = edges_from(engine, fqn, GraphEdgeKind::Include)
+    let inherited = engine
+        .proven_superclass_edge(fqn)
+        .filter(&edge_is_allowed)
+        .map(|superclass| ancestors_of(&superclass))
+        .unwrap_or_default();
+    let mut prepended = Vec::new();
+    for edge in edges_from(engine, fqn, GraphEdgeKind::Prepend)
         .into_iter()
         .filter(&edge_is_allowed)
-        .collect::<Vec<_>>();
-    for edge in includes.iter_mut().rev() {
-        build_mro(
-            engine,
-            &edge.target,
-            chain,
-            visited,
-            allow_non_language_universal_edges,
-        );
+    {
+        mix_in(&mut prepended, ancestors_of(&edge), &[]);
     }
-
-    let mut included_hook_extends = included_hook_extend_edges(engine, fqn, language_owned_only)
+    let mut included = Vec::new();
+    for edge in edges_from(engine, fqn, GraphEdgeKind::Include)
         .into_iter()
         .filter(&edge_is_allowed)
-        .collect::<Vec<_>>();
-    for edge in included_hook_extends.iter_mut().rev() {
-        build_mro(
-            engine,
-            &edge.target,
-            chain,
-            visited,
-            allow_non_language_universal_edges,
-        );
+    {
+        mix_in(&mut included, ancestors_of(&edge), &inherited);
     }
+    let mut included_hooks = Vec::new();
+    for edge in included_hook_extend_edges(engine, fqn, language_owned_only)
+        .into_iter()
+        .filter(&edge_is_allowed)
+    {
+        mix_in(&mut included_hooks, ancestors_of(&edge), &inherited);
+    }
+
+    let mut ancestors = prepended;
+    ancestors.push(fqn.clone());
+    ancestors.extend(included);
+    ancestors.extend(included_hooks);
+    ancestors.extend(inherited);
+    let mut seen = HashSet::new();
+    ancestors.retain(|ancestor| seen.insert(ancestor.clone()));
+    known.insert(fqn.clone(), ancestors.clone());
+    ancestors
+}
 
-    if let Some(superclass) = engine.proven_superclass_edge(fqn).filter(&edge_is_allowed) {
-        build_mro(
-            engine,
-            &superclass.target,
-            chain,
-            visited,
-            allow_non_language_universal_edges,
-        );
+/// Ruby's order of mixed-in modules: a later mixin comes first, a module that is
+/// already mixed in keeps its place, and one that is inherited is left out.
+fn mix_in(
+    mixins: &mut Vec<FullyQualifiedName>,
+    ancestors: Vec<FullyQualifiedName>,
+    inherited: &[FullyQualifiedName],
+) {
+    let mut insertion_point = 0;
+    for ancestor in ancestors {
+        if let Some(place) = mixins.iter().position(|known| *known == ancestor) {
+            insertion_point = insertion_point.max(place + 1);
+        } else if !inherited.contains(&ancestor) {
+            mixins.insert(insertion_point, ancestor);
+            insertion_point += 1;
+        }
     }
 }
 
-- 
2.43.0


From 805e80e10efd3a997cff1fbc43f99c2d42594aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 17/38] fix: stop method lookup at a nearest definition that
 may not be called

---
 crates/ruby-analysis/src/engine/resolution.rs | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index d81cb48..732ce3a 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -2854,19 +2854,22 @@ pub(super) fn method_facts_in_chain(
                 ancestor_chain.iter().any(|chain_fqn| {
                     chain_fqn.namespace_parts() == fact.owner.namespace_parts()
                         && chain_fqn.namespace_kind() == fact.owner.namespace_kind()
-                }) && {
-                    let (visibility, owner) =
-                        effective_method_visibility_for_chain(engine, ancestor_chain, fact, method);
-                    method_visibility_allowed(
-                        engine,
-                        visibility,
-                        &owner,
-                        allow_private,
-                        protected_caller,
-                    )
-                }
+                })
             })
             .collect::<Vec<_>>();
+        if facts.is_empty() {
+            continue;
+        }
+        facts.retain(|fact| {
+            let (visibility, owner) =
+                effective_method_visibility_for_chain(engine, ancestor_chain, fact, method);
+            method_visibility_allowed(engine, visibility, &owner, allow_private, protected_caller)
+        });
+        if facts.is_empty() {
+            // The nearest definition is the one Ruby calls: where it may not be
+            // called, no definition behind it is called instead.
+            return None;
+        }
 
         if facts.iter().any(|fact| {
             engine
@@ -2892,18 +2895,16 @@ pub(super) fn method_facts_in_chain(
             });
         }
 
-        if !facts.is_empty() {
-            facts.sort_by_key(|fact| {
-                (
-                    fact.range.file_id,
-                    fact.range.start_byte,
-                    fact.range.end_byte,
-                    fact.fqn.to_string(),
-                )
-            });
-            facts.dedup();
-            return Some((ancestor.clone(), facts));
-        }
+        facts.sort_by_key(|fact| {
+            (
+                fact.range.file_id,
+                fact.range.start_byte,
+                fact.range.end_byte,
+                fact.fqn.to_string(),
+            )
+        });
+        facts.dedup();
+        return Some((ancestor.clone(), facts));
     }
 
     None
-- 
2.43.0


From e64f01e7b208fb0c40bcd59207f021c05e1ef603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 18/38] fix: judge the visibility of a class-level call by the
 class's own methods in references

---
 src/query/references.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/query/references.rs b/src/query/references.rs
index e4c8d43..81175fd 100644
--- a/src/query/references.rs
+++ b/src/query/references.rs
@@ -220,7 +220,9 @@ impl EngineQuery {
         content: &str,
         range: Range,
     ) -> bool {
-        let Some(receiver_parts) = explicit_receiver_constant_parts(content, range) else {
+        let Some((receiver_parts, receiver_kind)) =
+            explicit_receiver_constant_parts(content, range)
+        else {
             return false;
         };
         let Some(engine) = self.analysis_engine() else {
@@ -228,8 +230,7 @@ impl EngineQuery {
         };
         let engine = engine.read();
         let query = ruby_analysis::engine::AnalysisQuery::new(&engine);
-        let receiver_fqn =
-            FullyQualifiedName::namespace_with_kind(receiver_parts, NamespaceKind::Instance);
+        let receiver_fqn = FullyQualifiedName::namespace_with_kind(receiver_parts, receiver_kind);
         query
             .resolve_public_method_callees(&receiver_fqn, method)
             .is_some_and(|callees| {
@@ -372,20 +373,26 @@ fn range_uses_invalid_private_receiver(content: &str, range: Range) -> bool {
         || trimmed.ends_with("public_send(\"")
 }
 
-fn explicit_receiver_constant_parts(content: &str, range: Range) -> Option<Vec<RubyConstant>> {
+fn explicit_receiver_constant_parts(
+    content: &str,
+    range: Range,
+) -> Option<(Vec<RubyConstant>, NamespaceKind)> {
     let line = content.lines().nth(range.start.line as usize)?;
     let before = line
         .chars()
         .take(range.start.character as usize)
         .collect::<String>();
     let receiver = before.trim_end().strip_suffix('.')?.trim_end();
-    let receiver = receiver.strip_suffix(".new").unwrap_or(receiver);
+    let (receiver, kind) = match receiver.strip_suffix(".new") {
+        Some(class) => (class, NamespaceKind::Instance),
+        None => (receiver, NamespaceKind::Singleton),
+    };
     let token = receiver.split_whitespace().last()?;
     let mut parts = Vec::new();
     for part in token.split("::") {
         parts.push(RubyConstant::new(part).ok()?);
     }
-    (!parts.is_empty()).then_some(parts)
+    (!parts.is_empty()).then_some((parts, kind))
 }
 
 fn static_send_symbol_at_position(content: &str, position: Position) -> bool {
-- 
2.43.0


From d91ae8831f35b9964f694d05d0249cf26de34eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:29 +0000
Subject: [PATCH 19/38] fix: count a destructured parameter as one argument

---
 .../ruby-analysis/src/indexer/analysis_indexer.rs  | 12 ++++++++++++
 .../src/indexer/fact_collector/def_node.rs         | 14 ++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 511d044..2ca7161 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -2075,6 +2075,12 @@ fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
                 String::from_utf8_lossy(param.name().as_slice()).to_string(),
                 MethodParamKind::Required,
             ));
+        } else if required.as_multi_target_node().is_some() {
+            // A destructured parameter, `(first, second)`, takes one argument.
+            params.push(MethodParamFact::new(
+                String::from_utf8_lossy(required.location().as_slice()).to_string(),
+                MethodParamKind::Required,
+            ));
         }
     }
 
@@ -2108,6 +2114,12 @@ fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
                 String::from_utf8_lossy(param.name().as_slice()).to_string(),
                 MethodParamKind::Required,
             ));
+        } else if post.as_multi_target_node().is_some() {
+            // A destructured parameter, `(first, second)`, takes one argument.
+            params.push(MethodParamFact::new(
+                String::from_utf8_lossy(post.location().as_slice()).to_string(),
+                MethodParamKind::Required,
+            ));
         }
     }
 
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
index af5c6b2..e711452 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
@@ -591,6 +591,13 @@ impl FactCollector {
                     MethodParamKind::Required,
                     self.direct_range(&param.location()),
                 ));
+            } else if required.as_multi_target_node().is_some() {
+                // A destructured parameter, `(first, second)`, takes one argument.
+                params.push(MethodParamInfo::new(
+                    String::from_utf8_lossy(required.location().as_slice()).to_string(),
+                    MethodParamKind::Required,
+                    self.direct_range(&required.location()),
+                ));
             }
         }
 
@@ -645,6 +652,13 @@ impl FactCollector {
                     MethodParamKind::Required,
                     self.direct_range(&param.location()),
                 ));
+            } else if post.as_multi_target_node().is_some() {
+                // A destructured parameter, `(first, second)`, takes one argument.
+                params.push(MethodParamInfo::new(
+                    String::from_utf8_lossy(post.location().as_slice()).to_string(),
+                    MethodParamKind::Required,
+                    self.direct_range(&post.location()),
+                ));
             }
         }
 
-- 
2.43.0


From f81a1f9041f36e701dcce9a563a118a14767e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 20/38] fix: let a definition have its own visibility after an
 earlier private or public naming it

---
 crates/ruby-analysis/src/engine/resolution.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index 732ce3a..d37df78 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -2936,7 +2936,7 @@ pub(super) fn effective_method_visibility_for_chain(
     method: &RubyMethod,
 ) -> (MethodVisibility, FullyQualifiedName) {
     if let Some(override_fact) =
-        method_visibility_override_for_chain(engine, ancestor_chain, &fact.owner, method)
+        method_visibility_override_for_chain(engine, ancestor_chain, fact, method)
     {
         return (override_fact.visibility, override_fact.owner);
     }
@@ -2946,12 +2946,21 @@ pub(super) fn effective_method_visibility_for_chain(
 fn method_visibility_override_for_chain(
     engine: &crate::AnalysisEngine,
     ancestor_chain: &[FullyQualifiedName],
-    method_owner: &FullyQualifiedName,
+    method_fact: &crate::core::MethodFact,
     method: &RubyMethod,
 ) -> Option<crate::core::MethodVisibilityOverrideFact> {
+    let method_owner = &method_fact.owner;
     for ancestor in ancestor_chain {
         let mut overrides =
             engine.method_visibility_overrides_matching_owner_name(ancestor, method);
+        if ancestor == method_owner {
+            // A definition has its own visibility, whatever was said about
+            // the method its owner had before.
+            overrides.retain(|fact| {
+                fact.range.file_id != method_fact.range.file_id
+                    || fact.range.end_byte > method_fact.range.start_byte
+            });
+        }
         overrides.sort_by_key(|fact| {
             (
                 fact.range.file_id,
-- 
2.43.0


From ea409c91afe617b3d0998fab0ea3dccbea724956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:17 +0000
Subject: [PATCH 21/38] fix: a constant assigned from one of unknown type no
 longer breaks the analysis of its file

The constant's type equation targeted a fact at the name of the constant, but
when the type was unknown only a fact spanning the whole assignment was kept,
and the next resolution panicked.
---
 .../src/indexer/fact_collector/constant_write_node.rs  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/constant_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/constant_write_node.rs
index 5ecf601..f054c55 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/constant_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/constant_write_node.rs
@@ -46,7 +46,13 @@ impl FactCollector {
         let (inferred_type, provenance) = self.assignment_type_and_provenance(value);
         let dependency = self.constant_type_dependency(value);
         let name_range = self.document.prism_location_to_text_range(name_location);
-        let full_range = self.document.prism_location_to_text_range(full_location);
+        // The equation below targets the fact at the name, whichever producer's
+        // fact for this write is kept.
+        let fact_range = if dependency.is_some() {
+            name_range
+        } else {
+            self.document.prism_location_to_text_range(full_location)
+        };
         self.direct_push_type(
             TypeSubject::Constant(fqn.clone()),
             inferred_type.clone(),
@@ -56,7 +62,7 @@ impl FactCollector {
         self.type_store.add(TypeFact::new(
             TypeSubject::Constant(fqn.clone()),
             inferred_type,
-            full_range,
+            fact_range,
             provenance,
         ));
         if let Some(dependency) = dependency {
-- 
2.43.0


From b1f95ff9f49bade1e0b1a6ace1979dc91f834c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:57 +0000
Subject: [PATCH 22/38] fix: reopening a class without naming its superclass is
 no conflict

class A < B; end followed by class A; end in the same file was reported as
A inheriting both B and Object.
---
 crates/ruby-analysis/src/indexer/fact_collector/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index fdb89a2..9305598 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -904,6 +904,10 @@ impl FactCollector {
                 .iter()
                 .find(|edge| edge.source == source && edge.kind == GraphEdgeKind::Superclass)
             {
+                // Reopening a class without naming its superclass claims nothing.
+                if provenance == GraphEdgeProvenance::ImplicitObject {
+                    return false;
+                }
                 self.push_error_diagnostic(
                     range,
                     "conflicting-superclass",
-- 
2.43.0


From 5450c64c5fdec4a5d5a1366a9cbff278333fb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:40 +0000
Subject: [PATCH 23/38] fix: conflicting and cyclic superclasses stay reported
 when a document is edited

The interactive path analysed a document without the namespaces of the other
files, so a superclass declared elsewhere was not compared.
---
 src/indexer/file_processor.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index 5211ccc..50f63c3 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -436,12 +436,13 @@ impl FileProcessor {
 
         // 3. Collect facts.
         let direct_start = Instant::now();
+        let known_namespaces = Arc::new(collect_known_namespaces(&analysis_engine));
         let direct_facts_seed = collect_direct_facts(
             &analysis_engine,
             &node,
             analysis_source.as_ref(),
             document.analysis_file_id(),
-            None,
+            Some(known_namespaces.as_ref()),
         );
         replace_analysis_facts_for_file(
             &analysis_engine,
@@ -479,6 +480,13 @@ impl FileProcessor {
             visitor = visitor.without_local_read_unknown_reasons();
         }
         visitor.extension_project_context = extension_project_context.clone();
+        visitor = visitor.with_shared_direct_known_namespaces(known_namespaces);
+        visitor.extend_direct_known_namespaces(
+            direct_facts_seed
+                .graph_nodes
+                .iter()
+                .map(|fact| fact.fqn.clone()),
+        );
         visitor.visit(&node);
         let visitor_elapsed = visitor_start.elapsed();
 
-- 
2.43.0


From 771db94f82b45369acfd56701b954c22222a8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:48 +0000
Subject: [PATCH 24/38] fix: references judge a method by the visibility of the
 one the lookup meets

---
 crates/ruby-analysis/src/engine/resolution.rs | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index d37df78..3d78b52 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -1869,14 +1869,19 @@ impl<'a> AnalysisQuery<'a> {
         let FullyQualifiedName::Method(parts, method) = method_fqn else {
             return None;
         };
-        self.engine.all_method_facts().iter().find_map(|fact| {
-            let FullyQualifiedName::Method(_, fact_method) = &fact.fqn else {
-                return None;
-            };
-            if fact_method != method || fact.owner.namespace_parts().as_slice() != parts.as_slice()
-            {
-                return None;
-            }
+        // A method name does not tell an instance method from a singleton one:
+        // the one the lookup meets counts.
+        let facts = self.engine.all_method_facts();
+        let named = |fact: &&MethodFact| {
+            matches!(&fact.fqn, FullyQualifiedName::Method(_, fact_method) if fact_method == method)
+                && fact.owner.namespace_parts().as_slice() == parts.as_slice()
+        };
+        let fact = facts
+            .iter()
+            .filter(named)
+            .find(|fact| ancestor_chain.contains(&fact.owner))
+            .or_else(|| facts.iter().find(named));
+        fact.and_then(|fact| {
             let effective =
                 effective_method_visibility_for_chain(self.engine, ancestor_chain, fact, method);
             if effective.0 != MethodVisibility::Public {
-- 
2.43.0


From ae007851895c4bd9f4c77e63cf8c0efc2d1e08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:19 +0000
Subject: [PATCH 25/38] fix: the leading names of a class or module header are
 references of their own

---
 .../src/indexer/identifier_visitor/class_node.rs   | 14 +++++++++++++-
 .../src/indexer/identifier_visitor/module_node.rs  | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
index a4dd6c2..d983e53 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
@@ -17,11 +17,23 @@ impl IdentifierVisitor {
         if self.is_position_in_location(&name_loc) {
             // Handle constant path node for class definition
             if let Some(constant_path_node) = constant_path.as_constant_path_node() {
+                // The names in front of the last one are references to what
+                // they name.
+                if constant_path_node
+                    .parent()
+                    .is_some_and(|parent| self.is_position_in_location(&parent.location()))
+                {
+                    return;
+                }
                 let mut namespaces = Vec::new();
                 utils::collect_namespaces(&constant_path_node, &mut namespaces);
                 self.set_result(
                     Some(Identifier::RubyConstant {
-                        namespace: self.scope_tracker.get_ns_stack(),
+                        namespace: if crate::constant_path_is_absolute(&constant_path_node) {
+                            Vec::new()
+                        } else {
+                            self.scope_tracker.get_ns_stack()
+                        },
                         iden: namespaces,
                     }),
                     Some(IdentifierType::ClassDef),
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
index 1009e0a..a12b7ac 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
@@ -17,11 +17,23 @@ impl IdentifierVisitor {
         if self.is_position_in_location(&name_loc) {
             // Handle constant path node for module definition
             if let Some(constant_path_node) = constant_path.as_constant_path_node() {
+                // The names in front of the last one are references to what
+                // they name.
+                if constant_path_node
+                    .parent()
+                    .is_some_and(|parent| self.is_position_in_location(&parent.location()))
+                {
+                    return;
+                }
                 let mut namespaces = Vec::new();
                 utils::collect_namespaces(&constant_path_node, &mut namespaces);
                 self.set_result(
                     Some(Identifier::RubyConstant {
-                        namespace: self.scope_tracker.get_ns_stack(),
+                        namespace: if crate::constant_path_is_absolute(&constant_path_node) {
+                            Vec::new()
+                        } else {
+                            self.scope_tracker.get_ns_stack()
+                        },
                         iden: namespaces,
                     }),
                     Some(IdentifierType::ModuleDef),
-- 
2.43.0


From 1321b799b94159dbaeb64d6dd5fb573c3e64178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:19 +0000
Subject: [PATCH 26/38] fix: ::Name, ||= and multiple assignment declare
 constants where Ruby declares them

---
 .../src/indexer/analysis_indexer.rs           | 154 ++++++++++++------
 .../constant_path_write_node.rs               |   9 +-
 .../src/indexer/scope_tracker.rs              |   7 +-
 3 files changed, 113 insertions(+), 57 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 2ca7161..94674de 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -12,7 +12,9 @@ use ruby_prism::{
     visit_alias_method_node, visit_call_node, visit_class_node,
     visit_class_variable_and_write_node, visit_class_variable_operator_write_node,
     visit_class_variable_or_write_node, visit_class_variable_target_node,
-    visit_class_variable_write_node, visit_constant_path_write_node, visit_constant_write_node,
+    visit_class_variable_write_node, visit_constant_or_write_node,
+    visit_constant_path_or_write_node, visit_constant_path_write_node, visit_constant_target_node,
+    visit_constant_write_node,
     visit_def_node, visit_global_variable_and_write_node,
     visit_global_variable_operator_write_node, visit_global_variable_or_write_node,
     visit_global_variable_target_node, visit_global_variable_write_node,
@@ -23,7 +25,8 @@ use ruby_prism::{
     visit_local_variable_target_node, visit_local_variable_write_node, visit_module_node,
     visit_singleton_class_node, AliasMethodNode, CallNode, ClassNode, ClassVariableAndWriteNode,
     ClassVariableOperatorWriteNode, ClassVariableOrWriteNode, ClassVariableTargetNode,
-    ClassVariableWriteNode, ConstantPathNode, ConstantPathWriteNode, ConstantWriteNode, DefNode,
+    ClassVariableWriteNode, ConstantOrWriteNode, ConstantPathNode, ConstantPathOrWriteNode,
+    ConstantPathWriteNode, ConstantTargetNode, ConstantWriteNode, DefNode,
     GlobalVariableAndWriteNode, GlobalVariableOperatorWriteNode, GlobalVariableOrWriteNode,
     GlobalVariableTargetNode, GlobalVariableWriteNode, InstanceVariableAndWriteNode,
     InstanceVariableOperatorWriteNode, InstanceVariableOrWriteNode, InstanceVariableTargetNode,
@@ -148,12 +151,19 @@ impl AnalysisIndexer {
         )
     }
 
-    fn push_namespace_from_node(&mut self, node: &Node<'_>) -> Option<Vec<RubyConstant>> {
-        let parts = constant_parts(node)?;
+    /// Opens the namespace a class or module header names. `::Name` opens the
+    /// top-level name wherever it is written; the enclosing namespace to return
+    /// to is handed back then.
+    fn push_namespace_from_node(
+        &mut self,
+        node: &Node<'_>,
+    ) -> Option<(Vec<RubyConstant>, Option<Vec<RubyConstant>>)> {
+        let (parts, absolute) = constant_parts_and_absolute(node)?;
+        let previous = absolute.then(|| std::mem::take(&mut self.namespace_stack));
         self.namespace_stack.extend(parts.iter().cloned());
         self.module_function_mode_stack.push(false);
         self.visibility_stack.push(MethodVisibility::Public);
-        Some(parts)
+        Some((parts, previous))
     }
 
     fn pop_namespace_parts(&mut self, parts: &[RubyConstant]) {
@@ -949,6 +959,53 @@ impl AnalysisIndexer {
         Some(vec![class_methods])
     }
 
+    fn push_constant_facts(
+        &mut self,
+        name: &[u8],
+        location: &ruby_prism::Location<'_>,
+        name_location: ruby_prism::Location<'_>,
+        value_type: Option<RubyType>,
+    ) {
+        let name = String::from_utf8_lossy(name).to_string();
+        let Ok(constant) = RubyConstant::new(&name) else {
+            return;
+        };
+        let mut parts = self.namespace_stack.clone();
+        parts.push(constant);
+        let fqn = FullyQualifiedName::constant(parts);
+        self.facts.symbols.push(
+            SymbolFact::new(fqn.clone(), SymbolKind::Constant, self.range(location))
+                .with_name_range(self.range(&name_location)),
+        );
+        self.push_type_fact(TypeSubject::Constant(fqn), value_type, name_location);
+    }
+
+    fn push_constant_path_facts(
+        &mut self,
+        target: &ConstantPathNode<'_>,
+        location: &ruby_prism::Location<'_>,
+        value_type: Option<RubyType>,
+    ) {
+        let Some(parts) = constant_path_parts(target) else {
+            return;
+        };
+        let fqn = FullyQualifiedName::constant(parts);
+        let name = target.name().expect(
+            "INVARIANT VIOLATED: constant path write target has no terminal name. \
+             This is a bug because constant_path_parts accepted the same target. \
+             Fix: keep constant path extraction and name range derivation aligned.",
+        );
+        self.facts.symbols.push(
+            SymbolFact::new(fqn.clone(), SymbolKind::Constant, self.range(location))
+                .with_name_range(terminal_name_range(
+                    self.file_id,
+                    &target.location(),
+                    name.as_slice(),
+                )),
+        );
+        self.push_type_fact(TypeSubject::Constant(fqn), value_type, target.location());
+    }
+
     fn push_local_variable_fact(&mut self, name: &[u8], location: ruby_prism::Location<'_>) {
         let name = String::from_utf8_lossy(name).to_string();
         if let Ok(fqn) = FullyQualifiedName::local_variable(name) {
@@ -1179,10 +1236,10 @@ impl Visit<'_> for AnalysisIndexer {
             self.visibility_stack.push(MethodVisibility::Public);
             (parts, Some(previous))
         } else {
-            let Some(parts) = self.push_namespace_from_node(&node.constant_path()) else {
+            let Some(opened) = self.push_namespace_from_node(&node.constant_path()) else {
                 return;
             };
-            (parts, None)
+            opened
         };
 
         let fqn = FullyQualifiedName::namespace(self.namespace_stack.clone());
@@ -1322,10 +1379,10 @@ impl Visit<'_> for AnalysisIndexer {
             self.visibility_stack.push(MethodVisibility::Public);
             (parts, Some(previous))
         } else {
-            let Some(parts) = self.push_namespace_from_node(&node.constant_path()) else {
+            let Some(opened) = self.push_namespace_from_node(&node.constant_path()) else {
                 return;
             };
-            (parts, None)
+            opened
         };
 
         let fqn = FullyQualifiedName::namespace(self.namespace_stack.clone());
@@ -1542,58 +1599,47 @@ impl Visit<'_> for AnalysisIndexer {
     }
 
     fn visit_constant_write_node(&mut self, node: &ConstantWriteNode<'_>) {
-        let name = String::from_utf8_lossy(node.name().as_slice()).to_string();
-        if let Ok(constant) = RubyConstant::new(&name) {
-            let mut parts = self.namespace_stack.clone();
-            parts.push(constant);
-            let fqn = FullyQualifiedName::constant(parts);
-            self.facts.symbols.push(
-                SymbolFact::new(
-                    fqn.clone(),
-                    SymbolKind::Constant,
-                    self.range(&node.location()),
-                )
-                .with_name_range(self.range(&node.name_loc())),
-            );
-            self.push_type_fact(
-                TypeSubject::Constant(fqn),
-                self.assignment_type(&node.value()),
-                node.name_loc(),
-            );
-        }
+        self.push_constant_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.name_loc(),
+            self.assignment_type(&node.value()),
+        );
         visit_constant_write_node(self, node);
     }
 
+    fn visit_constant_or_write_node(&mut self, node: &ConstantOrWriteNode<'_>) {
+        self.push_constant_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.name_loc(),
+            self.assignment_type(&node.value()),
+        );
+        visit_constant_or_write_node(self, node);
+    }
+
+    fn visit_constant_target_node(&mut self, node: &ConstantTargetNode<'_>) {
+        self.push_constant_facts(
+            node.name().as_slice(),
+            &node.location(),
+            node.location(),
+            None,
+        );
+        visit_constant_target_node(self, node);
+    }
+
     fn visit_constant_path_write_node(&mut self, node: &ConstantPathWriteNode<'_>) {
-        let target = node.target();
-        if let Some(parts) = constant_path_parts(&target) {
-            let fqn = FullyQualifiedName::constant(parts);
-            let name = target.name().expect(
-                "INVARIANT VIOLATED: constant path write target has no terminal name. \
-                 This is a bug because constant_path_parts accepted the same target. \
-                 Fix: keep constant path extraction and name range derivation aligned.",
-            );
-            self.facts.symbols.push(
-                SymbolFact::new(
-                    fqn.clone(),
-                    SymbolKind::Constant,
-                    self.range(&node.location()),
-                )
-                .with_name_range(terminal_name_range(
-                    self.file_id,
-                    &target.location(),
-                    name.as_slice(),
-                )),
-            );
-            self.push_type_fact(
-                TypeSubject::Constant(fqn),
-                self.assignment_type(&node.value()),
-                target.location(),
-            );
-        }
+        let value_type = self.assignment_type(&node.value());
+        self.push_constant_path_facts(&node.target(), &node.location(), value_type);
         visit_constant_path_write_node(self, node);
     }
 
+    fn visit_constant_path_or_write_node(&mut self, node: &ConstantPathOrWriteNode<'_>) {
+        let value_type = self.assignment_type(&node.value());
+        self.push_constant_path_facts(&node.target(), &node.location(), value_type);
+        visit_constant_path_or_write_node(self, node);
+    }
+
     fn visit_call_node(&mut self, node: &CallNode<'_>) {
         if let Some((eval_namespace, definition_scope)) = self.static_eval_block_context(node) {
             if let Some(receiver) = node.receiver() {
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/constant_path_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/constant_path_write_node.rs
index d0e0e8d..7def956 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/constant_path_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/constant_path_write_node.rs
@@ -1,4 +1,4 @@
-use crate::collect_namespaces;
+use crate::{collect_namespaces, constant_path_is_absolute};
 use crate::core::{
     FullyQualifiedName, RubyConstant, SymbolFact, SymbolKind, TypeFact, TypeSubject,
 };
@@ -34,7 +34,12 @@ impl FactCollector {
         let mut namespace_parts = Vec::new();
         collect_namespaces(constant_path, &mut namespace_parts);
 
-        let mut fqn_parts = self.scope_tracker.get_ns_stack();
+        // `::Name = value` writes the top-level name wherever it is written.
+        let mut fqn_parts = if constant_path_is_absolute(constant_path) {
+            Vec::new()
+        } else {
+            self.scope_tracker.get_ns_stack()
+        };
         fqn_parts.extend(namespace_parts);
         assert!(
             fqn_parts.last() == Some(&constant),
diff --git a/crates/ruby-analysis/src/indexer/scope_tracker.rs b/crates/ruby-analysis/src/indexer/scope_tracker.rs
index ee09e40..26ae3bb 100644
--- a/crates/ruby-analysis/src/indexer/scope_tracker.rs
+++ b/crates/ruby-analysis/src/indexer/scope_tracker.rs
@@ -334,7 +334,12 @@ impl ScopeTracker {
         if let Some(path_node) = constant_path.as_constant_path_node() {
             let mut namespace_parts = Vec::new();
             collect_namespaces(&path_node, &mut namespace_parts);
-            self.push_ns_scopes(namespace_parts);
+            // `module ::Name` opens the top-level name wherever it is written.
+            if constant_path_is_absolute(&path_node) && !namespace_parts.is_empty() {
+                self.push_absolute_ns_scopes(namespace_parts);
+            } else {
+                self.push_ns_scopes(namespace_parts);
+            }
             return Ok(());
         }
 
-- 
2.43.0


From 38ae9248b3022c39ef8ab4a8a03da6bbae6c1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:34 +0000
Subject: [PATCH 27/38] fix: a part of a constant path is navigated by its own
 reference, not by the longer ones around it

---
 crates/ruby-analysis/src/engine/query.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/ruby-analysis/src/engine/query.rs b/crates/ruby-analysis/src/engine/query.rs
index 56cfc94..b9fdcce 100644
--- a/crates/ruby-analysis/src/engine/query.rs
+++ b/crates/ruby-analysis/src/engine/query.rs
@@ -119,6 +119,21 @@ impl<'a> AnalysisQuery<'a> {
                 candidates.push(candidate);
             }
         }
+        // `A::B::C` is a reference to `A`, one to `A::B` and one to `A::B::C`.
+        // What is asked about is the shortest of them that reaches the offset.
+        if let Some(shortest) = candidates
+            .iter()
+            .filter(|candidate| {
+                matches!(candidate.kind, StoredReferenceCandidateKind::Constant { .. })
+            })
+            .map(|candidate| candidate.range.end_byte)
+            .min()
+        {
+            candidates.retain(|candidate| {
+                !matches!(candidate.kind, StoredReferenceCandidateKind::Constant { .. })
+                    || candidate.range.end_byte == shortest
+            });
+        }
         if let [candidate] = candidates.as_slice() {
             if let StoredReferenceCandidateKind::Method {
                 owner,
-- 
2.43.0


From 772e8d7f891735154d87c266ebb647e343894a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:00 +0000
Subject: [PATCH 28/38] fix: the operand of a prefix operator is found where it
 starts, not the operator

---
 .../src/indexer/identifier_visitor/call_node.rs            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/call_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/call_node.rs
index fc44b91..9cbea40 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/call_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/call_node.rs
@@ -191,6 +191,13 @@ impl IdentifierVisitor {
 
         // Check if position is on the method name
         if let Some(message_loc) = node.message_loc() {
+            // The operand of a prefix operator starts where the operator ends.
+            if node.receiver().is_some_and(|receiver| {
+                message_loc.start_offset() < receiver.location().start_offset()
+                    && self.is_position_in_location(&receiver.location())
+            }) {
+                return;
+            }
             if self.is_position_in_location(&message_loc) {
                 let method_name = String::from_utf8_lossy(node.name().as_slice()).to_string();
 
-- 
2.43.0


From 0a011b8a29865ab7961511a44e3ee2cc7178f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:04 +0000
Subject: [PATCH 29/38] fix: of include A, B the methods of A are found before
 those of B

---
 crates/ruby-analysis/src/core/graph_store.rs    |  6 ++++--
 .../src/indexer/analysis_indexer.rs             | 17 +++++++++++++++++
 .../src/indexer/fact_collector/call_node/mod.rs |  3 +++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/core/graph_store.rs b/crates/ruby-analysis/src/core/graph_store.rs
index cc7c28a..8988ec2 100644
--- a/crates/ruby-analysis/src/core/graph_store.rs
+++ b/crates/ruby-analysis/src/core/graph_store.rs
@@ -1,3 +1,4 @@
+use std::cmp::Reverse;
 use std::collections::{HashMap, HashSet};
 
 use super::memory_estimate::{map_table_bytes, set_table_bytes, vec_payload_bytes};
@@ -760,7 +761,7 @@ fn graph_edge_order_key(
     FqnId,
     SourceFileId,
     u32,
-    u32,
+    Reverse<u32>,
     GraphEdgeKind,
     GraphEdgeProvenance,
     FqnId,
@@ -769,7 +770,8 @@ fn graph_edge_order_key(
         fact.source,
         fact.range.file_id,
         fact.range.start_byte,
-        fact.range.end_byte,
+        // The mixins of one call take effect from the last to the first.
+        Reverse(fact.range.end_byte),
         fact.kind,
         fact.provenance,
         fact.target,
diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 94674de..332f21e 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -353,6 +353,7 @@ impl AnalysisIndexer {
         let source = FullyQualifiedName::namespace(self.namespace_stack.clone());
         let range = self.range(&node.location());
         for arg in arguments.arguments().iter().skip(first_mixin_index) {
+            let range = mixin_range(range, &arguments, &arg);
             let Some((parts, absolute)) = constant_parts_and_absolute(&arg) else {
                 continue;
             };
@@ -1729,6 +1730,7 @@ impl Visit<'_> for AnalysisIndexer {
                 };
                 let range = self.range(&node.location());
                 for arg in arguments.arguments().iter() {
+                    let range = mixin_range(range, &arguments, &arg);
                     let mixin_ref = if arg.as_self_node().is_some() {
                         Some((source.namespace_parts(), true))
                             .filter(|(parts, _)| !parts.is_empty())
@@ -1958,6 +1960,21 @@ fn method_name_and_range(node: &Node<'_>, file_id: SourceFileId) -> Option<(Stri
     None
 }
 
+/// The range of one mixin of a call: from the call up to that argument. Of
+/// `include A, B`, B is mixed in first and A is looked up before it; the graph
+/// orders edges that start together by where they end.
+pub(crate) fn mixin_range(
+    call: TextRange,
+    arguments: &ruby_prism::ArgumentsNode<'_>,
+    argument: &Node<'_>,
+) -> TextRange {
+    let end = argument.location().end_offset();
+    if end == arguments.location().end_offset() {
+        return call;
+    }
+    TextRange::new(call.file_id, call.start_byte, u32_offset(end))
+}
+
 fn included_hook_mixin_call_kind(
     node: &CallNode<'_>,
     file_id: SourceFileId,
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 0a4cc76..e1482dd 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -7,6 +7,7 @@ use crate::core::{
     UnknownReason,
 };
 use crate::engine::{AnalysisQuery, VariableTypeKind};
+use crate::indexer::analysis_indexer::mixin_range;
 use crate::{build_constant_path_name, mixin_ref_from_node, utf8_str};
 use log::trace;
 use ruby_prism::{CallNode, Node};
@@ -204,6 +205,7 @@ impl FactCollector {
         let source = FullyQualifiedName::namespace(self.scope_tracker.get_ns_stack());
         let range = self.direct_range(&node.location());
         for arg in arguments.arguments().iter().skip(first_mixin_index) {
+            let range = mixin_range(range, &arguments, &arg);
             let Some(mixin_ref) = crate::mixin_ref_from_node(&arg) else {
                 continue;
             };
@@ -799,6 +801,7 @@ impl FactCollector {
         };
         let range = self.direct_range(&node.location());
         for arg in arguments.arguments().iter() {
+            let range = mixin_range(range, &arguments, &arg);
             let mixin_ref = if arg.as_self_node().is_some() {
                 Some((source.namespace_parts(), true)).filter(|(parts, _)| !parts.is_empty())
             } else {
-- 
2.43.0


From f945c63531d6c52e10b1fd0a0cf957c3da9da766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:04 +0000
Subject: [PATCH 30/38] fix: def Foo.bar inside class Foo declares a class
 method

---
 crates/ruby-analysis/src/indexer/analysis_indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 332f21e..ce2aa37 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1429,7 +1429,13 @@ impl Visit<'_> for AnalysisIndexer {
             ScopeKind::Singleton => NamespaceKind::Singleton,
         };
         if let Some(receiver) = node.receiver() {
-            if receiver.as_self_node().is_some() {
+            // `def Foo.bar` inside `class Foo` is `def self.bar`.
+            let names_enclosing_namespace = receiver.as_constant_read_node().is_some_and(|read| {
+                self.namespace_stack
+                    .last()
+                    .is_some_and(|last| last.as_str().as_bytes() == read.name().as_slice())
+            });
+            if receiver.as_self_node().is_some() || names_enclosing_namespace {
                 owner_kind = NamespaceKind::Singleton;
             } else {
                 visit_def_node(self, node);
-- 
2.43.0


From b07eb54988b1cf483018615dd5ea7e97be055263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:15 +0000
Subject: [PATCH 31/38] fix: a private section leaves def self.name and new
 public

---
 crates/ruby-analysis/src/indexer/analysis_indexer.rs     | 9 ++++++++-
 .../ruby-analysis/src/indexer/fact_collector/def_node.rs | 8 ++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index ce2aa37..fa8e486 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1442,6 +1442,13 @@ impl Visit<'_> for AnalysisIndexer {
                 return;
             }
         }
+        // A visibility section says nothing about `def self.name`, nor about the
+        // `new` that an `initialize` stands for.
+        let visibility = if node.receiver().is_some() || method.as_str() == "initialize" {
+            MethodVisibility::Public
+        } else {
+            self.current_visibility()
+        };
         if method.as_str() == "initialize" {
             method = RubyMethod::new("new").expect(
                 "INVARIANT VIOLATED: `new` must be a valid Ruby method name. \
@@ -1503,7 +1510,7 @@ impl Visit<'_> for AnalysisIndexer {
                         .and_then(YardMethodDoc::format_return_type),
                 )
                 .with_availability(availability.clone())
-                .with_visibility(self.current_visibility())
+                .with_visibility(visibility)
                 .with_forwarded_block_call(forwarded_block_call.clone())
                 .with_direct_yield_call(direct_yield_call.clone()),
         );
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
index e711452..a68b96f 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
@@ -1,3 +1,4 @@
+use crate::core::method_store::MethodVisibility;
 use crate::core::{
     ConstantTypeEquation, ConstantTypeTarget, FullyQualifiedName, GraphEdgeKind, GraphNodeKind,
     MethodAvailability, MethodParamFact, MethodParamKind, MethodReturnEquation, NamespaceKind,
@@ -170,6 +171,12 @@ impl FactCollector {
             },
             None => MethodAvailability::Available,
         };
+        // A visibility section says nothing about `def self.name`, nor about the
+        // `new` that an `initialize` stands for.
+        let section_visibility = self.scope_tracker.current_visibility();
+        if node.receiver().is_some() || is_constructor {
+            self.direct_set_visibility(MethodVisibility::Public);
+        }
         self.direct_push_method_fact_with_signature_name_range_and_availability(
             namespace_parts.clone(),
             actual_namespace_kind,
@@ -183,6 +190,7 @@ impl FactCollector {
                 .and_then(YardMethodDoc::format_return_type),
             availability.clone(),
         );
+        self.direct_set_visibility(section_visibility);
         if node.receiver().is_none()
             && actual_namespace_kind == NamespaceKind::Instance
             && self.scope_tracker.module_function_mode_enabled()
-- 
2.43.0


From 095c5cec8d04c49adc90ddbaa2e52028f4ffea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:03 +0000
Subject: [PATCH 32/38] fix: private_class_method and public_class_method set
 the visibility of class methods

---
 .../src/indexer/analysis_indexer.rs           | 52 ++++++++++++++++---
 .../indexer/fact_collector/call_node/mod.rs   | 40 ++++++++++++++
 .../src/indexer/fact_collector/mod.rs         | 17 ++++--
 3 files changed, 98 insertions(+), 11 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index fa8e486..241d9b7 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -570,13 +570,45 @@ impl AnalysisIndexer {
         visibility: MethodVisibility,
         range: TextRange,
     ) {
-        let owner = FullyQualifiedName::namespace_with_kind(
-            self.namespace_stack.clone(),
-            match self.current_scope_kind() {
-                ScopeKind::Instance => NamespaceKind::Instance,
-                ScopeKind::Singleton => NamespaceKind::Singleton,
-            },
-        );
+        let owner_kind = match self.current_scope_kind() {
+            ScopeKind::Instance => NamespaceKind::Instance,
+            ScopeKind::Singleton => NamespaceKind::Singleton,
+        };
+        self.set_method_visibility_of(owner_kind, method, visibility, range);
+    }
+
+    /// `private_class_method` and `public_class_method`.
+    fn push_class_method_visibility(&mut self, node: &CallNode<'_>, visibility: MethodVisibility) {
+        let Some(arguments) = node.arguments() else {
+            return;
+        };
+        for arg in arguments.arguments().iter() {
+            let named = match arg.as_def_node().filter(|def| def.receiver().is_some()) {
+                Some(def) => Some((
+                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
+                    text_range(self.file_id, &def.name_loc()),
+                )),
+                None => method_name_and_range(&arg, self.file_id),
+            };
+            let Some((name, range)) = named else {
+                continue;
+            };
+            let Ok(method) = RubyMethod::new(&name) else {
+                continue;
+            };
+            self.set_method_visibility_of(NamespaceKind::Singleton, method, visibility, range);
+        }
+    }
+
+    fn set_method_visibility_of(
+        &mut self,
+        owner_kind: NamespaceKind,
+        method: RubyMethod,
+        visibility: MethodVisibility,
+        range: TextRange,
+    ) {
+        let owner =
+            FullyQualifiedName::namespace_with_kind(self.namespace_stack.clone(), owner_kind);
         self.facts
             .method_visibility_overrides
             .push(MethodVisibilityOverrideFact::new(
@@ -1713,6 +1745,12 @@ impl Visit<'_> for AnalysisIndexer {
                 b"private" => self.push_visibility_modifier(node, MethodVisibility::Private),
                 b"protected" => self.push_visibility_modifier(node, MethodVisibility::Protected),
                 b"public" => self.push_visibility_modifier(node, MethodVisibility::Public),
+                b"private_class_method" => {
+                    self.push_class_method_visibility(node, MethodVisibility::Private)
+                }
+                b"public_class_method" => {
+                    self.push_class_method_visibility(node, MethodVisibility::Public)
+                }
                 b"alias_method" => self.push_alias_method_call_fact(node),
                 b"define_method" => self.push_define_method_fact(node),
                 b"define_singleton_method" => self.push_define_singleton_method_fact(node),
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index e1482dd..4447080 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -118,6 +118,14 @@ impl FactCollector {
                 self.push_direct_visibility_modifier(node, MethodVisibility::Public);
                 true
             }
+            b"private_class_method" => {
+                self.push_direct_class_method_visibility(node, MethodVisibility::Private);
+                true
+            }
+            b"public_class_method" => {
+                self.push_direct_class_method_visibility(node, MethodVisibility::Public);
+                true
+            }
             b"module_function" => {
                 self.push_direct_module_function_facts(node);
                 true
@@ -187,6 +195,38 @@ impl FactCollector {
         }
     }
 
+    /// `private_class_method` and `public_class_method`.
+    fn push_direct_class_method_visibility(
+        &mut self,
+        node: &CallNode,
+        visibility: MethodVisibility,
+    ) {
+        let Some(arguments) = node.arguments() else {
+            return;
+        };
+        for arg in arguments.arguments().iter() {
+            let named = match arg.as_def_node().filter(|def| def.receiver().is_some()) {
+                Some(def) => Some((
+                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
+                    self.direct_range(&def.name_loc()),
+                )),
+                None => direct_method_name_and_range(self, &arg),
+            };
+            let Some((name, range)) = named else {
+                continue;
+            };
+            let Ok(method) = RubyMethod::new(&name) else {
+                continue;
+            };
+            self.direct_set_method_visibility_of(
+                NamespaceKind::Singleton,
+                method,
+                visibility,
+                range,
+            );
+        }
+    }
+
     fn push_direct_included_hook_mixin_edges(&mut self, node: &CallNode) {
         if !self.inside_singleton_included_method() {
             return;
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
index 9305598..751f073 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/mod.rs
@@ -1075,10 +1075,19 @@ impl FactCollector {
         visibility: MethodVisibility,
         range: TextRange,
     ) {
-        let owner = FullyQualifiedName::namespace_with_kind(
-            self.scope_tracker.get_ns_stack(),
-            self.scope_tracker.current_macro_definition_context(),
-        );
+        let owner_kind = self.scope_tracker.current_macro_definition_context();
+        self.direct_set_method_visibility_of(owner_kind, method, visibility, range);
+    }
+
+    pub fn direct_set_method_visibility_of(
+        &mut self,
+        owner_kind: NamespaceKind,
+        method: RubyMethod,
+        visibility: MethodVisibility,
+        range: TextRange,
+    ) {
+        let owner =
+            FullyQualifiedName::namespace_with_kind(self.scope_tracker.get_ns_stack(), owner_kind);
         self.direct_facts
             .method_visibility_overrides
             .push(MethodVisibilityOverrideFact::new(
-- 
2.43.0


From 4c7273394f6d484a35fd7859fdf663a5ea19b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 33/38] fix: private attr_reader :name and the like make what
 they define private

---
 .../src/indexer/analysis_indexer.rs           | 75 +++++++++++++++----
 .../indexer/fact_collector/call_node/mod.rs   | 23 ++----
 2 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 241d9b7..909166d 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -546,21 +546,12 @@ impl AnalysisIndexer {
         }
 
         for arg in arguments.arguments().iter() {
-            // `private def name` passes the name of the method it defines.
-            let named = match arg.as_def_node().filter(|def| def.receiver().is_none()) {
-                Some(def) => Some((
-                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
-                    text_range(self.file_id, &def.name_loc()),
-                )),
-                None => method_name_and_range(&arg, self.file_id),
-            };
-            let Some((name, range)) = named else {
-                continue;
-            };
-            let Ok(method) = RubyMethod::new(&name) else {
-                continue;
-            };
-            self.set_method_visibility(method, visibility, range);
+            for (name, range) in passed_method_names(&arg, self.file_id) {
+                let Ok(method) = RubyMethod::new(&name) else {
+                    continue;
+                };
+                self.set_method_visibility(method, visibility, range);
+            }
         }
     }
 
@@ -2011,6 +2002,60 @@ fn method_name_and_range(node: &Node<'_>, file_id: SourceFileId) -> Option<(Stri
     None
 }
 
+/// The methods an argument of `private` names: by symbol or string, or by what
+/// `def`, `attr_reader`, `attr_writer`, `attr_accessor`, `define_method` and
+/// `alias_method` return, the names of the methods they define.
+pub(crate) fn passed_method_names(
+    argument: &Node<'_>,
+    file_id: SourceFileId,
+) -> Vec<(String, TextRange)> {
+    if let Some(def) = argument.as_def_node() {
+        return def
+            .receiver()
+            .is_none()
+            .then(|| {
+                (
+                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
+                    text_range(file_id, &def.name_loc()),
+                )
+            })
+            .into_iter()
+            .collect();
+    }
+    let Some(call) = argument.as_call_node() else {
+        return method_name_and_range(argument, file_id)
+            .into_iter()
+            .collect();
+    };
+    let (reader, writer, limit) = match call.name().as_slice() {
+        b"attr_reader" => (true, false, usize::MAX),
+        b"attr_writer" => (false, true, usize::MAX),
+        b"attr_accessor" => (true, true, usize::MAX),
+        b"define_method" | b"alias_method" => (true, false, 1),
+        _ => return Vec::new(),
+    };
+    if call.receiver().is_some() {
+        return Vec::new();
+    }
+    let mut names = Vec::new();
+    for named in call
+        .arguments()
+        .iter()
+        .flat_map(|arguments| arguments.arguments().iter().take(limit).collect::<Vec<_>>())
+    {
+        let Some((name, range)) = method_name_and_range(&named, file_id) else {
+            continue;
+        };
+        if writer {
+            names.push((format!("{name}="), range));
+        }
+        if reader {
+            names.push((name, range));
+        }
+    }
+    names
+}
+
 /// The range of one mixin of a call: from the call up to that argument. Of
 /// `include A, B`, B is mixed in first and A is looked up before it; the graph
 /// orders edges that start together by where they end.
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
index 4447080..923f0d3 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs
@@ -7,7 +7,7 @@ use crate::core::{
     UnknownReason,
 };
 use crate::engine::{AnalysisQuery, VariableTypeKind};
-use crate::indexer::analysis_indexer::mixin_range;
+use crate::indexer::analysis_indexer::{mixin_range, passed_method_names};
 use crate::{build_constant_path_name, mixin_ref_from_node, utf8_str};
 use log::trace;
 use ruby_prism::{CallNode, Node};
@@ -177,21 +177,12 @@ impl FactCollector {
         }
 
         for arg in arguments.arguments().iter() {
-            // `private def name` passes the name of the method it defines.
-            let named = match arg.as_def_node().filter(|def| def.receiver().is_none()) {
-                Some(def) => Some((
-                    String::from_utf8_lossy(def.name().as_slice()).to_string(),
-                    self.direct_range(&def.name_loc()),
-                )),
-                None => direct_method_name_and_range(self, &arg),
-            };
-            let Some((name, range)) = named else {
-                continue;
-            };
-            let Ok(method) = RubyMethod::new(&name) else {
-                continue;
-            };
-            self.direct_set_method_visibility(method, visibility, range);
+            for (name, range) in passed_method_names(&arg, self.document.analysis_file_id()) {
+                let Ok(method) = RubyMethod::new(&name) else {
+                    continue;
+                };
+                self.direct_set_method_visibility(method, visibility, range);
+            }
         }
     }
 
-- 
2.43.0


From cb368c2740eb369604704aa2a916952059c06b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 34/38] fix: files outside the project's own sources get no
 unresolved-name diagnostics after an edit or save

---
 crates/ruby-analysis/src/engine/diagnostics.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/diagnostics.rs b/crates/ruby-analysis/src/engine/diagnostics.rs
index f8dfcc6..3b4a0a3 100644
--- a/crates/ruby-analysis/src/engine/diagnostics.rs
+++ b/crates/ruby-analysis/src/engine/diagnostics.rs
@@ -534,7 +534,9 @@ impl AnalysisEngine {
                 .filter(|fact| fact.code != "raise-non-exception")
                 .filter(|fact| fact.code != "bad-splat")
                 .collect::<Vec<_>>();
-            diagnostics.extend(unresolved_constants.remove(&file_id).unwrap_or_default());
+            if self.file_contributes_project_diagnostics(file_id) {
+                diagnostics.extend(unresolved_constants.remove(&file_id).unwrap_or_default());
+            }
             self.facts
                 .diagnostics
                 .resolved
@@ -901,13 +903,23 @@ impl AnalysisEngine {
             .filter(|fact| fact.code != "raise-non-exception")
             .filter(|fact| fact.code != "bad-splat")
             .collect::<Vec<_>>();
-        diagnostics.extend(unresolved.remove(&file_id).unwrap_or_default());
+        if self.file_contributes_project_diagnostics(file_id) {
+            diagnostics.extend(unresolved.remove(&file_id).unwrap_or_default());
+        }
         self.facts
             .diagnostics
             .resolved
             .replace_file(file_id, diagnostics);
     }
 
+    /// Files that are only open for interactive analysis (external trees of a
+    /// project, files outside every project) keep their reference candidates
+    /// but are not reported on.
+    fn file_contributes_project_diagnostics(&self, file_id: SourceFileId) -> bool {
+        self.file(file_id)
+            .is_none_or(|file| file.kind.contributes_project_diagnostics())
+    }
+
     fn proven_deferred_receiver_type(
         &self,
         range: TextRange,
-- 
2.43.0


From 8ddfe634e57cdd71478cd6dc9f02f795b9bb3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 35/38] fix: a Gemfile without locked gems does not abort
 indexing when a document is open

---
 src/indexer/indexer_gem.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/indexer/indexer_gem.rs b/src/indexer/indexer_gem.rs
index 727f039..4b40615 100644
--- a/src/indexer/indexer_gem.rs
+++ b/src/indexer/indexer_gem.rs
@@ -1664,13 +1664,10 @@ impl IndexerGem {
              bug because an empty navigation frontier cannot select bounded work. Fix: skip the \
              priority phase when the active document exposes no constant roots."
         );
-        assert!(
-            !self.locked_gems.is_empty(),
-            "INVARIANT VIOLATED: priority vendor-archive discovery started before lockfile \
-             identities were loaded. This is a bug because source selection must use the exact \
-             owning-project lock identity. Fix: load and select Gemfile.lock identities before \
-             scheduling priority archive work."
-        );
+        if self.locked_gems.is_empty() {
+            // A Gemfile without a Gemfile.lock, or a lockfile without gems.
+            return Ok(());
+        }
         self.discover_cached_gem_archives_matching(Some(priority_keys))
     }
 
-- 
2.43.0


From c28b78ffb4d2737570d715758e5644244cd7eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 36/38] fix: a project without Gemfile is indexed also while a
 document is open

---
 src/indexer/coordinator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index 109d5ab..75d6128 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -2473,7 +2473,8 @@ impl IndexingCoordinator {
         navigation_demands: Option<(crate::navigation_demand::NavigationDemandController, u64)>,
         project_frontier_release: tokio::sync::oneshot::Sender<()>,
     ) -> Result<(IndexerGem, Duration)> {
-        if priority_keys.is_empty() {
+        // Without a Gemfile there are no locked sources to start navigation from.
+        if priority_keys.is_empty() || !workspace_root.join("Gemfile").is_file() {
             let (gem_indexer, discovery, discovery_dur) = run_cpu_indexing_task(
                 server,
                 Some(workspace_root),
-- 
2.43.0


From 730724c15f4aff218373c10094a1dd592cfae420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 37/38] fix: an open document whose workspace folder comes or
 goes is indexed for its new owner

---
 src/handlers/notification.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlers/notification.rs b/src/handlers/notification.rs
index 51e2ff8..a86053c 100644
--- a/src/handlers/notification.rs
+++ b/src/handlers/notification.rs
@@ -689,6 +689,10 @@ pub async fn handle_did_change_workspace_folders(
     for text_document in open_documents_to_rehome {
         let owner = server.analysis_engine_for_uri(&text_document.uri);
         server.clear_file_from_other_engines(&text_document.uri, &owner);
+        // The text was indexed for its previous owner; this one has no facts of it yet.
+        if let Some(document) = server.docs.lock().get(&text_document.uri) {
+            document.write().indexed_version = None;
+        }
         indexing::handle_did_open(server, DidOpenTextDocumentParams { text_document }).await;
     }
 
-- 
2.43.0


From 4221f42199a363f0d748ebbd81498f149b54920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 38/38] fix: an open document that changes owner is classified
 by its new owner, not by a refresh before it

---
 src/capabilities/indexing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index 7daac53..9ed8acc 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -322,7 +322,8 @@ async fn refresh_open_project_files_after_dependency_open(
                 if uri == opened_uri {
                     return None;
                 }
-                if analysis_file_kind(server, uri).is_some_and(|kind| kind.is_external()) {
+                // A document its owner does not know yet is classified when it is opened there.
+                if analysis_file_kind(server, uri) != Some(SourceKind::Project) {
                     return None;
                 }
                 let doc = doc.read();
-- 
2.43.0

