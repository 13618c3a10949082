From 122156187e922d30b9aba656cd1e8fe56305c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 01/42] fix: do not look up the package of a file that has been
 removed

Applying a change set with new package roots panicked for every removed file,
as no root contains it any more; that ended the language server.
---
 crates/base-db/src/change.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/base-db/src/change.rs b/crates/base-db/src/change.rs
index 3713b1a..d1b0f9c 100644
--- a/crates/base-db/src/change.rs
+++ b/crates/base-db/src/change.rs
@@ -80,9 +80,11 @@ impl FileChanges {
 
         let is_replacing_package_roots = self.package_roots.is_some();
         for (file_id, text) in self.files_changed {
+            let is_removed = text.is_none();
             let text = text.unwrap_or_default();
-            // only use durability if roots are explicitly provided
-            if is_replacing_package_roots {
+            // only use durability if roots are explicitly provided,
+            // removed files do not belong to any of the new roots
+            if is_replacing_package_roots && !is_removed {
                 let package_id = db.file_package_id(file_id);
                 let package_root = db.package_root(package_id).data(db);
                 let durability = file_text_durability(&package_root);
-- 
2.43.0


From 8cc75fddb5b417fd834ceae840129299445ba68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 02/42] fix: report a uri whose path is not utf-8 as an error

A notification with such a uri panicked on the main thread and ended the
language server.
---
 crates/aptos-language-server/src/lsp/from_proto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/lsp/from_proto.rs b/crates/aptos-language-server/src/lsp/from_proto.rs
index cc90489..d14b4d5 100644
--- a/crates/aptos-language-server/src/lsp/from_proto.rs
+++ b/crates/aptos-language-server/src/lsp/from_proto.rs
@@ -19,7 +19,9 @@ pub(crate) fn abs_path(url: &lsp_types::Uri) -> anyhow::Result<AbsPathBuf> {
     let path = url
         .to_file_path()
         .map_err(|()| format_err!("url is not a file"))?;
-    Ok(AbsPathBuf::try_from(Utf8PathBuf::from_path_buf(path).unwrap()).unwrap())
+    let path = Utf8PathBuf::from_path_buf(path)
+        .map_err(|path| format_err!("path is not valid utf-8: {}", path.display()))?;
+    AbsPathBuf::try_from(path).map_err(|path| format_err!("path is not absolute: {path}"))
 }
 
 pub(crate) fn vfs_path(url: &lsp_types::Uri) -> anyhow::Result<vfs::VfsPath> {
-- 
2.43.0


From 62b729ace1bfc527cefe2ee648cd4d8a9fec4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 03/42] fix: measure block comments in bytes when lexing

The length was counted in characters, so that a block comment with a non-ASCII
character ended too early, and inside a character the lexer panicked.
---
 crates/syntax/src/parse/lexer/move_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..f1a8857 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,7 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From 32a2ebdf744400c10225cefbd2c4ae35071a3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 04/42] fix: do not panic on the name of an incomplete
 parameter

---
 crates/syntax/src/ast/node_ext/param.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/syntax/src/ast/node_ext/param.rs b/crates/syntax/src/ast/node_ext/param.rs
index ce0c7e1..80d0aba 100644
--- a/crates/syntax/src/ast/node_ext/param.rs
+++ b/crates/syntax/src/ast/node_ext/param.rs
@@ -19,12 +19,11 @@ impl ast::Param {
     }
 
     pub fn ident_name(&self) -> String {
-        if self.wildcard_pat().is_some() {
-            return "_".to_string();
-        }
-        // todo: ident_pat can be none
-        let ident_pat = self.ident_pat().unwrap();
-        ident_pat.name().unwrap().as_string()
+        // neither pattern is there while the parameter is being typed
+        self.ident_pat()
+            .and_then(|ident_pat| ident_pat.name())
+            .map(|name| name.as_string())
+            .unwrap_or_else(|| "_".to_string())
     }
 
     pub fn is_self(&self) -> bool {
-- 
2.43.0


From ba8a3eef2d1f8916f73eaf9ce9c8c07c89e81991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 05/42] fix: update package roots in place when they are
 replaced

Queries are memoised per file and package id. Replacing package roots created
new ids and inputs and left the old ones behind, so the queries computed
before kept answering from the old roots, or panicked when re-verified.
---
 crates/base-db/src/inputs.rs | 125 +++++++++++++++++++++++++++++------
 crates/ide-db/src/root_db.rs |   2 +-
 2 files changed, 104 insertions(+), 23 deletions(-)

diff --git a/crates/base-db/src/inputs.rs b/crates/base-db/src/inputs.rs
index 6e6449d..106e2ba 100644
--- a/crates/base-db/src/inputs.rs
+++ b/crates/base-db/src/inputs.rs
@@ -13,6 +13,7 @@ use salsa::Setter;
 use std::collections::HashSet;
 use std::sync::Arc;
 use vfs::FileId;
+use vfs::file_set::FileSet;
 
 pub type AddressPair = (String, String);
 
@@ -42,6 +43,12 @@ pub struct PackageIdSet {
     pub data: Vec<PackageId>,
 }
 
+/// Package the file belongs to, `None` if it was removed from all of the packages.
+#[salsa::input]
+pub struct FilePackageIdInput {
+    pub data: Option<PackageId>,
+}
+
 #[salsa::input]
 pub struct FileText {
     pub text: Arc<str>,
@@ -53,7 +60,7 @@ pub struct PackageRootInput {
     pub data: Arc<PackageRoot>,
 }
 
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Default, Clone, Eq, PartialEq)]
 pub struct PackageMetadata {
     pub package_name: Option<String>,
     pub dep_manifest_ids: Arc<Vec<ManifestFileId>>,
@@ -70,8 +77,11 @@ pub struct PackageMetadataInput {
 #[derive(Default)]
 pub struct Files {
     files: Arc<DashMap<FileId, FileText>>,
-    file_package_ids: Arc<DashMap<FileId, PackageId>>,
+    file_package_ids: Arc<DashMap<FileId, FilePackageIdInput>>,
 
+    // ids are reused when roots are replaced: queries are keyed by them, so those queries need to
+    // observe the new root through the same id
+    package_ids: Arc<DashMap<u32, PackageId>>,
     package_roots: Arc<DashMap<PackageId, PackageRootInput>>,
     package_metadata: Arc<DashMap<ManifestFileId, PackageMetadataInput>>,
 
@@ -122,36 +132,49 @@ impl Files {
         *package_root
     }
 
+    /// All the inputs here are updated in place: results of the queries computed for the previous
+    /// roots stay in the db, and they are only invalidated by the changes of the inputs they used.
     pub fn replace_package_roots(&self, db: &mut dyn SourceDatabase, package_roots: Vec<PackageRoot>) {
-        self.file_package_ids.clear();
-        self.package_roots.clear();
+        let mut stale_file_ids: HashSet<FileId> =
+            self.file_package_ids.iter().map(|it| *it.key()).collect();
 
-        self.spec_file_sets.clear();
         if let Some(builtins_file_id) = db.builtins_file_id() {
             db.set_spec_related_files(builtins_file_id.data(db), vec![])
         }
 
         let mut all_package_ids = vec![];
         for (idx, package_root) in package_roots.into_iter().enumerate() {
-            let package_id = PackageId::new(db, idx as u32);
+            let package_id = self.package_id(db, idx as u32);
+            let package_durability = package_root_durability(&package_root);
             for file_id in package_root.file_ids() {
-                self.file_package_ids.insert(file_id, package_id);
+                stale_file_ids.remove(&file_id);
+                self.set_file_package_id(db, file_id, Some(package_id), package_durability);
                 self.set_spec_related_files(
                     db,
                     file_id,
                     find_spec_file_set(file_id, package_root.clone()).unwrap_or(vec![]),
                 );
             }
-            let package_durability = package_root_durability(&package_root);
-            self.package_roots.insert(
-                package_id,
-                PackageRootInput::builder(Arc::from(package_root))
-                    .durability(package_durability)
-                    .new(db),
-            );
+            if let Some(manifest_file_id) = package_root.manifest_file_id
+                && !self.package_metadata.contains_key(&manifest_file_id)
+            {
+                // not loaded yet
+                self.set_package_metadata(db, manifest_file_id, PackageMetadata::default());
+            }
+            self.set_package_root(db, package_id, package_root, package_durability);
             all_package_ids.push(package_id);
         }
 
+        for file_id in stale_file_ids {
+            self.set_file_package_id(db, file_id, None, Durability::LOW);
+            self.set_spec_related_files(db, file_id, vec![]);
+        }
+        for idx in all_package_ids.len()..self.package_ids.len() {
+            let package_id = self.package_id(db, idx as u32);
+            let empty_root = PackageRoot::new(FileSet::default(), PackageKind::Local, None);
+            self.set_package_root(db, package_id, empty_root, Durability::LOW);
+        }
+
         self.all_package_ids
             .unwrap()
             .set_data(db)
@@ -159,15 +182,71 @@ impl Files {
             .to(all_package_ids);
     }
 
-    pub fn file_package_id(&self, file_id: FileId) -> PackageId {
-        let file_package_id = self.file_package_ids.get(&file_id).expect(&format!(
-            "Unable to fetch PackageId for {file_id:?}; this is a bug"
-        ));
-        *file_package_id
+    fn package_id(&self, db: &dyn SourceDatabase, idx: u32) -> PackageId {
+        *self
+            .package_ids
+            .entry(idx)
+            .or_insert_with(|| PackageId::new(db, idx))
     }
 
-    pub fn set_file_package_id(&self, file_id: FileId, package_id: PackageId) {
-        self.file_package_ids.insert(file_id, package_id);
+    fn set_package_root(
+        &self,
+        db: &mut dyn SourceDatabase,
+        package_id: PackageId,
+        package_root: PackageRoot,
+        durability: Durability,
+    ) {
+        match self.package_roots.entry(package_id) {
+            Entry::Occupied(mut occupied) => {
+                if *occupied.get().data(db) != package_root {
+                    occupied
+                        .get_mut()
+                        .set_data(db)
+                        .with_durability(durability)
+                        .to(Arc::from(package_root));
+                }
+            }
+            Entry::Vacant(vacant) => {
+                let input = PackageRootInput::builder(Arc::from(package_root))
+                    .durability(durability)
+                    .new(db);
+                vacant.insert(input);
+            }
+        };
+    }
+
+    pub fn file_package_id(&self, db: &dyn SourceDatabase, file_id: FileId) -> PackageId {
+        self.file_package_ids
+            .get(&file_id)
+            .map(|it| *it)
+            .and_then(|it| it.data(db))
+            .unwrap_or_else(|| panic!("Unable to fetch PackageId for {file_id:?}; this is a bug"))
+    }
+
+    fn set_file_package_id(
+        &self,
+        db: &mut dyn SourceDatabase,
+        file_id: FileId,
+        package_id: Option<PackageId>,
+        durability: Durability,
+    ) {
+        match self.file_package_ids.entry(file_id) {
+            Entry::Occupied(mut occupied) => {
+                if occupied.get().data(db) != package_id {
+                    occupied
+                        .get_mut()
+                        .set_data(db)
+                        .with_durability(durability)
+                        .to(package_id);
+                }
+            }
+            Entry::Vacant(vacant) => {
+                let input = FilePackageIdInput::builder(package_id)
+                    .durability(durability)
+                    .new(db);
+                vacant.insert(input);
+            }
+        };
     }
 
     pub fn package_metadata(&self, manifest_file_id: ManifestFileId) -> PackageMetadataInput {
@@ -220,7 +299,9 @@ impl Files {
     ) {
         match self.spec_file_sets.entry(file_id) {
             Entry::Occupied(mut occupied) => {
-                occupied.get_mut().set_data(db).to(spec_related_files);
+                if occupied.get().data(db) != spec_related_files {
+                    occupied.get_mut().set_data(db).to(spec_related_files);
+                }
             }
             Entry::Vacant(vacant) => {
                 let file_set = FileIdSet::new(db, spec_related_files);
diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index b21453b..cf3594a 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -83,7 +83,7 @@ impl SourceDatabase for RootDatabase {
     }
 
     fn file_package_id(&self, id: FileId) -> PackageId {
-        self.files.file_package_id(id)
+        self.files.file_package_id(self, id)
     }
 
     fn builtins_file_id(&self) -> Option<FileIdInput> {
-- 
2.43.0


From 9002e8525eeebc285e3f758fb15ece865e1c533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 06/42] fix: do not panic on files which are not valid utf-8

Such files are treated as empty, but no line endings were stored for them, and
every request which needed a line index panicked.
---
 crates/aptos-language-server/src/global_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index 52f735d..f3e4af1 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -284,7 +284,9 @@ impl GlobalStateSnapshot {
     }
 
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
-        let endings = self.vfs.read().1[&file_id];
+        // files which are not valid utf-8 are treated as empty, there are no endings stored for them
+        let endings = self.vfs.read().1.get(&file_id).copied();
+        let endings = endings.unwrap_or(LineEndings::Unix);
         let index = self.analysis.file_line_index(file_id)?;
         let res = LineIndex {
             index,
-- 
2.43.0


From 822c5920d0b3337dd1fa5c2e5cd7a6eaa3966a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 07/42] fix: refresh package roots when the set of packages
 changes

---
 crates/aptos-language-server/src/reload.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 5d9921c..e38f7fa 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -350,6 +350,12 @@ impl GlobalState {
         }
 
         let mut changes = FileChanges::new();
+        // set of packages could be changed without any changes in the vfs
+        let new_package_roots = {
+            let vfs = &self.vfs.read().0;
+            self.package_root_config.partition_into_package_roots(vfs)
+        };
+        changes.set_package_roots(new_package_roots);
         changes.set_package_graph(package_graph);
         self.analysis_host.apply_change(changes);
     }
-- 
2.43.0


From 5b54709d53246b2a396a1397a2c9aeb714638f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 08/42] fix: report config fields which cannot be deserialized

---
 crates/aptos-language-server/src/config/options.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/config/options.rs b/crates/aptos-language-server/src/config/options.rs
index 8320426..66f39d6 100644
--- a/crates/aptos-language-server/src/config/options.rs
+++ b/crates/aptos-language-server/src/config/options.rs
@@ -177,8 +177,7 @@ fn get_field_json<T: DeserializeOwned>(
             json.pointer_mut(&pointer)
                 .map(|it| serde_json::from_value(it.take()).map_err(|e| (e, pointer)))
         })
-        .find(Result::is_ok)
-        .and_then(|res| match res {
+        .find_map(|res| match res {
             Ok(it) => Some(it),
             Err((e, pointer)) => {
                 tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
-- 
2.43.0


From 301add46c62be8678acb5f13496178dd8277f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 09/42] fix: do not answer interrupted requests with partial
 results

---
 .../src/handlers/request.rs                   | 17 ++++----
 .../aptos-language-server/src/lsp/to_proto.rs | 42 ++++++++++---------
 2 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/crates/aptos-language-server/src/handlers/request.rs b/crates/aptos-language-server/src/handlers/request.rs
index fd588eb..d418cd4 100644
--- a/crates/aptos-language-server/src/handlers/request.rs
+++ b/crates/aptos-language-server/src/handlers/request.rs
@@ -9,7 +9,7 @@ use crate::lsp::utils::{all_edits_are_disjoint, invalid_params_error};
 use crate::lsp::{LspError, from_proto, to_proto};
 use crate::movefmt::run_movefmt;
 use crate::{Config, lsp_ext, try_default};
-use ide::Cancellable;
+use ide::{Cancellable, Cancelled};
 use ide::annotations::AnnotationConfig;
 use ide::inlay_hints::InlayFieldsToResolve;
 use ide_db::assists::{AssistKind, AssistResolveStrategy, SingleResolve};
@@ -601,8 +601,11 @@ pub(crate) fn handle_references(
 ) -> anyhow::Result<Option<Vec<Location>>> {
     let _p = tracing::info_span!("handle_references").entered();
 
-    let position =
-        try_default!(from_proto::file_position(&snap, params.text_document_position_params).ok());
+    let position = match from_proto::file_position(&snap, params.text_document_position_params) {
+        Ok(position) => position,
+        Err(err) if err.is::<Cancelled>() => return Err(err),
+        Err(_) => return Ok(None),
+    };
     let Some(refs) = snap.analysis.find_all_refs(position, None)? else {
         return Ok(None);
     };
@@ -627,8 +630,8 @@ pub(crate) fn handle_references(
         })
         .chain(decl)
         .unique()
-        .filter_map(|frange| to_proto::location(&snap, frange).ok())
-        .collect();
+        .map(|frange| to_proto::location(&snap, frange))
+        .collect::<Result<Vec<_>, _>>()?;
 
     Ok(Some(locations))
 }
@@ -788,7 +791,7 @@ pub(crate) fn handle_inlay_hints_resolve(
     )?;
 
     Ok(resolve_hints
-        .and_then(|it| {
+        .map(|it| {
             to_proto::inlay_hint(
                 &snap,
                 &forced_resolve_inlay_hints_config.fields_to_resolve,
@@ -796,8 +799,8 @@ pub(crate) fn handle_inlay_hints_resolve(
                 file_id,
                 it,
             )
-            .ok()
         })
+        .transpose()?
         .filter(|hint| hint.position == original_hint.position)
         .filter(|hint| hint.kind == original_hint.kind)
         .unwrap_or(original_hint))
diff --git a/crates/aptos-language-server/src/lsp/to_proto.rs b/crates/aptos-language-server/src/lsp/to_proto.rs
index 442a783..3399411 100644
--- a/crates/aptos-language-server/src/lsp/to_proto.rs
+++ b/crates/aptos-language-server/src/lsp/to_proto.rs
@@ -1019,12 +1019,12 @@ pub(crate) fn code_lens(
                     0 => None,
                     1 => {
                         let nav_item = nav_items.pop().unwrap();
-                        command::goto_location(snap, "1 specification", &nav_item)
+                        command::goto_location(snap, "1 specification", &nav_item).transpose()
                     }
                     items_len => {
-                        let locations: Vec<lsp_types::Location> = nav_items
+                        let locations: Cancellable<Vec<lsp_types::Location>> = nav_items
                             .into_iter()
-                            .filter_map(|target| {
+                            .map(|target| {
                                 location(
                                     snap,
                                     FileRange {
@@ -1032,18 +1032,20 @@ pub(crate) fn code_lens(
                                         range: target.full_range,
                                     },
                                 )
-                                .ok()
                             })
-                            .collect();
-                        Some(command::show_references(
-                            format!("{items_len} specifications"),
-                            &url,
-                            pos,
-                            locations,
-                        ))
+                            .collect::<Cancellable<_>>();
+                        Some(locations.map(|locations| {
+                            command::show_references(
+                                format!("{items_len} specifications"),
+                                &url,
+                                pos,
+                                locations,
+                            )
+                        }))
                     }
                 })
-                .flatten();
+                .flatten()
+                .transpose()?;
 
             acc.push(lsp_types::CodeLens {
                 range: annotation_range,
@@ -1068,7 +1070,7 @@ pub(crate) mod command {
     use crate::global_state::GlobalStateSnapshot;
     use crate::lsp::to_proto::{location, location_link};
     use crate::lsp_ext;
-    use ide::NavigationTarget;
+    use ide::{Cancellable, NavigationTarget};
     use syntax::files::FileRange;
 
     pub(crate) fn run_test(runnable: &lsp_ext::Runnable, title: &str) -> lsp_types::Command {
@@ -1124,25 +1126,25 @@ pub(crate) mod command {
         snap: &GlobalStateSnapshot,
         title: impl Into<String>,
         nav: &NavigationTarget,
-    ) -> Option<lsp_types::Command> {
+    ) -> Cancellable<Option<lsp_types::Command>> {
         let value = if snap.config.location_link() {
-            let link = location_link(snap, None, nav.clone()).ok()?;
-            serde_json::to_value(link).ok()?
+            let link = location_link(snap, None, nav.clone())?;
+            serde_json::to_value(link)
         } else {
             let range = FileRange {
                 file_id: nav.file_id,
                 range: nav.focus_or_full_range(),
             };
-            let location = location(snap, range).ok()?;
-            serde_json::to_value(location).ok()?
+            let location = location(snap, range)?;
+            serde_json::to_value(location)
         };
 
-        Some(lsp_types::Command {
+        Ok(value.ok().map(|value| lsp_types::Command {
             title: title.into(),
             command: "move-on-aptos.gotoLocation".into(),
             arguments: Some(vec![value]),
             tooltip: None,
-        })
+        }))
     }
 }
 
-- 
2.43.0


From aec603db8f82a82025347509329a98473b704eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 10/42] fix: do not block changes while movefmt is running

---
 crates/aptos-language-server/src/global_state.rs | 16 ++++++++++++++++
 .../src/handlers/request.rs                      |  2 +-
 crates/aptos-language-server/src/movefmt.rs      | 16 ++++++++++------
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index f3e4af1..901fcf6 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -100,6 +100,12 @@ pub(crate) struct GlobalStateSnapshot {
     sender: Sender<lsp_server::Message>,
 }
 
+/// Part of the [`GlobalStateSnapshot`] which does not keep the database snapshot alive.
+pub(crate) struct ClientHandle {
+    config: Arc<Config>,
+    sender: Sender<lsp_server::Message>,
+}
+
 impl std::panic::UnwindSafe for GlobalStateSnapshot {}
 
 impl GlobalState {
@@ -321,6 +327,16 @@ impl GlobalStateSnapshot {
         self.vfs.read().0.exists(file_id)
     }
 
+    /// Drops the database snapshot, so the long-running handlers do not block the changes to the database.
+    pub(crate) fn into_client_handle(self) -> ClientHandle {
+        ClientHandle {
+            config: self.config,
+            sender: self.sender,
+        }
+    }
+}
+
+impl ClientHandle {
     pub(crate) fn show_message(&self, message_type: lsp_types::MessageType, message: String) {
         let notif = lsp_server::Notification::new(
             lsp_types::ShowMessageNotification::METHOD.into(),
diff --git a/crates/aptos-language-server/src/handlers/request.rs b/crates/aptos-language-server/src/handlers/request.rs
index d418cd4..d6666a7 100644
--- a/crates/aptos-language-server/src/handlers/request.rs
+++ b/crates/aptos-language-server/src/handlers/request.rs
@@ -642,7 +642,7 @@ pub(crate) fn handle_formatting(
 ) -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>> {
     let _p = tracing::info_span!("handle_formatting").entered();
 
-    run_movefmt(&snap, params.text_document)
+    run_movefmt(snap, params.text_document)
 }
 
 pub(crate) fn handle_analyzer_status(
diff --git a/crates/aptos-language-server/src/movefmt.rs b/crates/aptos-language-server/src/movefmt.rs
index a495b4d..e22984d 100644
--- a/crates/aptos-language-server/src/movefmt.rs
+++ b/crates/aptos-language-server/src/movefmt.rs
@@ -20,10 +20,10 @@ use stdext::line_endings::LineEndings;
 use syntax::{TextRange, TextSize};
 
 pub(crate) fn run_movefmt(
-    snap: &GlobalStateSnapshot,
+    snap: GlobalStateSnapshot,
     text_document: TextDocumentIdentifier,
 ) -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>> {
-    let file_id = from_proto::file_id(snap, &text_document.uri)?;
+    let file_id = from_proto::file_id(&snap, &text_document.uri)?;
     let file_text = snap.analysis.file_text(file_id)?;
 
     let line_index = snap.file_line_index(file_id)?;
@@ -47,10 +47,14 @@ pub(crate) fn run_movefmt(
         }
     };
 
-    let movefmt_config = match snap.config.movefmt() {
+    let movefmt_config = snap.config.movefmt();
+    // db should be available for changes while `movefmt` is running
+    let client = snap.into_client_handle();
+
+    let movefmt_config = match movefmt_config {
         Some(cfg) => cfg,
         None => {
-            snap.ask_client_for_movefmt_update("movefmt is not provided".to_string());
+            client.ask_client_for_movefmt_update("movefmt is not provided".to_string());
             return Ok(None);
             // return Err(LspError::new(
             //     ErrorCode::RequestFailed as i32,
@@ -62,7 +66,7 @@ pub(crate) fn run_movefmt(
 
     let current_version = get_movefmt_version(&movefmt_config)?;
     if current_version < semver::Version::new(1, 2, 1) {
-        snap.ask_client_for_movefmt_update(format!("current version {current_version} < 1.2.1"));
+        client.ask_client_for_movefmt_update(format!("current version {current_version} < 1.2.1"));
         return Ok(None);
     }
 
@@ -93,7 +97,7 @@ pub(crate) fn run_movefmt(
 
         return match output.status.code() {
             Some(1) if stdout.contains("a valid move code") => {
-                snap.show_message(
+                client.show_message(
                     lsp_types::MessageType::Error,
                     "movefmt error: invalid syntax".to_string(),
                 );
-- 
2.43.0


From 81f59795cde809799ed77935ecc3a0ca79ca36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 11/42] fix: watch nested source files of the clients without
 relative patterns

---
 crates/aptos-language-server/src/reload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index e38f7fa..326ecaf 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -266,7 +266,7 @@ impl GlobalState {
                     folder_root
                         .source_dirs()
                         .iter()
-                        .map(|base| format!("{base}**/*.move"))
+                        .map(|base| format!("{base}/**/*.move"))
                         .collect::<Vec<_>>()
                 })
                 .map(|glob_pattern| FileSystemWatcher {
-- 
2.43.0


From f5fd7c78e07c9121ff12991f36108514f3247dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 12/42] fix: watch manifests which cannot be loaded

---
 crates/aptos-language-server/src/reload.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 326ecaf..7349a7e 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -20,6 +20,7 @@ use project_model::project_folders::ProjectFolders;
 use std::fmt::Formatter;
 use std::sync::Arc;
 use std::{fmt, mem};
+use stdx::itertools::Itertools;
 use stdx::thread::ThreadIntent;
 use vfs::loader::Handle;
 use vfs::{AbsPath, Vfs};
@@ -179,6 +180,11 @@ impl GlobalState {
                         // switching_from_empty_workspace,
                     );
                 }
+                // manifest with an error could be a new one
+                if matches!(self.config.files().watcher, FilesWatcher::Client) {
+                    let packages = self.all_packages.clone();
+                    self.setup_client_file_watchers(&packages);
+                }
                 return;
             }
         }
@@ -276,12 +282,20 @@ impl GlobalState {
                 .collect()
         };
 
+        // manifests which cannot be loaded are not in `packages`, but should be reloaded when they are fixed
+        let discovered_manifests = self
+            .config
+            .discovered_manifests()
+            .into_iter()
+            .map(|it| it.move_toml_file.to_string());
         watchers.extend(
             packages
                 .iter()
-                .map(|pkg| pkg.manifest_path())
+                .map(|pkg| pkg.manifest_path().to_string())
+                .chain(discovered_manifests)
+                .unique()
                 .map(|glob_pattern| FileSystemWatcher {
-                    glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern.to_string()),
+                    glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern),
                     kind: None,
                 }),
         );
-- 
2.43.0


From 78789e7bfbb96a43372c99dee1b72cba027388b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 13/42] fix: watch manifests of dependencies which cannot be
 loaded

---
 crates/aptos-language-server/src/reload.rs    | 10 ++++++++-
 .../src/aptos_package/load_from_fs.rs         | 21 +++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 7349a7e..63e3828 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -288,11 +288,19 @@ impl GlobalState {
             .discovered_manifests()
             .into_iter()
             .map(|it| it.move_toml_file.to_string());
+        let invalid_manifests = self
+            .load_aptos_packages_queue
+            .last_op_result()
+            .map(|it| it.packages_from_fs.invalid_manifests())
+            .unwrap_or_default()
+            .into_iter()
+            .map(|it| it.to_string());
         watchers.extend(
             packages
                 .iter()
                 .map(|pkg| pkg.manifest_path().to_string())
                 .chain(discovered_manifests)
+                .chain(invalid_manifests)
                 .unique()
                 .map(|glob_pattern| FileSystemWatcher {
                     glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern),
@@ -381,7 +389,7 @@ impl GlobalState {
             return packages_from_fs
                 .packages
                 .iter()
-                .any(|it| matches!(it, LoadedPackage::ManifestParseError(_)));
+                .any(|it| matches!(it, LoadedPackage::ManifestParseError(..)));
         }
         false
     }
diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 1d4a5a0..e0090e7 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -28,7 +28,7 @@ pub struct ManifestEntry {
 pub enum LoadedPackage {
     /// package is still valid, but some of the dependencies is not
     Package(AptosPackage),
-    ManifestParseError(anyhow::Error),
+    ManifestParseError(ManifestPath, anyhow::Error),
 }
 
 #[derive(Debug)]
@@ -42,7 +42,17 @@ impl LoadedPackages {
             .iter()
             .filter_map(|it| match it {
                 LoadedPackage::Package(package) => Some(package.clone()),
-                LoadedPackage::ManifestParseError(_) => None,
+                LoadedPackage::ManifestParseError(..) => None,
+            })
+            .collect()
+    }
+
+    pub fn invalid_manifests(&self) -> Vec<ManifestPath> {
+        self.packages
+            .iter()
+            .filter_map(|it| match it {
+                LoadedPackage::Package(_) => None,
+                LoadedPackage::ManifestParseError(manifest_path, _) => Some(manifest_path.clone()),
             })
             .collect()
     }
@@ -55,7 +65,7 @@ impl LoadedPackages {
         } else {
             for package_from_fs in packages_from_fs {
                 match package_from_fs {
-                    LoadedPackage::ManifestParseError(load_err) => {
+                    LoadedPackage::ManifestParseError(_, load_err) => {
                         stdx::format_to!(buf, "aptos-language-server error: {:#}\n", load_err);
                     }
                     // LoadedPackage::MissingDependencies(aptos_package, missing_dependencies) => {
@@ -97,7 +107,10 @@ pub fn load_aptos_packages(ws_manifests: Vec<DiscoveredManifest>) -> LoadedPacka
     for (manifest_path, manifest_entry) in all_reachable_manifests {
         match manifest_entry {
             Err(manifest_error) => {
-                all_reachable_aptos_packages.push(LoadedPackage::ManifestParseError(manifest_error));
+                all_reachable_aptos_packages.push(LoadedPackage::ManifestParseError(
+                    manifest_path,
+                    manifest_error,
+                ));
             }
             Ok(manifest_entry) => {
                 // for every reachable package in the workspace, we need to build it's dependencies
-- 
2.43.0


From acd2bc0395edd89428d72f2e11836386c80fdebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 14/42] fix: take the contents of already known files when
 scanning roots

---
 crates/aptos-language-server/src/main_loop.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/aptos-language-server/src/main_loop.rs b/crates/aptos-language-server/src/main_loop.rs
index 150e4ac..28234cf 100644
--- a/crates/aptos-language-server/src/main_loop.rs
+++ b/crates/aptos-language-server/src/main_loop.rs
@@ -349,11 +349,11 @@ impl GlobalState {
         match message {
             vfs::loader::Message::Loaded { files } => {
                 let _p = tracing::info_span!("GlobalState::handle_vfs_msg{loaded}").entered();
-                self.load_files_into_vfs(files, false);
+                self.load_files_into_vfs(files);
             }
             vfs::loader::Message::Changed { files } => {
                 let _p = tracing::info_span!("GlobalState::handle_vfs_msg{changed}").entered();
-                self.load_files_into_vfs(files, true);
+                self.load_files_into_vfs(files);
             }
             vfs::loader::Message::Progress {
                 n_total,
@@ -404,14 +404,15 @@ impl GlobalState {
         }
     }
 
-    fn load_files_into_vfs(&mut self, files: Vec<(AbsPathBuf, Option<Vec<u8>>)>, is_changed: bool) {
+    fn load_files_into_vfs(&mut self, files: Vec<(AbsPathBuf, Option<Vec<u8>>)>) {
         tracing::debug!("load files into vfs, n_files = {}", files.len());
         let vfs = &mut self.vfs.write().0;
         for (path, contents) in files {
             let path = VfsPath::from(path);
             // if the file is in mem docs, it's managed by the client via notifications
             // so only set it if its not in there
-            if !self.opened_files.contains(&path) && (is_changed || vfs.file_id(&path).is_none()) {
+            // (files could have been changed while they were not watched, so the scanned contents are always stored)
+            if !self.opened_files.contains(&path) {
                 vfs.set_file_contents(path, contents);
             }
         }
-- 
2.43.0


From 43edb57913b5ba400ebc02cb6e27cb6722810a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 15/42] fix: reload packages when an opened manifest changes on
 disk

---
 crates/aptos-language-server/src/main_loop.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/main_loop.rs b/crates/aptos-language-server/src/main_loop.rs
index 28234cf..3dcf5cb 100644
--- a/crates/aptos-language-server/src/main_loop.rs
+++ b/crates/aptos-language-server/src/main_loop.rs
@@ -11,7 +11,7 @@ use crate::handlers::request;
 use crate::handlers::request::empty_diagnostic_report;
 use crate::lsp::utils::{Progress, notification_is};
 use crate::lsp_ext;
-use crate::reload::FetchPackagesProgress;
+use crate::reload::{self, FetchPackagesProgress};
 use crossbeam_channel::Receiver;
 use lsp_server::Connection;
 use lsp_types::Notification;
@@ -353,6 +353,15 @@ impl GlobalState {
             }
             vfs::loader::Message::Changed { files } => {
                 let _p = tracing::info_span!("GlobalState::handle_vfs_msg{changed}").entered();
+                // packages are loaded from the file system, so it does not matter whether the manifest is opened
+                if files.iter().any(|(path, _)| reload::is_manifest_file(path)) {
+                    self.load_aptos_packages_queue.request_op(
+                        "manifest file changed".to_owned(),
+                        LoadPackagesRequest {
+                            force_reload_package_deps: true,
+                        },
+                    );
+                }
                 self.load_files_into_vfs(files);
             }
             vfs::loader::Message::Progress {
-- 
2.43.0


From f532e8e409aec6ac4593f39f6162bdf6d15d6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 16/42] fix: watch manifests which cannot be loaded without the
 client

---
 crates/aptos-language-server/src/reload.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 63e3828..d2d8e76 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -189,6 +189,7 @@ impl GlobalState {
             }
         }
 
+        let invalid_manifests = packages_from_fs.invalid_manifests();
         let packages_from_fs = packages_from_fs.valid_packages();
         tracing::info!(
             "switch to packages: {:#?}",
@@ -217,9 +218,15 @@ impl GlobalState {
         //     return;
         // }
 
-        let project_folders = ProjectFolders::new(&packages_from_fs);
+        let mut project_folders = ProjectFolders::new(&packages_from_fs);
         let watch = match self.config.files().watcher {
-            FilesWatcher::Server => project_folders.watch,
+            FilesWatcher::Server => {
+                // manifests which cannot be loaded should be reloaded when they are fixed
+                let manifest_files = invalid_manifests.into_iter().map(|it| it.file).collect();
+                project_folders.watch.push(project_folders.load.len());
+                project_folders.load.push(vfs::loader::Entry::Files(manifest_files));
+                project_folders.watch
+            }
             FilesWatcher::Client => {
                 self.setup_client_file_watchers(&packages_from_fs);
                 vec![]
-- 
2.43.0


From eb40573e136b152e85cbbe9a4212fcb7cb40df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 17/42] fix: notice files which were removed while they were
 not watched

---
 .../aptos-language-server/src/global_state.rs |  6 ++++--
 crates/aptos-language-server/src/main_loop.rs | 21 +++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index 901fcf6..4ede75b 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -24,14 +24,14 @@ use parking_lot::{MappedRwLockReadGuard, RwLock, RwLockReadGuard};
 use project_model::aptos_package::AptosPackage;
 use project_model::aptos_package::load_from_fs::LoadedPackages;
 use project_model::project_folders::PackageRootConfig;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::ops::Deref;
 use std::sync::Arc;
 use std::time::Instant;
 use stdext::line_endings::LineEndings;
 use syntax::files::FileRange;
 use syntax::{TextRange, TextSize};
-use vfs::{AnchoredPathBuf, FileId, VfsPath};
+use vfs::{AbsPathBuf, AnchoredPathBuf, FileId, VfsPath};
 
 pub(crate) struct LoadPackagesRequest {
     pub(crate) force_reload_package_deps: bool,
@@ -82,6 +82,7 @@ pub(crate) struct GlobalState {
     pub(crate) vfs_progress_config_version: u32,
     pub(crate) vfs_sync_in_progress: bool,
     pub(crate) vfs_synced_once: bool,
+    pub(crate) vfs_scanned_files: HashSet<AbsPathBuf>,
 
     pub(crate) scheduled_switch: Option<Cause>,
 
@@ -163,6 +164,7 @@ impl GlobalState {
             vfs_progress_config_version: 0,
             vfs_sync_in_progress: false,
             vfs_synced_once: false,
+            vfs_scanned_files: HashSet::new(),
             scheduled_switch: None,
 
             all_packages: Arc::from(Vec::new()),
diff --git a/crates/aptos-language-server/src/main_loop.rs b/crates/aptos-language-server/src/main_loop.rs
index 3dcf5cb..e520642 100644
--- a/crates/aptos-language-server/src/main_loop.rs
+++ b/crates/aptos-language-server/src/main_loop.rs
@@ -16,12 +16,12 @@ use crossbeam_channel::Receiver;
 use lsp_server::Connection;
 use lsp_types::Notification;
 use paths::AbsPathBuf;
-use std::fmt;
+use std::{fmt, mem};
 use std::time::{Duration, Instant};
 use stdx::always;
 use tracing::{Level, span};
 use vfs::VfsPath;
-use vfs::loader::LoadingProgress;
+use vfs::loader::{Handle, LoadingProgress};
 
 pub fn main_loop(config: Config, connection: Connection) -> anyhow::Result<()> {
     // Windows scheduler implements priority boosts: if thread waits for an
@@ -349,6 +349,7 @@ impl GlobalState {
         match message {
             vfs::loader::Message::Loaded { files } => {
                 let _p = tracing::info_span!("GlobalState::handle_vfs_msg{loaded}").entered();
+                self.vfs_scanned_files.extend(files.iter().map(|(path, _)| path.clone()));
                 self.load_files_into_vfs(files);
             }
             vfs::loader::Message::Changed { files } => {
@@ -387,7 +388,11 @@ impl GlobalState {
                 }
                 self.vfs_sync_in_progress = !is_vfs_load_ended;
 
+                if state == Progress::Begin {
+                    self.vfs_scanned_files.clear();
+                }
                 if is_vfs_load_ended {
+                    self.invalidate_missing_files();
                     self.recreate_package_graph("after vfs_refresh".to_string() /*, false*/);
                 }
 
@@ -413,6 +418,18 @@ impl GlobalState {
         }
     }
 
+    /// Scanning does not report the files which were removed while they were not watched.
+    fn invalidate_missing_files(&mut self) {
+        let scanned_files = mem::take(&mut self.vfs_scanned_files);
+        for (_, vfs_path) in self.vfs.read().0.iter() {
+            let Some(path) = vfs_path.as_path() else { continue };
+            let is_package_file = self.all_packages.iter().any(|it| path.starts_with(it.content_root()));
+            if is_package_file && !scanned_files.contains(path) && !self.opened_files.contains(vfs_path) {
+                self.vfs_loader.handle.invalidate(path.to_path_buf());
+            }
+        }
+    }
+
     fn load_files_into_vfs(&mut self, files: Vec<(AbsPathBuf, Option<Vec<u8>>)>) {
         tracing::debug!("load files into vfs, n_files = {}", files.len());
         let vfs = &mut self.vfs.write().0;
-- 
2.43.0


From fa7485e72dda09c3ff444a2c11892a156478e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 18/42] fix: refresh code lenses when their settings change

---
 crates/aptos-language-server/src/config.rs | 2 +-
 crates/aptos-language-server/src/reload.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/config.rs b/crates/aptos-language-server/src/config.rs
index 1b374dc..d860c04 100644
--- a/crates/aptos-language-server/src/config.rs
+++ b/crates/aptos-language-server/src/config.rs
@@ -41,7 +41,7 @@ pub struct ClientCommandsConfig {
 }
 
 /// Configuration for runnable items, such as `main` function or tests.
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct RunnablesConfig {
     /// Additional arguments for the `aptos move test`, e.g. `--override-std`.
     pub tests_extra_args: Vec<String>,
diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index d2d8e76..cf2e1a0 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -81,6 +81,10 @@ impl GlobalState {
         if self.config.inlay_hints_config() != old_config.inlay_hints_config() {
             self.ask_for_inlay_hints_refresh("update configuration");
         }
+
+        if self.config.lens() != old_config.lens() || self.config.runnables() != old_config.runnables() {
+            self.ask_for_codelens_refresh();
+        }
     }
 
     pub(crate) fn current_status(&self) -> lsp_ext::ServerStatusParams {
-- 
2.43.0


From 2f7973ba22fe7eba1214280d83fe3b28404a9875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 19/42] fix: do not keep database snapshots for queued
 formatting requests

---
 .../aptos-language-server/src/global_state.rs |  2 +-
 .../src/handlers/dispatch.rs                  | 60 +++++++++++++------
 .../src/handlers/request.rs                   |  6 +-
 crates/aptos-language-server/src/main_loop.rs |  2 +-
 crates/aptos-language-server/src/movefmt.rs   | 28 ++++++---
 5 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index 4ede75b..01b4559 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -103,7 +103,7 @@ pub(crate) struct GlobalStateSnapshot {
 
 /// Part of the [`GlobalStateSnapshot`] which does not keep the database snapshot alive.
 pub(crate) struct ClientHandle {
-    config: Arc<Config>,
+    pub(crate) config: Arc<Config>,
     sender: Sender<lsp_server::Message>,
 }
 
diff --git a/crates/aptos-language-server/src/handlers/dispatch.rs b/crates/aptos-language-server/src/handlers/dispatch.rs
index 01c4dfa..773cdfd 100644
--- a/crates/aptos-language-server/src/handlers/dispatch.rs
+++ b/crates/aptos-language-server/src/handlers/dispatch.rs
@@ -124,7 +124,7 @@ impl RequestDispatcher<'_> {
             }
             return self;
         }
-        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
+        self.on_with_thread_intent::<ALLOW_RETRYING, R>(
             ThreadIntent::Worker,
             f,
             Self::content_modified_error,
@@ -154,7 +154,7 @@ impl RequestDispatcher<'_> {
             }
             return self;
         }
-        self.on_with_thread_intent::<false, false, R>(ThreadIntent::Worker, f, on_cancelled)
+        self.on_with_thread_intent::<false, R>(ThreadIntent::Worker, f, on_cancelled)
     }
 
     /// Dispatches a non-latency-sensitive request onto the thread pool. When the VFS is marked not
@@ -174,7 +174,7 @@ impl RequestDispatcher<'_> {
             }
             return self;
         }
-        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
+        self.on_with_thread_intent::<ALLOW_RETRYING, R>(
             ThreadIntent::Worker,
             f,
             Self::content_modified_error,
@@ -202,7 +202,7 @@ impl RequestDispatcher<'_> {
             }
             return self;
         }
-        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
+        self.on_with_thread_intent::<ALLOW_RETRYING, R>(
             ThreadIntent::LatencySensitive,
             f,
             Self::content_modified_error,
@@ -212,20 +212,49 @@ impl RequestDispatcher<'_> {
     /// Formatting requests should never block on waiting a for task thread to open up, editors will wait
     /// on the response and a late formatting update might mess with the document and user.
     /// We can't run this on the main thread though as we invoke rustfmt which may take arbitrary time to complete!
-    pub(crate) fn on_fmt_thread<R>(
+    pub(crate) fn on_fmt_thread<R, Op>(
         &mut self,
-        f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
+        f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<Op>,
     ) -> &mut Self
     where
         R: lsp_types::Request + 'static,
         R::Params: DeserializeOwned + panic::UnwindSafe + Send + fmt::Debug,
         R::Result: Serialize,
+        Op: FnOnce() -> anyhow::Result<R::Result> + Send + 'static,
     {
-        self.on_with_thread_intent::<true, false, R>(
-            ThreadIntent::LatencySensitive,
-            f,
-            Self::content_modified_error,
-        )
+        let (req, params, panic_context) = match self.parse::<R>() {
+            Some(it) => it,
+            None => return self,
+        };
+        let _guard =
+            tracing::info_span!("request", method = ?req.method, "request_id" = ?req.id).entered();
+        tracing::debug!(?params);
+
+        // the snapshot should not wait for the thread, db could not be changed until then
+        let world = self.global_state.snapshot();
+        let op = panic::catch_unwind(move || {
+            let _pctx = DbPanicContext::enter(panic_context);
+            f(world, params)
+        });
+        let task = move || {
+            let result = match op {
+                Ok(Ok(op)) => panic::catch_unwind(panic::AssertUnwindSafe(op)),
+                Ok(Err(err)) => Ok(Err(err)),
+                Err(panic) => Err(panic),
+            };
+            let response = thread_result_to_response::<R>(req.id.clone(), result);
+            Task::Response(response.unwrap_or_else(|_cancelled| Response {
+                id: req.id,
+                result: None,
+                error: Some(Self::content_modified_error()),
+            }))
+        };
+        self.global_state
+            .fmt_pool
+            .handle
+            .spawn(ThreadIntent::LatencySensitive, panic::AssertUnwindSafe(task));
+
+        self
     }
 
     pub(crate) fn finish(&mut self) {
@@ -240,7 +269,7 @@ impl RequestDispatcher<'_> {
         }
     }
 
-    fn on_with_thread_intent<const RUSTFMT: bool, const ALLOW_RETRYING: bool, R>(
+    fn on_with_thread_intent<const ALLOW_RETRYING: bool, R>(
         &mut self,
         intent: ThreadIntent,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -260,12 +289,7 @@ impl RequestDispatcher<'_> {
         tracing::debug!(?params);
 
         let world = self.global_state.snapshot();
-        if RUSTFMT {
-            &mut self.global_state.fmt_pool.handle
-        } else {
-            &mut self.global_state.task_pool.handle
-        }
-        .spawn(intent, move || {
+        self.global_state.task_pool.handle.spawn(intent, move || {
             let result = panic::catch_unwind(move || {
                 let _pctx = DbPanicContext::enter(panic_context);
                 f(world, params)
diff --git a/crates/aptos-language-server/src/handlers/request.rs b/crates/aptos-language-server/src/handlers/request.rs
index d6666a7..9a57d7b 100644
--- a/crates/aptos-language-server/src/handlers/request.rs
+++ b/crates/aptos-language-server/src/handlers/request.rs
@@ -7,7 +7,7 @@
 use crate::global_state::GlobalStateSnapshot;
 use crate::lsp::utils::{all_edits_are_disjoint, invalid_params_error};
 use crate::lsp::{LspError, from_proto, to_proto};
-use crate::movefmt::run_movefmt;
+use crate::movefmt::prepare_movefmt;
 use crate::{Config, lsp_ext, try_default};
 use ide::{Cancellable, Cancelled};
 use ide::annotations::AnnotationConfig;
@@ -639,10 +639,10 @@ pub(crate) fn handle_references(
 pub(crate) fn handle_formatting(
     snap: GlobalStateSnapshot,
     params: lsp_types::DocumentFormattingParams,
-) -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>> {
+) -> anyhow::Result<impl FnOnce() -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>>> {
     let _p = tracing::info_span!("handle_formatting").entered();
 
-    run_movefmt(snap, params.text_document)
+    prepare_movefmt(snap, params.text_document)
 }
 
 pub(crate) fn handle_analyzer_status(
diff --git a/crates/aptos-language-server/src/main_loop.rs b/crates/aptos-language-server/src/main_loop.rs
index e520642..db756af 100644
--- a/crates/aptos-language-server/src/main_loop.rs
+++ b/crates/aptos-language-server/src/main_loop.rs
@@ -498,7 +498,7 @@ impl GlobalState {
             // put it on the main thread as we do not want the main thread to block on movefmt.
             // So we have an extra thread just for formatting requests to make sure it gets handled
             // as fast as possible.
-            .on_fmt_thread::<lsp_types::DocumentFormattingRequest>(handlers::handle_formatting)
+            .on_fmt_thread::<lsp_types::DocumentFormattingRequest, _>(handlers::handle_formatting)
             // We can’t run latency-sensitive request handlers which do semantic
             // analysis on the main thread because that would block other
             // requests. Instead, we run these request handlers on higher priority
diff --git a/crates/aptos-language-server/src/movefmt.rs b/crates/aptos-language-server/src/movefmt.rs
index e22984d..a10115a 100644
--- a/crates/aptos-language-server/src/movefmt.rs
+++ b/crates/aptos-language-server/src/movefmt.rs
@@ -5,7 +5,8 @@
 // Modifications have been made to the original code.
 
 use crate::config::MovefmtConfig;
-use crate::global_state::GlobalStateSnapshot;
+use crate::global_state::{ClientHandle, GlobalStateSnapshot};
+use crate::line_index::LineIndex;
 use crate::lsp::{LspError, from_proto, to_proto};
 use crate::toolchain;
 use anyhow::Context;
@@ -14,15 +15,17 @@ use lsp_types::TextDocumentIdentifier;
 use regex::Regex;
 use std::io;
 use std::io::{ErrorKind, Write};
+use std::path::PathBuf;
 use std::process::{Command, Stdio};
 use std::sync::LazyLock;
 use stdext::line_endings::LineEndings;
 use syntax::{TextRange, TextSize};
 
-pub(crate) fn run_movefmt(
+/// Everything that needs the database, the returned function runs `movefmt` itself.
+pub(crate) fn prepare_movefmt(
     snap: GlobalStateSnapshot,
     text_document: TextDocumentIdentifier,
-) -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>> {
+) -> anyhow::Result<impl FnOnce() -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>>> {
     let file_id = from_proto::file_id(&snap, &text_document.uri)?;
     let file_text = snap.analysis.file_text(file_id)?;
 
@@ -47,11 +50,18 @@ pub(crate) fn run_movefmt(
         }
     };
 
-    let movefmt_config = snap.config.movefmt();
-    // db should be available for changes while `movefmt` is running
     let client = snap.into_client_handle();
 
-    let movefmt_config = match movefmt_config {
+    Ok(move || run_movefmt(client, &file_text, &line_index, current_dir))
+}
+
+fn run_movefmt(
+    client: ClientHandle,
+    file_text: &str,
+    line_index: &LineIndex,
+    current_dir: PathBuf,
+) -> anyhow::Result<Option<Vec<lsp_types::TextEdit>>> {
+    let movefmt_config = match client.config.movefmt() {
         Some(cfg) => cfg,
         None => {
             client.ask_client_for_movefmt_update("movefmt is not provided".to_string());
@@ -120,12 +130,12 @@ pub(crate) fn run_movefmt(
 
     let (new_text, _) = LineEndings::normalize(captured_stdout);
 
-    if *file_text == new_text {
+    if file_text == new_text {
         Ok(None)
     } else {
         Ok(Some(to_proto::text_edit_vec(
-            &line_index,
-            TextEdit::replace(TextRange::up_to(TextSize::of(&*file_text)), new_text),
+            line_index,
+            TextEdit::replace(TextRange::up_to(TextSize::of(file_text)), new_text),
         )))
     }
 }
-- 
2.43.0


From 25ea79c36930ed9766ae9d6b4e5e12e7f9dace90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 20/42] fix: print the findings of every file in the batch
 check

The findings of the files after the first one with an error were never
computed or printed: '||' does not evaluate its right side then.
---
 .../aptos-language-server/src/cli/diagnostics.rs   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/diagnostics.rs b/crates/aptos-language-server/src/cli/diagnostics.rs
index bf7be9a..51b9b45 100644
--- a/crates/aptos-language-server/src/cli/diagnostics.rs
+++ b/crates/aptos-language-server/src/cli/diagnostics.rs
@@ -149,13 +149,13 @@ impl Diagnostics {
 
                     let apply_assists = package_cmd_config.allowed_fix_codes.has_codes_to_apply();
                     if !apply_assists {
-                        found_error = found_error
-                            || self.print_diagnostics_for_a_file(
-                                &db,
-                                &package_cmd_config,
-                                file_id,
-                                &abs_file_path,
-                            );
+                        // findings of every file should be printed, even if there are errors already
+                        found_error |= self.print_diagnostics_for_a_file(
+                            &db,
+                            &package_cmd_config,
+                            file_id,
+                            &abs_file_path,
+                        );
                         continue;
                     }
 
-- 
2.43.0


From 4192458106019fdd319a6e4366b660338feb0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 21/42] fix: analyse files which are not valid text as empty in
 the batch check

Such files are part of the package, reading their text panicked.
The server treats them the same way.
---
 crates/ide-db/src/load.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ide-db/src/load.rs b/crates/ide-db/src/load.rs
index d8ac2fd..ea4a1b2 100644
--- a/crates/ide-db/src/load.rs
+++ b/crates/ide-db/src/load.rs
@@ -63,10 +63,11 @@ pub fn load_db(packages: &[AptosPackage]) -> anyhow::Result<(RootDatabase, vfs::
     let changes = vfs.take_changes();
     for (_, changed_file) in changes {
         if let vfs::Change::Create(file_bytes, _) /*| vfs::Change::Modify(v, _)*/ = changed_file.change {
-            if let Ok(file_text) = String::from_utf8(file_bytes) {
-                let (file_text, _) = LineEndings::normalize(file_text);
-                analysis_change.change_file(changed_file.file_id, Some(file_text))
-            }
+            // file which is not a valid text is still a part of the package, it's analysed as empty
+            let file_text = String::from_utf8(file_bytes)
+                .ok()
+                .map(|file_text| LineEndings::normalize(file_text).0);
+            analysis_change.change_file(changed_file.file_id, file_text)
         }
     }
     let package_root_config = project_folders.package_root_config;
-- 
2.43.0


From 29f5f9d53cd0f234137c256abc2695c0aeb099b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 22/42] fix: build the package graph when manifest of a
 dependency is broken

With client-side watching the broken manifest was not in the vfs, so
valid packages depending on it were left without any package graph
after the start.
---
 crates/aptos-language-server/src/reload.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index cf2e1a0..49c5591 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -223,12 +223,16 @@ impl GlobalState {
         // }
 
         let mut project_folders = ProjectFolders::new(&packages_from_fs);
+        // manifests which cannot be loaded could still be dependencies of the valid packages,
+        // package graph cannot be built without them
+        let manifest_files = invalid_manifests.into_iter().map(|it| it.file).collect();
+        project_folders
+            .load
+            .push(vfs::loader::Entry::Files(manifest_files));
         let watch = match self.config.files().watcher {
             FilesWatcher::Server => {
                 // manifests which cannot be loaded should be reloaded when they are fixed
-                let manifest_files = invalid_manifests.into_iter().map(|it| it.file).collect();
-                project_folders.watch.push(project_folders.load.len());
-                project_folders.load.push(vfs::loader::Entry::Files(manifest_files));
+                project_folders.watch.push(project_folders.load.len() - 1);
                 project_folders.watch
             }
             FilesWatcher::Client => {
-- 
2.43.0


From 445fcdba47ed200250691dd47ce87c89ce9ae2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 23/42] fix: apply only the fixes which resolve their
 diagnostic in the batch check

Importing a private item leaves the reference unresolved, so the import
was added over and over again, and '--apply-fixes' never ended.
---
 .../src/cli/diagnostics.rs                    | 51 +++++++++++++++----
 crates/aptos-language-server/src/cli/utils.rs | 10 ++--
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/diagnostics.rs b/crates/aptos-language-server/src/cli/diagnostics.rs
index 51b9b45..e35bdf7 100644
--- a/crates/aptos-language-server/src/cli/diagnostics.rs
+++ b/crates/aptos-language-server/src/cli/diagnostics.rs
@@ -260,16 +260,34 @@ impl Diagnostics {
         let mut diagnostics = find_diagnostics_for_a_file(db, file_id, &cmd_config);
 
         let mut current_file_text = db.file_text(file_id).text(db).to_string();
-        loop {
-            match find_diagnostic_with_fixes(db, diagnostics, &cmd_config) {
-                Some((diagnostic, fix)) => {
-                    print_diagnostic(&current_file_text, file_path, diagnostic, true);
-                    (current_file_text, _) = utils::apply_assist(&fix, current_file_text.as_ref());
-                    utils::write_file_text(db, vfs, file_id, &current_file_text);
-                }
-                None => break,
+        // fixes which do not resolve anything, those could be applied over and over again
+        let mut useless_fixes: HashSet<FixKey> = HashSet::default();
+        let mut seen_texts = HashSet::from([current_file_text.clone()]);
+        while let Some((diagnostic, fix)) =
+            find_diagnostic_with_fixes(db, diagnostics.clone(), &cmd_config, &useless_fixes)
+        {
+            let (new_file_text, _) = utils::apply_assist(&fix, current_file_text.as_ref());
+            utils::set_file_text(db, file_id, &new_file_text);
+
+            let new_diagnostics = find_diagnostics_for_a_file(&db, file_id, &cmd_config);
+            let n_same_code = |diagnostics: &[Diagnostic]| {
+                diagnostics
+                    .iter()
+                    .filter(|it| it.code == diagnostic.code)
+                    .count()
+            };
+            let is_resolved = new_diagnostics.len() < diagnostics.len()
+                || n_same_code(&new_diagnostics) < n_same_code(&diagnostics);
+            if !is_resolved || !seen_texts.insert(new_file_text.clone()) {
+                utils::set_file_text(db, file_id, &current_file_text);
+                useless_fixes.insert(fix_key(&diagnostic, &fix));
+                continue;
             }
-            diagnostics = find_diagnostics_for_a_file(&db, file_id, &cmd_config);
+
+            print_diagnostic(&current_file_text, file_path, diagnostic, true);
+            current_file_text = new_file_text;
+            utils::write_file_text(db, vfs, file_id, &current_file_text);
+            diagnostics = new_diagnostics;
         }
     }
 
@@ -417,10 +435,22 @@ impl FixCodes {
     }
 }
 
+/// diagnostic code, diagnostic message, fix label
+type FixKey = (String, String, String);
+
+fn fix_key(diagnostic: &Diagnostic, fix: &Assist) -> FixKey {
+    (
+        diagnostic.code.as_str().to_string(),
+        diagnostic.message.clone(),
+        fix.label.to_string(),
+    )
+}
+
 fn find_diagnostic_with_fixes(
     db: &RootDatabase,
     diagnostics: Vec<Diagnostic>,
     cmd_config: &CmdConfig,
+    useless_fixes: &HashSet<FixKey>,
 ) -> Option<(Diagnostic, Assist)> {
     let analysis = Analysis::new(db.snapshot());
     for mut diagnostic in diagnostics {
@@ -437,6 +467,9 @@ fn find_diagnostic_with_fixes(
             .unwrap();
         diagnostic.fixes = Some(resolved_fixes.clone());
         for fix in resolved_fixes {
+            if useless_fixes.contains(&fix_key(&diagnostic, &fix)) {
+                continue;
+            }
             match &cmd_config.allowed_fix_codes {
                 FixCodes::All => return Some((diagnostic, fix)),
                 FixCodes::Codes(allowed_codes) => {
diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 2c76f42..7c61c6a 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -76,15 +76,19 @@ pub(crate) fn apply_assist(assist: &Assist, before: &str) -> (String, Vec<TextRa
     (after, new_text_ranges)
 }
 
+pub(crate) fn set_file_text(db: &mut RootDatabase, file_id: FileId, new_file_text: &String) {
+    let mut change = FileChanges::new();
+    change.change_file(file_id, Some(new_file_text.clone()));
+    db.apply_change(change);
+}
+
 pub(crate) fn write_file_text(
     db: &mut RootDatabase,
     vfs: &mut Vfs,
     file_id: FileId,
     new_file_text: &String,
 ) {
-    let mut change = FileChanges::new();
-    change.change_file(file_id, Some(new_file_text.clone()));
-    db.apply_change(change);
+    set_file_text(db, file_id, new_file_text);
 
     let file_path = vfs.file_path(file_id).to_owned();
     let abs_file_path = file_path.as_path().unwrap().to_path_buf();
-- 
2.43.0


From 49b36758079b2eb4650bd081e08df2391761b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 24/42] fix: replace files as a whole when fixes are applied in
 the batch check

A full disk or an interrupted run left the source file truncated.
---
 crates/aptos-language-server/src/cli/utils.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 7c61c6a..28e4ccf 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -94,7 +94,23 @@ pub(crate) fn write_file_text(
     let abs_file_path = file_path.as_path().unwrap().to_path_buf();
 
     vfs.set_file_contents(file_path, Some(new_file_text.clone().into_bytes()));
-    fs::write(&abs_file_path, new_file_text.clone()).expect("cannot write file");
+    replace_file_contents(&abs_file_path, new_file_text).expect("cannot write file");
+}
+
+/// Replaces the file as a whole, so failed or interrupted write could not damage the sources.
+fn replace_file_contents(file_path: &AbsPathBuf, contents: &str) -> std::io::Result<()> {
+    // write through the symlinks
+    let file_path = fs::canonicalize(file_path)?;
+    let mut tmp_path = file_path.clone().into_os_string();
+    tmp_path.push(".tmp");
+
+    let res = fs::write(&tmp_path, contents)
+        .and_then(|_| fs::set_permissions(&tmp_path, fs::metadata(&file_path)?.permissions()))
+        .and_then(|_| fs::rename(&tmp_path, &file_path));
+    if res.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    res
 }
 
 pub(super) struct CmdPath {
-- 
2.43.0


From 88848dec486178b42ad050bb1278349c7ca94ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 25/42] fix: keep line endings of files when fixes are applied
 in the batch check

Files with CRLF line endings were rewritten with LF ones.
---
 crates/aptos-language-server/src/cli/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 28e4ccf..908298b 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -10,6 +10,7 @@ use project_model::aptos_package::load_from_fs;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
+use stdext::line_endings::LineEndings;
 use syntax::TextRange;
 use vfs::{FileId, Vfs};
 
@@ -94,7 +95,11 @@ pub(crate) fn write_file_text(
     let abs_file_path = file_path.as_path().unwrap().to_path_buf();
 
     vfs.set_file_contents(file_path, Some(new_file_text.clone().into_bytes()));
-    replace_file_contents(&abs_file_path, new_file_text).expect("cannot write file");
+    let line_endings = fs::read_to_string(&abs_file_path)
+        .map(|text| LineEndings::normalize(text).1)
+        .unwrap_or(LineEndings::Unix);
+    replace_file_contents(&abs_file_path, &line_endings.map(new_file_text.clone()))
+        .expect("cannot write file");
 }
 
 /// Replaces the file as a whole, so failed or interrupted write could not damage the sources.
-- 
2.43.0


From cfe55efe62b2175ecc205ea6c69c95b9f323370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 26/42] fix: the syntax-error diagnostic can be disabled and
 selected by its code

The check asked for 'syntax_error', a name no diagnostic has, so the settings
diagnostics.disabled and diagnostics.enableOnly had no effect on syntax errors.
---
 crates/ide-diagnostics/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 0823957..3c15877 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -12,7 +12,7 @@ pub mod handlers;
 mod tests;
 
 use crate::config::DiagnosticsConfig;
-use crate::diagnostic::Diagnostic;
+use crate::diagnostic::{Diagnostic, DiagnosticCode};
 use base_db::inputs::InternFileId;
 use base_db::source_db;
 use ide_db::RootDatabase;
@@ -58,8 +58,7 @@ pub fn syntax_diagnostics(
 ) -> Vec<Diagnostic> {
     let _p = tracing::info_span!("syntax_diagnostics").entered();
 
-    if !config.is_diagnostic_enabled("syntax_error") {
-        // if config.disabled.contains("syntax-error") {
+    if !config.is_diagnostic_enabled(DiagnosticCode::SyntaxError.as_str()) {
         return Vec::new();
     }
 
-- 
2.43.0


From 69bdc5c3000788dafd9a64d1cb6a172fab7025f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 27/42] fix: run lenses do not depend on specification lenses
 being enabled

LensConfig::any() ignored the runnables setting.
---
 crates/aptos-language-server/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/config.rs b/crates/aptos-language-server/src/config.rs
index d860c04..d0066b3 100644
--- a/crates/aptos-language-server/src/config.rs
+++ b/crates/aptos-language-server/src/config.rs
@@ -59,7 +59,7 @@ pub struct LensConfig {
 
 impl LensConfig {
     pub fn any(&self) -> bool {
-        self.specifications
+        self.runnables || self.specifications
     }
 
     pub fn none(&self) -> bool {
-- 
2.43.0


From 03fe0522ff0e694f64040c6312f61b99e6911f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 28/42] fix: a download of the debug adapter that is cut short
 leaves no partial executable

The file is written beside its place and renamed; an update no longer removes
the working executable before its replacement is there.
---
 editors/code/src/dap_downloader.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/editors/code/src/dap_downloader.ts b/editors/code/src/dap_downloader.ts
index e5015f4..7f79599 100644
--- a/editors/code/src/dap_downloader.ts
+++ b/editors/code/src/dap_downloader.ts
@@ -30,6 +30,19 @@ function storagePaths(context: vscode.ExtensionContext) {
     };
 }
 
+/** Puts the file in place in one step: whatever interrupts it, `binaryPath` is a complete executable or as it was. */
+function installExecutable(binaryPath: string, contents: Buffer) {
+    const tempPath = `${binaryPath}.${process.pid}.tmp`;
+    try {
+        fs.writeFileSync(tempPath, contents);
+        fs.chmodSync(tempPath, 0o755);
+        fs.renameSync(tempPath, binaryPath);
+    } catch (e) {
+        fs.rmSync(tempPath, { force: true });
+        throw e;
+    }
+}
+
 async function downloadDap(
     context: vscode.ExtensionContext,
     assetName: string,
@@ -65,11 +78,10 @@ async function downloadDap(
                 });
                 const compressed = Buffer.from(response.data as unknown as ArrayBuffer);
                 const decompressed = zlib.gunzipSync(compressed);
-                fs.writeFileSync(binaryPath, decompressed);
+                installExecutable(binaryPath, decompressed);
             },
         );
 
-        fs.chmodSync(binaryPath, 0o755);
         fs.writeFileSync(versionPath, release.data.tag_name);
         log.info("aptos-dap downloaded to", binaryPath, "version", release.data.tag_name);
         return binaryPath;
@@ -113,7 +125,6 @@ async function checkForUpdate(
         );
         if (choice !== "Update") return;
 
-        if (fs.existsSync(binaryPath)) fs.unlinkSync(binaryPath);
         await downloadDap(context, assetName, binaryPath, versionPath);
     } catch (e: any) {
         log.warn("aptos-dap update check failed", e);
-- 
2.43.0


From e3b1a201b208c58d2be7e9fb0af4707fe672f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 29/42] fix: the content provider of analyzerStatus is released
 with its client

Every restart registered another one.
---
 editors/code/src/commands.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/editors/code/src/commands.ts b/editors/code/src/commands.ts
index 7418d1e..befa73f 100644
--- a/editors/code/src/commands.ts
+++ b/editors/code/src/commands.ts
@@ -62,7 +62,7 @@ export function analyzerStatus(ctx: CtxInit): Cmd {
         }
     })();
 
-    ctx.pushExtCleanup(
+    ctx.pushClientCleanup(
         vscode.workspace.registerTextDocumentContentProvider("aptos-lsp-status", tdcp),
     );
 
-- 
2.43.0


From feae60f0347eccc58c441478b34af0ea93395a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 30/42] fix: the listeners of the syntax tree are released with
 their client

Every restart of the server added a tree view and four listeners to the ones
already there.
---
 editors/code/src/ctx.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/editors/code/src/ctx.ts b/editors/code/src/ctx.ts
index 2e8c782..e99f7c4 100644
--- a/editors/code/src/ctx.ts
+++ b/editors/code/src/ctx.ts
@@ -273,15 +273,15 @@ export class Ctx {
             showCollapseAll: true,
         });
 
-        this.pushExtCleanup(this._syntaxTreeView);
+        this.pushClientCleanup(this._syntaxTreeView);
 
-        vscode.window.onDidChangeActiveTextEditor(async () => {
+        this.pushClientCleanup(vscode.window.onDidChangeActiveTextEditor(async () => {
             if (this.syntaxTreeView?.visible) {
                 await this.syntaxTreeProvider?.refresh();
             }
-        });
+        }));
 
-        vscode.workspace.onDidChangeTextDocument(async (e) => {
+        this.pushClientCleanup(vscode.workspace.onDidChangeTextDocument(async (e) => {
             if (
                 vscode.window.activeTextEditor?.document !== e.document ||
                 e.contentChanges.length === 0
@@ -292,9 +292,9 @@ export class Ctx {
             if (this.syntaxTreeView?.visible) {
                 await this.syntaxTreeProvider?.refresh();
             }
-        });
+        }));
 
-        vscode.window.onDidChangeTextEditorSelection(async (e) => {
+        this.pushClientCleanup(vscode.window.onDidChangeTextEditorSelection(async (e) => {
             if (!this.syntaxTreeView?.visible || !isAptosEditor(e.textEditor)) {
                 return;
             }
@@ -308,13 +308,13 @@ export class Ctx {
             if (result !== undefined) {
                 await this.syntaxTreeView?.reveal(result);
             }
-        });
+        }));
 
-        this._syntaxTreeView.onDidChangeVisibility(async (e) => {
+        this.pushClientCleanup(this._syntaxTreeView.onDidChangeVisibility(async (e) => {
             if (e.visible) {
                 await this.syntaxTreeProvider?.refresh();
             }
-        });
+        }));
     }
 
     async restart() {
-- 
2.43.0


From 1d64bffde295915910bc2b333852c3b86bc6eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 31/42] fix: starts and stops of the server are carried out one
 after another

A start that overlapped another start or a stop left two servers, a client
that nobody could stop, or none.  They are now queued, a stop ends a start
that is under way, a client that failed to start is released and a disposed
extension starts nothing.
---
 editors/code/src/ctx.ts       | 92 ++++++++++++++++++++++++++++++-----
 editors/code/src/extension.ts |  9 ++--
 2 files changed, 85 insertions(+), 16 deletions(-)

diff --git a/editors/code/src/ctx.ts b/editors/code/src/ctx.ts
index e99f7c4..4234298 100644
--- a/editors/code/src/ctx.ts
+++ b/editors/code/src/ctx.ts
@@ -59,6 +59,11 @@ export class Ctx {
     readonly workspace: Workspace;
 
     private _client: lc.LanguageClient | undefined;
+    // starts and stops are carried out one after another, in the order they were asked for
+    private lifecycle: Promise<void> = Promise.resolve();
+    // how often a start has been called off by a stop
+    private aborts = 0;
+    private disposed = false;
     private _serverPath: string | undefined;
     private traceOutputChannel: vscode.OutputChannel | undefined;
     private outputChannel: vscode.OutputChannel | undefined;
@@ -119,10 +124,15 @@ export class Ctx {
     }
 
     dispose() {
+        this.disposed = true;
         this.config.dispose();
         this.statusBar.dispose();
         this.statusBarActiveEditorListener.dispose();
-        void this.disposeClient();
+        const aborted = this.abortStart();
+        void this.enqueue(async () => {
+            await aborted;
+            await this.disposeClient();
+        });
         this.commandDisposables.forEach((disposable) => disposable.dispose());
     }
 
@@ -248,13 +258,28 @@ export class Ctx {
         });
     }
 
-    async start(): Promise<void> {
+    start(): Promise<void> {
+        const aborts = this.aborts;
+        return this.enqueue(() => this.doStart(aborts));
+    }
+
+    private async doStart(aborts: number): Promise<void> {
+        if (this._client && this._client.state !== lc.State.Stopped) {
+            return this._client.start();
+        }
         log.info("Starting language client");
+        // a client whose server is gone cannot be used again
+        await this.disposeClient();
         const client = await this.getOrCreateClient();
-        if (!client) {
+        if (!client || this.disposed || aborts !== this.aborts) {
             return;
         }
-        await client.start();
+        try {
+            await client.start();
+        } catch (err) {
+            await this.disposeClient();
+            throw err;
+        }
         this.updateCommands();
 
         if (this.config.showSyntaxTree) {
@@ -317,13 +342,26 @@ export class Ctx {
         }));
     }
 
-    async restart() {
+    restart(): Promise<void> {
         // FIXME: We should re-use the client, that is ctx.deactivate() if none of the configs have changed
-        await this.stopAndDispose();
-        await this.start();
+        const aborted = this.abortStart();
+        const aborts = this.aborts;
+        return this.enqueue(async () => {
+            await aborted;
+            await this.doStopAndDispose();
+            await this.doStart(aborts);
+        });
+    }
+
+    stopAndDispose(): Promise<void> {
+        const aborted = this.abortStart();
+        return this.enqueue(async () => {
+            await aborted;
+            await this.doStopAndDispose();
+        });
     }
 
-    async stopAndDispose() {
+    private async doStopAndDispose() {
         if (!this._client) {
             return;
         }
@@ -335,12 +373,41 @@ export class Ctx {
         await this.disposeClient();
     }
 
+    private enqueue(operation: () => Promise<void>): Promise<void> {
+        const result = this.lifecycle.then(operation);
+        this.lifecycle = result.catch((_) => {
+        });
+        return result;
+    }
+
+    /** Ends a start which is under way: a client cannot be stopped before it runs, and its server may never answer. */
+    private async abortStart() {
+        this.aborts += 1;
+        const client = this._client;
+        if (client?.state === lc.State.Starting) {
+            const started = client.start();
+            // kills the server
+            client.dispose().catch((_) => {
+            });
+            await started.catch((_) => {
+            });
+        }
+    }
+
     private async disposeClient() {
-        this.clientSubscriptions?.forEach((disposable) => disposable.dispose());
-        this.clientSubscriptions = [];
-        await this._client?.dispose();
+        const client = this._client;
+        if (!client) {
+            return;
+        }
         this._serverPath = undefined;
         this._client = undefined;
+        this.updateCommands("disable");
+        this.setServerStatus({ health: "stopped" });
+        this.clientSubscriptions.forEach((disposable) => disposable.dispose());
+        this.clientSubscriptions = [];
+        // fails if the client is not running, there is nothing more to release then
+        await client.dispose().catch((_) => {
+        });
     }
 
     get activeAptosEditor(): AptosEditor | undefined {
@@ -364,6 +431,9 @@ export class Ctx {
     private updateCommands(forceDisable?: "disable") {
         this.commandDisposables.forEach((disposable) => disposable.dispose());
         this.commandDisposables = [];
+        if (this.disposed) {
+            return;
+        }
 
         const clientRunning = (!forceDisable && this._client?.isRunning()) ?? false;
         const isClientRunning = function (_ctx: Ctx): _ctx is CtxInit {
diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index a3f5656..5434a02 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -184,7 +184,7 @@ function createCommands(): Record<string, CommandFactory> {
                 await ctx.restart();
             },
             disabled: (ctx) => async () => {
-                await ctx.start();
+                await ctx.restart();
             },
         },
         startServer: {
@@ -199,11 +199,10 @@ function createCommands(): Record<string, CommandFactory> {
             enabled: (ctx) => async () => {
                 // FIXME: We should re-use the client, that is ctx.deactivate() if none of the configs have changed
                 await ctx.stopAndDispose();
-                ctx.setServerStatus({
-                    health: "stopped",
-                });
             },
-            disabled: (_) => async () => {
+            disabled: (ctx) => async () => {
+                // there may be a start under way
+                await ctx.stopAndDispose();
             },
         },
 
-- 
2.43.0


From 9b04dce9a9fc4095134d4d20c4c5438dd3e24327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 32/42] fix: an answer that is overtaken does not replace a
 later syntax tree

---
 editors/code/src/syntax_tree_provider.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/editors/code/src/syntax_tree_provider.ts b/editors/code/src/syntax_tree_provider.ts
index a506893..95ba9ef 100644
--- a/editors/code/src/syntax_tree_provider.ts
+++ b/editors/code/src/syntax_tree_provider.ts
@@ -20,6 +20,7 @@ export class SyntaxTreeProvider implements vscode.TreeDataProvider<SyntaxElement
     ctx: CtxInit;
     root: SyntaxNode | undefined;
     hideWhitespace: boolean = false;
+    private lastRefresh: number = 0;
 
     constructor(ctx: CtxInit) {
         this.ctx = ctx;
@@ -73,10 +74,15 @@ export class SyntaxTreeProvider implements vscode.TreeDataProvider<SyntaxElement
     }
 
     async refresh(): Promise<void> {
+        const refresh = ++this.lastRefresh;
         const editor = vscode.window.activeTextEditor;
         if (editor && isAptosEditor(editor)) {
             const params = {textDocument: {uri: editor.document.uri.toString()}, range: null};
             const fileText = await this.ctx.client.sendRequest(lsp_ext.viewSyntaxTree, params);
+            if (refresh !== this.lastRefresh) {
+                // an answer to a later refresh shows a later state
+                return;
+            }
             this.root = JSON.parse(fileText, (_key, value: RawElement): SyntaxElement => {
                 if (value.type !== "Node" && value.type !== "Token") {
                     // This is something other than a RawElement.
-- 
2.43.0


From 0d9a3479e549446d582e84ff56e489e35f2340eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 33/42] fix: organizing imports does not apply edits to a
 document that changed meanwhile

---
 editors/code/src/commands.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/editors/code/src/commands.ts b/editors/code/src/commands.ts
index befa73f..442a1ef 100644
--- a/editors/code/src/commands.ts
+++ b/editors/code/src/commands.ts
@@ -327,12 +327,17 @@ export function organizeImports(ctx: CtxInit): Cmd {
         if (!editor) return;
         const client = ctx.client;
 
+        const version = editor.document.version;
         const lcEdits = await client.sendRequest(lsp_ext.organizeImports, {
             textDocument: client.code2ProtocolConverter.asTextDocumentIdentifier(editor.document),
         });
         if (!lcEdits) return;
 
         const edits = await client.protocol2CodeConverter.asTextEdits(lcEdits);
+        if (editor.document.version !== version) {
+            // the edits are for another text
+            return;
+        }
         await applyTextEdits(editor, edits);
     };
 }
-- 
2.43.0


From 4a5bfc92383c571dd841700329d4674c85c7ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 34/42] fix: a late version answer of a replaced server is not
 shown for its successor

---
 editors/code/src/ctx.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/editors/code/src/ctx.ts b/editors/code/src/ctx.ts
index 4234298..0507521 100644
--- a/editors/code/src/ctx.ts
+++ b/editors/code/src/ctx.ts
@@ -182,9 +182,12 @@ export class Ctx {
         }
 
         if (!this._client) {
-            this._serverPath = await this.bootstrap();
-            text(spawn(this._serverPath, ["--version"]).stdout.setEncoding("utf-8")).then(
+            const serverPath = await this.bootstrap();
+            this._serverPath = serverPath;
+            text(spawn(serverPath, ["--version"]).stdout.setEncoding("utf-8")).then(
                 (data) => {
+                    // the answer of a server which has been replaced meanwhile
+                    if (this._serverPath !== serverPath) return;
                     const prefix = `aptos-language-server `;
                     this._serverVersion = data
                         .slice(data.startsWith(prefix) ? prefix.length : 0)
@@ -192,13 +195,14 @@ export class Ctx {
                     this.refreshServerStatus();
                 },
                 (_) => {
+                    if (this._serverPath !== serverPath) return;
                     this._serverVersion = "<unknown>";
                     this.refreshServerStatus();
                 },
             );
             const newEnv = Object.assign({}, process.env, this.config.serverExtraEnv);
             const run: lc.Executable = {
-                command: this._serverPath,
+                command: serverPath,
                 args: ["lsp-server"],
                 options: { env: newEnv },
             };
-- 
2.43.0


From ba9c372e7fdd1ee418f1f9504451a43292717254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 35/42] fix: a response nobody asked for does not end the
 server

---
 crates/aptos-language-server/src/global_state.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index 01b4559..6377d23 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -210,11 +210,10 @@ impl GlobalState {
     }
 
     pub(crate) fn complete_request(&mut self, response: lsp_server::Response) {
-        let handler = self
-            .req_queue
-            .outgoing
-            .complete(response.id.clone())
-            .expect("received response for unknown request");
+        let Some(handler) = self.req_queue.outgoing.complete(response.id.clone()) else {
+            tracing::error!("received response for unknown request: {:?}", response.id);
+            return;
+        };
         handler(self, response)
     }
 
-- 
2.43.0


From 0f08e1cda6b61fb5d6e329c3a1bcded33b6347a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 36/42] fix: temporary files of the batch check do not replace
 existing ones

---
 crates/aptos-language-server/src/cli/utils.rs | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 908298b..887a2a0 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -7,8 +7,9 @@ use ide_db::assists::Assist;
 use paths::AbsPathBuf;
 use project_model::DiscoveredManifest;
 use project_model::aptos_package::load_from_fs;
-use std::fs;
-use std::path::PathBuf;
+use std::fs::{self, File};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use stdext::line_endings::LineEndings;
 use syntax::TextRange;
@@ -103,13 +104,13 @@ pub(crate) fn write_file_text(
 }
 
 /// Replaces the file as a whole, so failed or interrupted write could not damage the sources.
-fn replace_file_contents(file_path: &AbsPathBuf, contents: &str) -> std::io::Result<()> {
+fn replace_file_contents(file_path: &AbsPathBuf, contents: &str) -> io::Result<()> {
     // write through the symlinks
     let file_path = fs::canonicalize(file_path)?;
-    let mut tmp_path = file_path.clone().into_os_string();
-    tmp_path.push(".tmp");
+    let (tmp_path, mut tmp_file) = create_tmp_file(&file_path)?;
 
-    let res = fs::write(&tmp_path, contents)
+    let res = tmp_file
+        .write_all(contents.as_bytes())
         .and_then(|_| fs::set_permissions(&tmp_path, fs::metadata(&file_path)?.permissions()))
         .and_then(|_| fs::rename(&tmp_path, &file_path));
     if res.is_err() {
@@ -118,6 +119,19 @@ fn replace_file_contents(file_path: &AbsPathBuf, contents: &str) -> std::io::Res
     res
 }
 
+/// Creates a new file next to the `file_path`, never reuses the existing one.
+fn create_tmp_file(file_path: &Path) -> io::Result<(PathBuf, File)> {
+    let mut n = 0;
+    loop {
+        let mut tmp_path = file_path.to_path_buf().into_os_string();
+        tmp_path.push(format!(".{n}.tmp"));
+        match File::create_new(&tmp_path) {
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => n += 1,
+            res => return Ok((tmp_path.into(), res?)),
+        }
+    }
+}
+
 pub(super) struct CmdPath {
     path: Utf8PathBuf,
 }
-- 
2.43.0


From f57993d0ce005744d65e517a6aa273fdeb49c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 37/42] fix: fixed files reach the disk before they replace the
 previous ones

---
 crates/aptos-language-server/src/cli/utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 887a2a0..34dc7c2 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -111,6 +111,7 @@ fn replace_file_contents(file_path: &AbsPathBuf, contents: &str) -> io::Result<(
 
     let res = tmp_file
         .write_all(contents.as_bytes())
+        .and_then(|_| tmp_file.sync_all())
         .and_then(|_| fs::set_permissions(&tmp_path, fs::metadata(&file_path)?.permissions()))
         .and_then(|_| fs::rename(&tmp_path, &file_path));
     if res.is_err() {
-- 
2.43.0


From 0a3e0c7e352c5490b61fce0e0fa98e853710a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 38/42] fix: completions are plain text for clients without
 snippets

---
 crates/aptos-language-server/src/lsp/to_proto.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/aptos-language-server/src/lsp/to_proto.rs b/crates/aptos-language-server/src/lsp/to_proto.rs
index 3399411..d59e1f0 100644
--- a/crates/aptos-language-server/src/lsp/to_proto.rs
+++ b/crates/aptos-language-server/src/lsp/to_proto.rs
@@ -423,17 +423,23 @@ fn completion_item(
     let mut text_edit = None;
     let mut additional_text_edits = Vec::new();
     let ident_range = item.source_range;
+    let use_snippets = config.completion_snippet();
     for text_change in &item.text_edit {
+        let mut text_change = text_change.clone();
+        if item.is_snippet && !use_snippets {
+            // there's no cursor placement without the snippets
+            text_change.new_text = text_change.new_text.replace("$0", "");
+        }
         // if text change does not affect the ident itself, put it into the `additional_text_edits`
         if !text_change.range.contains_range(ident_range) {
             assert!(ident_range.intersect(text_change.range).is_none());
-            let text_edit = lsp_text_edit(line_index, text_change.clone());
+            let text_edit = lsp_text_edit(line_index, text_change);
             additional_text_edits.push(text_edit);
             continue;
         }
 
         if text_change.range == ident_range {
-            let edit = lsp_completion_text_edit(line_index, insert_replace_at, text_change.clone());
+            let edit = lsp_completion_text_edit(line_index, insert_replace_at, text_change);
             text_edit = Some(edit);
             continue;
         }
@@ -441,11 +447,12 @@ fn completion_item(
         assert_eq!(ident_range.end(), text_change.range.end());
         let range1 = TextRange::new(text_change.range.start(), ident_range.start());
         let indel1 = TextChange::delete(range1);
-        let indel2 = TextChange::replace(ident_range, text_change.new_text.clone());
+        let indel2 = TextChange::replace(ident_range, text_change.new_text);
         additional_text_edits.push(lsp_text_edit(line_index, indel1));
         text_edit = Some(lsp_completion_text_edit(line_index, insert_replace_at, indel2));
     }
-    let insert_text_format = item.is_snippet.then_some(lsp_types::InsertTextFormat::Snippet);
+    let insert_text_format =
+        (item.is_snippet && use_snippets).then_some(lsp_types::InsertTextFormat::Snippet);
 
     let mut lsp_item = lsp_types::CompletionItem {
         label: item.label.primary.to_string(),
-- 
2.43.0


From 40799ccf6cc6015554355f156969d9d6eacff63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 39/42] fix: edits are sent without versions to clients which
 know only those

---
 .../aptos-language-server/src/lsp/capabilities.rs  | 12 ++++++++++++
 crates/aptos-language-server/src/lsp/to_proto.rs   | 14 ++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/crates/aptos-language-server/src/lsp/capabilities.rs b/crates/aptos-language-server/src/lsp/capabilities.rs
index 65acbc1..edf64fc 100644
--- a/crates/aptos-language-server/src/lsp/capabilities.rs
+++ b/crates/aptos-language-server/src/lsp/capabilities.rs
@@ -287,6 +287,18 @@ impl ClientCapabilities {
         PositionEncoding::Wide(WideEncoding::Utf16)
     }
 
+    pub fn document_changes(&self) -> bool {
+        (|| -> _ {
+            self.0
+                .workspace
+                .as_ref()?
+                .workspace_edit
+                .as_ref()?
+                .document_changes
+        })()
+        .unwrap_or_default()
+    }
+
     pub fn workspace_edit_resource_operations(&self) -> Option<&[lsp_types::ResourceOperationKind]> {
         self.0
             .workspace
diff --git a/crates/aptos-language-server/src/lsp/to_proto.rs b/crates/aptos-language-server/src/lsp/to_proto.rs
index d59e1f0..0429b2c 100644
--- a/crates/aptos-language-server/src/lsp/to_proto.rs
+++ b/crates/aptos-language-server/src/lsp/to_proto.rs
@@ -27,6 +27,7 @@ use ide_db::text_edit::{TextChange, TextEdit};
 use ide_db::{Severity, SymbolKind};
 use line_index::{TextRange, TextSize};
 use lsp_types::{Edit, TextDocumentIdentifier};
+use std::collections::HashMap;
 use std::hash::{DefaultHasher, Hasher};
 use std::mem;
 use std::ops::Not;
@@ -591,6 +592,19 @@ pub(crate) fn workspace_edit(
             document_changes.extend_from_slice(&ops);
         }
     }
+    if document_changes.is_empty() && !snap.config.document_changes() {
+        // client only knows about the plain edits
+        let mut changes = HashMap::new();
+        for (file_id, edit) in source_change.source_file_edits {
+            let line_index = snap.file_line_index(file_id)?;
+            changes.insert(url(snap, file_id), text_edit_vec(&line_index, edit));
+        }
+        return Ok(lsp_types::WorkspaceEdit {
+            changes: Some(changes),
+            document_changes: None,
+            change_annotations: None,
+        });
+    }
     for (file_id, edit) in source_change.source_file_edits {
         let edit = text_document_edit(snap, file_id, edit)?;
         document_changes.push(lsp_types::DocumentChange::TextDocumentEdit(edit));
-- 
2.43.0


From 8d04e9d2b1f3071436018679049e48554b82d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 40/42] fix: server watches the manifests which cannot be
 loaded

---
 crates/aptos-language-server/src/reload.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 49c5591..08b87c0 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -174,27 +174,29 @@ impl GlobalState {
         let switching_from_empty_workspace = self.all_packages.is_empty();
         tracing::info!(%switching_from_empty_workspace, %force_reload_package_deps);
 
+        let invalid_manifests = packages_from_fs.invalid_manifests();
+        let mut packages_from_fs = packages_from_fs.valid_packages();
+        let force_reload_package_deps = *force_reload_package_deps;
+
         if self.is_package_loading_error() {
             // tracing::info!(%load_packages_error);
             // already have a workspace, let's keep it instead of loading invalid state
             if !switching_from_empty_workspace {
-                if *force_reload_package_deps {
+                if force_reload_package_deps {
                     self.recreate_package_graph(
                         format!("fetch packages error while handling {:?}", cause),
                         // switching_from_empty_workspace,
                     );
                 }
+                packages_from_fs = self.all_packages.to_vec();
                 // manifest with an error could be a new one
                 if matches!(self.config.files().watcher, FilesWatcher::Client) {
-                    let packages = self.all_packages.clone();
-                    self.setup_client_file_watchers(&packages);
+                    self.setup_client_file_watchers(&packages_from_fs);
+                    return;
                 }
-                return;
             }
         }
 
-        let invalid_manifests = packages_from_fs.invalid_manifests();
-        let packages_from_fs = packages_from_fs.valid_packages();
         tracing::info!(
             "switch to packages: {:#?}",
             packages_from_fs
-- 
2.43.0


From ba29d32d9d958100e5282de70695d34365b7ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 41/42] fix: documents which are not files do not replace the
 files at their paths

---
 crates/aptos-language-server/src/lsp/from_proto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/aptos-language-server/src/lsp/from_proto.rs b/crates/aptos-language-server/src/lsp/from_proto.rs
index d14b4d5..9bc336b 100644
--- a/crates/aptos-language-server/src/lsp/from_proto.rs
+++ b/crates/aptos-language-server/src/lsp/from_proto.rs
@@ -16,6 +16,10 @@ use syntax::files::{FilePosition, FileRange};
 use vfs::{AbsPathBuf, FileId};
 
 pub(crate) fn abs_path(url: &lsp_types::Uri) -> anyhow::Result<AbsPathBuf> {
+    // other documents can have paths too, those are not the files at these paths
+    if url.scheme() != "file" {
+        return Err(format_err!("url is not a file"));
+    }
     let path = url
         .to_file_path()
         .map_err(|()| format_err!("url is not a file"))?;
-- 
2.43.0


From d554b5a37e3a4ed05c1d82a3eb1da9b8bef741c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 42/42] fix: files of removed packages are read again when they
 are added back

---
 crates/aptos-language-server/src/main_loop.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/main_loop.rs b/crates/aptos-language-server/src/main_loop.rs
index db756af..d21a514 100644
--- a/crates/aptos-language-server/src/main_loop.rs
+++ b/crates/aptos-language-server/src/main_loop.rs
@@ -421,13 +421,21 @@ impl GlobalState {
     /// Scanning does not report the files which were removed while they were not watched.
     fn invalidate_missing_files(&mut self) {
         let scanned_files = mem::take(&mut self.vfs_scanned_files);
+        let mut unwatched_files = vec![];
         for (_, vfs_path) in self.vfs.read().0.iter() {
             let Some(path) = vfs_path.as_path() else { continue };
+            if scanned_files.contains(path) || self.opened_files.contains(vfs_path) {
+                continue;
+            }
             let is_package_file = self.all_packages.iter().any(|it| path.starts_with(it.content_root()));
-            if is_package_file && !scanned_files.contains(path) && !self.opened_files.contains(vfs_path) {
+            if is_package_file {
                 self.vfs_loader.handle.invalidate(path.to_path_buf());
+            } else {
+                unwatched_files.push((path.to_path_buf(), None));
             }
         }
+        // not updated anymore, should be seen as new if they are scanned again
+        self.load_files_into_vfs(unwatched_files);
     }
 
     fn load_files_into_vfs(&mut self, files: Vec<(AbsPathBuf, Option<Vec<u8>>)>) {
-- 
2.43.0

