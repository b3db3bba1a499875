From c99692fb752b8f7c1e210b5f7aadd543714309bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:48 +0000
Subject: [PATCH 01/34] fix: save state files atomically

A crash or a full disk while writing rrdp-state.json or rsync-state.json
left a truncated file, and every later run then failed to recover it.
---
 src/file_ops.rs | 21 +++++++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..96d5003 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -16,6 +16,27 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Save the buffer to the file by way of a temporary file in the same directory, so that
+/// the file is either not changed at all, or holds the complete new content.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let mut tmp_name = file_path
+        .file_name()
+        .ok_or_else(|| anyhow!("No file name in path {}", file_path.display()))?
+        .to_os_string();
+    tmp_name.push(".tmp");
+    let tmp_path = file_path.with_file_name(tmp_name);
+
+    write_buf(&tmp_path, buf)?;
+
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Could not rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..e23577d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -406,7 +406,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..da8d979 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From a2119b932459a4597f7c2a7b395688352f94d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 02/34] fix: never write into an rsync directory that may be
 served

The content of a new revision was written straight to its final directory.
If that revision was written before, e.g. by a run that failed after it had
switched 'current', then files were truncated and rewritten while they were
served, and objects of an incomplete earlier attempt stayed around.
---
 src/rsync.rs | 63 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index da8d979..2476c46 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -38,12 +38,11 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
 
     let new_revision = RsyncRevision { session_id, serial };
 
-    let mut writer = RsyncFromSnapshotWriter {
-        out_path: new_revision.path(config),
-        include_host_and_module: config.rsync_include_host,
-    };
-    writer.create_out_path_if_missing()?;
-    writer.for_snapshot_path(&snapshot_path)?;
+    // If we have a directory for this revision that is, or was, served - e.g. because a
+    // previous run failed after switching to it - then it is complete, and must not be touched.
+    if !rsync_state.is_in_use(&new_revision, config) {
+        write_new_revision_dir(&new_revision, &snapshot_path, config)?;
+    }
 
     if config.rsync_dir_use_symlinks() {
         symlink_current_to_new_revision_dir(&new_revision, config)?;
@@ -59,6 +58,45 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     Ok(())
 }
 
+/// Write the content to a temporary directory first, so that a run that fails does not leave
+/// an incomplete directory for the revision.
+fn write_new_revision_dir(
+    new_revision: &RsyncRevision,
+    snapshot_path: &Path,
+    config: &Config,
+) -> Result<()> {
+    let final_path = new_revision.path(config);
+    let tmp_path = config
+        .rsync_dir
+        .join(format!("new.{}", config::TMP_FILE_EXT));
+
+    remove_dir_if_exists(&tmp_path)?;
+
+    let mut writer = RsyncFromSnapshotWriter {
+        out_path: tmp_path.clone(),
+        include_host_and_module: config.rsync_include_host,
+    };
+    writer.create_out_path_if_missing()?;
+    writer.for_snapshot_path(snapshot_path)?;
+
+    remove_dir_if_exists(&final_path)?;
+    std::fs::rename(&tmp_path, &final_path).with_context(|| {
+        format!(
+            "Could not rename new rsync dir from '{}' to '{}'",
+            tmp_path.display(),
+            final_path.display()
+        )
+    })
+}
+
+fn remove_dir_if_exists(path: &Path) -> Result<()> {
+    if path.exists() {
+        std::fs::remove_dir_all(path)
+            .with_context(|| format!("Could not remove lingering dir '{}'", path.display()))?;
+    }
+    Ok(())
+}
+
 /// Create a new symlink then rename it. We need to do this because the std library
 /// refuses to overwrite an existing symlink. And if we were to remove it first, then
 /// we would introduce a race condition for clients accessing.
@@ -183,6 +221,19 @@ impl RsyncDirState {
             .with_context(|| "Could not save state.")
     }
 
+    /// Returns true if there is a directory for this revision which is, or recently
+    /// was, the current directory.
+    fn is_in_use(&self, revision: &RsyncRevision, config: &Config) -> bool {
+        let is_link_target = std::fs::read_link(config.rsync_dir_current())
+            .map(|target| target == Path::new(&revision.dir_name()))
+            .unwrap_or(false);
+
+        let is_known = self.current.as_ref() == Some(revision)
+            || self.old.iter().any(|old| &old.revision == revision);
+
+        (is_link_target || is_known) && revision.path(config).is_dir()
+    }
+
     /// Updates the current revision for this state, moves a possible
     /// existing current state to old.
     fn update_current(&mut self, current: RsyncRevision) {
-- 
2.43.0


From a2cc3b0aa730c22dd22a35045a92c4682abd92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 03/34] fix: do not clean up the rsync directory that became
 current again

If the same revision was processed again after a failed run, or if the
repository went back to a previous session, then the current revision
was also on the list of old revisions and its directory was removed after
the clean-up time while 'current' still pointed to it.
---
 src/rsync.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rsync.rs b/src/rsync.rs
index 2476c46..b2471d4 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -237,6 +237,12 @@ impl RsyncDirState {
     /// Updates the current revision for this state, moves a possible
     /// existing current state to old.
     fn update_current(&mut self, current: RsyncRevision) {
+        // The new current revision must never be cleaned, also if it was current earlier.
+        self.old.retain(|old| old.revision != current);
+        if self.current.as_ref() == Some(&current) {
+            return;
+        }
+
         let existing = std::mem::replace(&mut self.current, Some(current));
         if let Some(existing) = existing {
             self.old.push(existing.deprecate());
-- 
2.43.0


From eeae5851d96697df13458bb0f34bb14384119598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 04/34] fix: clean up files only after the new notification
 file is in place

Superseded files were deprecated, and files deprecated long enough ago were
removed, before the new notification file was written. With a short clean-up
time, or a long notify delay, files were removed that the published
notification file still referenced, or stopped to reference just now.
---
 src/process.rs | 13 ++++++++++---
 src/rrdp.rs    | 34 +++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..c23a5fd 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -103,10 +103,7 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     //
     // - updates the RrdpState with new content,
-    // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -141,6 +138,16 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Deprecate old files, and clean up
+    // ===================================================================
+    //
+    // The time after which files can be removed starts when the new
+    // notification file is in place, and until then all files that are
+    // referenced by the previous notification file are still needed.
+    rrdp_state.deprecate_superseded();
+    rrdp_state.clean(config)?;
+
     // ===================================================================
     // Persist state
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index e23577d..582621a 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -38,6 +38,10 @@ pub struct RrdpState {
     /// Deprecated files - which may be cleaned up after some time
     deprecated_files: Vec<DeprecatedFile>,
 
+    /// Files that will be deprecated when the new notification file is in place
+    #[serde(skip)]
+    superseded_files: Vec<PathBuf>,
+
     /// Embedded validator
     #[serde(skip_serializing_if = "Option::is_none")]
     validator: Option<Validator>,
@@ -57,6 +61,7 @@ impl RrdpState {
             snapshot: None,
             deltas: vec![],
             deprecated_files: vec![],
+            superseded_files: vec![],
             validator: None,
         })
     }
@@ -326,10 +331,9 @@ impl RrdpState {
     /// Apply staged changes.
     ///
     /// - updates the RrdpState with new content
-    /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
+    /// - remember old files, to be deprecated when the new notification
+    ///   file is in place
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -349,9 +353,9 @@ impl RrdpState {
             file_ops::move_file(&staging_base_dir, target_base_dir, delta.rel_path())?;
         }
 
-        // deprecate old snapshot if it is present
+        // old snapshot, if it is present, will be deprecated
         if let Some(old_path) = self.snapshot_path() {
-            self.deprecated_files.push(DeprecatedFile::new(old_path));
+            self.superseded_files.push(old_path);
         }
 
         // update snapshot info
@@ -369,13 +373,17 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
+    /// Deprecates the files that are no longer referenced. Must only be called when
+    /// the new notification file is in place.
+    pub fn deprecate_superseded(&mut self) {
+        for path in std::mem::take(&mut self.superseded_files) {
+            self.deprecated_files.push(DeprecatedFile::new(path));
+        }
+    }
+
     /// Cleans deprecated files and their parent directories if they are empty
     pub fn clean(&mut self, config: &Config) -> Result<()> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
@@ -558,7 +566,7 @@ impl RrdpState {
         Ok(new_deltas)
     }
 
-    /// Remove deltas before the given serial and put them on the deprecated file list.
+    /// Remove deltas before the given serial and put them on the superseded file list.
     ///
     /// Notes:
     /// - This may be a no-op in case all current deltas are still relevant. In that
@@ -571,16 +579,16 @@ impl RrdpState {
             let deltas: Vec<DeltaState> = self.deltas.drain(cut_off_idx..).collect();
             for delta in deltas {
                 let path = self.mappings.path(delta.rel_path());
-                self.deprecated_files.push(DeprecatedFile::new(path));
+                self.superseded_files.push(path);
             }
         }
     }
 
-    /// Remove all deltas put them on the deprecated file list.
+    /// Remove all deltas put them on the superseded file list.
     fn deltas_deprecate_all(&mut self) {
         for delta in &self.deltas {
             let path = self.mappings.path(delta.rel_path());
-            self.deprecated_files.push(DeprecatedFile::new(path));
+            self.superseded_files.push(path);
         }
 
         self.deltas = vec![];
-- 
2.43.0


From 298eb6c5f8e71139e0aaa330a06087971a2b50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 05/34] fix: do not clean up files that are referenced again

A file that was deprecated, and then listed by the source again, stayed on
the list of deprecated files and was removed after the clean-up time.
---
 src/rrdp.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 582621a..d8d332d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs,
     path::{Path, PathBuf},
 };
@@ -382,6 +383,18 @@ impl RrdpState {
         for path in std::mem::take(&mut self.superseded_files) {
             self.deprecated_files.push(DeprecatedFile::new(path));
         }
+
+        // Files that are referenced now can not be deprecated. This happens if the
+        // source lists files again which it did not list before, or which it listed
+        // for an earlier session.
+        let referenced: HashSet<PathBuf> = self
+            .snapshot_path()
+            .into_iter()
+            .chain(self.deltas.iter().map(|d| self.mappings.path(d.rel_path())))
+            .collect();
+
+        self.deprecated_files
+            .retain(|d| !referenced.contains(&d.path));
     }
 
     /// Cleans deprecated files and their parent directories if they are empty
-- 
2.43.0


From a2cf2f63a195df2a74e93e0327b71a8b3e8e9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 06/34] fix: refuse notification files with deltas that do not
 end at its serial

Such a gap between the last delta and the serial was not noticed, so clients
applying the published deltas would not arrive at the published serial.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index d8d332d..9fa56af 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -113,6 +113,16 @@ impl RrdpState {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
+                if let Some(last) = notification_file.deltas().last() {
+                    if last.serial() != notification_file.serial() {
+                        return Err(anyhow!(
+                            "Notification file has serial '{}' but its last delta is for serial '{}'",
+                            notification_file.serial(),
+                            last.serial()
+                        ));
+                    }
+                }
+
                 let mut session_reset = false;
 
                 if let Some(snapshot) = &self.snapshot {
-- 
2.43.0


From c7675ff196a569e84a69f600033afc5083c7ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 07/34] fix: accept 0 for --rrdp-max-deltas

This made krill-sync panic whenever the source had any deltas.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 9fa56af..ab4ffd1 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -109,6 +109,16 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
+                if limit == Some(0) {
+                    // no deltas wanted at all
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                }
+
                 if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
-- 
2.43.0


From a1227d804f180874b9bcea78a63275fc1327ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 08/34] fix: do not let URIs lead outside of the configured
 directories

Dot segments in the URIs of snapshots and deltas, or in the host or module
name of rsync URIs, could make krill-sync read and write files outside of
the configured directories. A snapshot or delta could also replace the
notification file.
---
 src/fetch.rs | 17 ++++++++++++++++-
 src/rrdp.rs  | 39 ++++++++++++++++++++++++++-------------
 src/rsync.rs |  8 +++++++-
 3 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..12c5099 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -257,9 +257,24 @@ impl FetchMap {
                 uri,
                 base_uri
             )),
-            Some(rel) => self.base_fetch.join(rel),
+            Some(rel) => {
+                check_relative_path(rel)?;
+                self.base_fetch.join(rel)
+            }
+        }
+    }
+}
+
+/// Checks that a path, derived from an untrusted URI, stays below the base it is relative to.
+pub fn check_relative_path(rel: &str) -> Result<()> {
+    for segment in rel.split('/') {
+        // percent encoded dots are equivalent to dots in URIs
+        match segment.to_ascii_lowercase().replace("%2e", ".").as_str() {
+            "" | "." | ".." => return Err(anyhow!("Illegal relative path: '{}'", rel)),
+            _ => {}
         }
     }
+    Ok(())
 }
 
 //------------ Fetcher -------------------------------------------------------
diff --git a/src/rrdp.rs b/src/rrdp.rs
index ab4ffd1..4ab89f2 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -16,7 +16,9 @@ use rpki::{
 
 use crate::{
     config::Config,
-    fetch::{FetchMap, FetchMode, FetchSource, Fetcher, NotificationFileResponse},
+    fetch::{
+        check_relative_path, FetchMap, FetchMode, FetchSource, Fetcher, NotificationFileResponse,
+    },
     file_ops,
     util::{self, Time},
     validation::{Tal, UriString, Validator},
@@ -531,12 +533,10 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
-        let target = config.staging_path(&relative_name);
+        let rel_path = self.relative_path(snapshot_info.uri())?;
+        let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
-        let rel_path = self.mappings.relative(snapshot_info.uri())?;
-
         Ok(SnapshotState::create(
             notification.session_id(),
             notification.serial(),
@@ -545,6 +545,18 @@ impl RrdpState {
         ))
     }
 
+    /// Derives the relative path for a snapshot or delta file. These must not replace
+    /// the notification file.
+    fn relative_path(&self, uri: &Https) -> Result<String> {
+        let rel_path = self.mappings.relative(uri)?;
+        if rel_path == self.notification_source.name()
+            || rel_path == self.notification_source.tmp_name()
+        {
+            return Err(anyhow!("Uri {} would replace the notification file", uri));
+        }
+        Ok(rel_path)
+    }
+
     pub fn snapshot_path(&self) -> Option<PathBuf> {
         self.snapshot
             .as_ref()
@@ -585,13 +597,11 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
-                let target = config.staging_path(&relative_path);
+                let rel_path = self.relative_path(uri)?;
+                let target = config.staging_path(&rel_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
-                let rel_path = self.mappings.relative(uri)?;
-
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
         }
@@ -698,12 +708,15 @@ impl SourceMappings {
     }
 
     /// Derives the relative path of the given URI versus the base URI.
-    /// Returns an error in case the URI is not relative to the base URI.
+    /// Returns an error in case the URI is not relative to the base URI, or
+    /// would not stay below it.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let rel_path = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+        check_relative_path(rel_path)?;
+        Ok(rel_path.to_string())
     }
 
     /// Resolve the given relative path under the base URI.
diff --git a/src/rsync.rs b/src/rsync.rs
index b2471d4..17472cb 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -361,6 +361,12 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
         let path = if self.include_host_and_module {
+            // Unlike the path, these may be dot segments in an rsync URI.
+            for segment in [uri.authority(), uri.module_name()] {
+                if segment == "." || segment == ".." {
+                    return Err(anyhow!("Illegal host or module name in uri: {}", uri));
+                }
+            }
             self.out_path.join(format!(
                 "{}/{}/{}",
                 uri.authority(),
-- 
2.43.0


From 3c91b83ccd0430f98007916a8335435c6dd09c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 09/34] fix: never overwrite a file in the RRDP directory in
 place

If the staging directory is on another mount point then files were copied
over existing files, so that readers could see partial content.
---
 src/file_ops.rs | 20 +++++++++++++++++---
 src/rrdp.rs     |  3 ++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 96d5003..08e5dcf 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -8,6 +8,10 @@ use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
 use log::trace;
 
+/// Name of the temporary file, below the target base dir, that is used to move files between
+/// different mount points.
+pub const MOVE_TMP_FILE: &str = "krill-sync-move.tmp";
+
 pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     create_file(file_path)?
         .write_all(buf)
@@ -76,12 +80,22 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
+        // Move failed. Try to copy and delete instead. Copy to a temporary file
+        // first, because the target file may exist and be in use.
+        let tmp_file = target_base_dir.join(MOVE_TMP_FILE);
+        std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
                 "Cannot copy file from {} to {}",
                 original_file.to_string_lossy(),
-                target_file.to_string_lossy()
+                tmp_file.to_string_lossy()
+            )
+        })?;
+
+        std::fs::rename(&tmp_file, &target_file).with_context(|| {
+            format!(
+                "Could not rename {} to {}",
+                tmp_file.display(),
+                target_file.display()
             )
         })?;
 
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 4ab89f2..c14f02e 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -546,11 +546,12 @@ impl RrdpState {
     }
 
     /// Derives the relative path for a snapshot or delta file. These must not replace
-    /// the notification file.
+    /// the notification file, or use the name of a temporary file.
     fn relative_path(&self, uri: &Https) -> Result<String> {
         let rel_path = self.mappings.relative(uri)?;
         if rel_path == self.notification_source.name()
             || rel_path == self.notification_source.tmp_name()
+            || rel_path == file_ops::MOVE_TMP_FILE
         {
             return Err(anyhow!("Uri {} would replace the notification file", uri));
         }
-- 
2.43.0


From 66c46f4890c7492b116f9b91418c5c872c2b072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 10/34] fix: keep track of the rsync directory if a run fails
 before saving state

If a run failed between switching the 'current' symlink and saving the rsync
state, then the directory that was being served was unknown to the next run,
which could then remove it, or its predecessor, before the clean-up time.
---
 src/rsync.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 17472cb..5a267f6 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -35,6 +35,7 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     let serial = snapshot.serial();
 
     let mut rsync_state = RsyncDirState::recover(config)?;
+    rsync_state.adopt_link_target(config);
 
     let new_revision = RsyncRevision { session_id, serial };
 
@@ -213,6 +214,18 @@ impl RsyncDirState {
         }
     }
 
+    /// If a previous run failed after it switched the 'current' symlink, but before it could
+    /// save the state, then the symlink is right and the state is not.
+    fn adopt_link_target(&mut self, config: &Config) {
+        let revision = std::fs::read_link(config.rsync_dir_current())
+            .ok()
+            .and_then(|target| RsyncRevision::from_dir_name(target.to_str()?));
+
+        if let Some(revision) = revision {
+            self.update_current(revision);
+        }
+    }
+
     /// Persists the state to disk
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
@@ -224,14 +237,10 @@ impl RsyncDirState {
     /// Returns true if there is a directory for this revision which is, or recently
     /// was, the current directory.
     fn is_in_use(&self, revision: &RsyncRevision, config: &Config) -> bool {
-        let is_link_target = std::fs::read_link(config.rsync_dir_current())
-            .map(|target| target == Path::new(&revision.dir_name()))
-            .unwrap_or(false);
-
         let is_known = self.current.as_ref() == Some(revision)
             || self.old.iter().any(|old| &old.revision == revision);
 
-        (is_link_target || is_known) && revision.path(config).is_dir()
+        is_known && revision.path(config).is_dir()
     }
 
     /// Updates the current revision for this state, moves a possible
@@ -298,6 +307,14 @@ impl RsyncRevision {
         format!("session_{}_serial_{}", self.session_id, self.serial)
     }
 
+    fn from_dir_name(name: &str) -> Option<Self> {
+        let (session_id, serial) = name.strip_prefix("session_")?.split_once("_serial_")?;
+        Some(RsyncRevision {
+            session_id: Uuid::parse_str(session_id).ok()?,
+            serial: serial.parse().ok()?,
+        })
+    }
+
     fn path(&self, config: &Config) -> PathBuf {
         config.rsync_dir.join(self.dir_name())
     }
-- 
2.43.0


From 04a3cc73867af3950fb3af4e8551332d5847672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 11/34] fix: keep track of published files if a run fails
 before saving state

If a run failed between publishing a new notification file and saving the
state, then later runs would use the state of the version before. They could
miss that the source went back to that version, or clean up files which the
published notification file references.
---
 src/process.rs |  4 +++-
 src/rrdp.rs    | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c23a5fd..557a294 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -15,7 +15,9 @@ pub fn process(config: &Config) -> Result<()> {
     //  - create a new state based on config
     // ===================================================================
     let mut rrdp_state = if config.rrdp_state_path().exists() {
-        RrdpState::recover(&config.rrdp_state_path())?
+        let mut rrdp_state = RrdpState::recover(&config.rrdp_state_path())?;
+        rrdp_state.adopt_published();
+        rrdp_state
     } else {
         RrdpState::create(config)?
     };
diff --git a/src/rrdp.rs b/src/rrdp.rs
index c14f02e..788d0d1 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -95,6 +95,53 @@ impl RrdpState {
         Ok(recovered)
     }
 
+    /// If a previous run failed after it published a new notification file, but before it
+    /// could save the state, then the notification file is right and the state is not.
+    pub fn adopt_published(&mut self) {
+        let path = self.mappings.path(self.notification_source.name());
+        let published = file_ops::read_file(&path)
+            .ok()
+            .and_then(|bytes| NotificationFile::parse(bytes.as_ref()).ok());
+
+        if let Some(published) = published {
+            let is_known = self.snapshot.as_ref().is_some_and(|known| {
+                known.session_id() == published.session_id() && known.serial() == published.serial()
+            });
+
+            if !is_known {
+                if let Ok((snapshot, deltas)) = self.published_files(&published) {
+                    self.superseded_files.extend(self.snapshot_path());
+                    self.deltas_deprecate_all();
+                    self.snapshot = Some(snapshot);
+                    self.deltas = deltas;
+                    self.deprecate_superseded();
+                }
+            }
+        }
+    }
+
+    /// Derives the state of the files referenced by a published notification file.
+    fn published_files(
+        &self,
+        published: &NotificationFile,
+    ) -> Result<(SnapshotState, Vec<DeltaState>)> {
+        let snapshot = SnapshotState::create(
+            published.session_id(),
+            published.serial(),
+            published.snapshot().hash(),
+            self.relative_path(published.snapshot().uri())?,
+        );
+
+        let mut deltas = vec![];
+        for delta in published.deltas() {
+            let rel_path = self.relative_path(delta.uri())?;
+            deltas.push(DeltaState::create(delta.serial(), delta.hash(), rel_path));
+        }
+        deltas.sort_by_key(|d| std::cmp::Reverse(d.serial()));
+
+        Ok((snapshot, deltas))
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
-- 
2.43.0


From 61388b4be83a5457456cbb6e973560eac17d47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 12/34] fix: bring rsync content up to date if it does not
 match the RRDP content

If a run failed after updating the rsync content, but before updating the
notification file, and the source then went back to the version that is
still published, then the rsync content was not updated.
---
 src/process.rs |  3 +++
 src/rsync.rs   | 27 ++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 557a294..ec14c33 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -36,6 +36,9 @@ pub fn process(config: &Config) -> Result<()> {
         Some(staged) => staged,
         None => {
             debug!("No changes in RRDP content found");
+            if config.rsync_enabled() && !rsync::is_up_to_date(&rrdp_state, config) {
+                rsync::update_from_rrdp_state(&rrdp_state, config)?;
+            }
             return Ok(());
         }
     };
diff --git a/src/rsync.rs b/src/rsync.rs
index 5a267f6..5d55772 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -59,6 +59,21 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     Ok(())
 }
 
+/// Returns true if the rsync content is for the current snapshot. This is not so in case a
+/// previous run failed after updating the rsync content, or if rsync was not enabled then.
+pub fn is_up_to_date(rrdp_state: &RrdpState, config: &Config) -> bool {
+    match rrdp_state.snapshot() {
+        Some(snapshot) if config.rsync_dir_use_symlinks() => {
+            let revision = RsyncRevision {
+                session_id: snapshot.session_id(),
+                serial: snapshot.serial(),
+            };
+            RsyncRevision::current(config).as_ref() == Some(&revision)
+        }
+        _ => true,
+    }
+}
+
 /// Write the content to a temporary directory first, so that a run that fails does not leave
 /// an incomplete directory for the revision.
 fn write_new_revision_dir(
@@ -217,11 +232,7 @@ impl RsyncDirState {
     /// If a previous run failed after it switched the 'current' symlink, but before it could
     /// save the state, then the symlink is right and the state is not.
     fn adopt_link_target(&mut self, config: &Config) {
-        let revision = std::fs::read_link(config.rsync_dir_current())
-            .ok()
-            .and_then(|target| RsyncRevision::from_dir_name(target.to_str()?));
-
-        if let Some(revision) = revision {
+        if let Some(revision) = RsyncRevision::current(config) {
             self.update_current(revision);
         }
     }
@@ -307,6 +318,12 @@ impl RsyncRevision {
         format!("session_{}_serial_{}", self.session_id, self.serial)
     }
 
+    /// The revision that the 'current' symlink points to.
+    fn current(config: &Config) -> Option<Self> {
+        let target = std::fs::read_link(config.rsync_dir_current()).ok()?;
+        Self::from_dir_name(target.to_str()?)
+    }
+
     fn from_dir_name(name: &str) -> Option<Self> {
         let (session_id, serial) = name.strip_prefix("session_")?.split_once("_serial_")?;
         Some(RsyncRevision {
-- 
2.43.0


From 0ef6beffce739b9e30740991abe52ba170f036ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 13/34] fix: use another rsync directory if the layout changes

A directory that is in use was kept as is when --rsync-include-host changed
for the same session and serial.
---
 src/rsync.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 5d55772..6a0c19b 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -37,7 +37,12 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     let mut rsync_state = RsyncDirState::recover(config)?;
     rsync_state.adopt_link_target(config);
 
-    let new_revision = RsyncRevision { session_id, serial };
+    let include_host = config.rsync_include_host;
+    let new_revision = RsyncRevision {
+        session_id,
+        serial,
+        include_host,
+    };
 
     // If we have a directory for this revision that is, or was, served - e.g. because a
     // previous run failed after switching to it - then it is complete, and must not be touched.
@@ -67,6 +72,7 @@ pub fn is_up_to_date(rrdp_state: &RrdpState, config: &Config) -> bool {
             let revision = RsyncRevision {
                 session_id: snapshot.session_id(),
                 serial: snapshot.serial(),
+                include_host: config.rsync_include_host,
             };
             RsyncRevision::current(config).as_ref() == Some(&revision)
         }
@@ -311,11 +317,23 @@ struct RsyncRevision {
     #[serde(deserialize_with = "util::de_uuid", serialize_with = "util::ser_uuid")]
     session_id: Uuid,
     serial: u64,
+    #[serde(default)]
+    include_host: bool, // the directory layout depends on this
 }
 
 impl RsyncRevision {
+    const INCLUDE_HOST_SUFFIX: &'static str = "_with_host";
+
     fn dir_name(&self) -> String {
-        format!("session_{}_serial_{}", self.session_id, self.serial)
+        let suffix = if self.include_host {
+            Self::INCLUDE_HOST_SUFFIX
+        } else {
+            ""
+        };
+        format!(
+            "session_{}_serial_{}{}",
+            self.session_id, self.serial, suffix
+        )
     }
 
     /// The revision that the 'current' symlink points to.
@@ -326,9 +344,14 @@ impl RsyncRevision {
 
     fn from_dir_name(name: &str) -> Option<Self> {
         let (session_id, serial) = name.strip_prefix("session_")?.split_once("_serial_")?;
+        let (serial, include_host) = match serial.strip_suffix(Self::INCLUDE_HOST_SUFFIX) {
+            Some(serial) => (serial, true),
+            None => (serial, false),
+        };
         Some(RsyncRevision {
             session_id: Uuid::parse_str(session_id).ok()?,
             serial: serial.parse().ok()?,
+            include_host,
         })
     }
 
-- 
2.43.0


From 4f4b1f67af9911e01574a24dde94b48428311e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 14/34] fix: follow changes of the notification URI and RRDP
 directory

---
 src/process.rs |  1 +
 src/rrdp.rs    | 61 ++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index ec14c33..60eea98 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -17,6 +17,7 @@ pub fn process(config: &Config) -> Result<()> {
     let mut rrdp_state = if config.rrdp_state_path().exists() {
         let mut rrdp_state = RrdpState::recover(&config.rrdp_state_path())?;
         rrdp_state.adopt_published();
+        rrdp_state.reconfigure(config)?;
         rrdp_state
     } else {
         RrdpState::create(config)?
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 788d0d1..6799216 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -10,7 +10,7 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo},
+    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo, UriAndHash},
     uri::Https,
 };
 
@@ -104,14 +104,18 @@ impl RrdpState {
             .and_then(|bytes| NotificationFile::parse(bytes.as_ref()).ok());
 
         if let Some(published) = published {
-            let is_known = self.snapshot.as_ref().is_some_and(|known| {
-                known.session_id() == published.session_id() && known.serial() == published.serial()
+            let is_known = self.make_notification_file().is_ok_and(|known| {
+                known.session_id() == published.session_id()
+                    && known.serial() == published.serial()
+                    && known.snapshot() == published.snapshot()
             });
 
             if !is_known {
+                self.superseded_files.extend(self.snapshot_path());
+                self.deltas_deprecate_all();
+                self.snapshot = None;
+
                 if let Ok((snapshot, deltas)) = self.published_files(&published) {
-                    self.superseded_files.extend(self.snapshot_path());
-                    self.deltas_deprecate_all();
                     self.snapshot = Some(snapshot);
                     self.deltas = deltas;
                     self.deprecate_superseded();
@@ -120,6 +124,35 @@ impl RrdpState {
         }
     }
 
+    /// The notification URI or RRDP directory may be changed by configuration. In that case
+    /// this state does not say what is published in the new location.
+    pub fn reconfigure(&mut self, config: &Config) -> Result<()> {
+        let notification_source = NotificationSource::build(config.notification_uri.clone())?;
+        let mappings = SourceMappings::build(config)?;
+
+        if notification_source.uri != self.notification_source.uri || mappings != self.mappings {
+            info!("The notification URI or RRDP directory was changed.");
+
+            if mappings.rrdp_dir == self.mappings.rrdp_dir {
+                // The files in the directory will be replaced. If that is another directory,
+                // then leave the old directory alone.
+                self.superseded_files
+                    .push(self.mappings.path(self.notification_source.name()));
+                self.superseded_files.extend(self.snapshot_path());
+                self.deltas_deprecate_all();
+            }
+
+            self.notification_source = notification_source;
+            self.mappings = mappings;
+            self.snapshot = None;
+            self.deltas = vec![];
+
+            self.adopt_published();
+        }
+
+        Ok(())
+    }
+
     /// Derives the state of the files referenced by a published notification file.
     fn published_files(
         &self,
@@ -129,12 +162,12 @@ impl RrdpState {
             published.session_id(),
             published.serial(),
             published.snapshot().hash(),
-            self.relative_path(published.snapshot().uri())?,
+            self.published_file(published.snapshot())?,
         );
 
         let mut deltas = vec![];
         for delta in published.deltas() {
-            let rel_path = self.relative_path(delta.uri())?;
+            let rel_path = self.published_file(delta)?;
             deltas.push(DeltaState::create(delta.serial(), delta.hash(), rel_path));
         }
         deltas.sort_by_key(|d| std::cmp::Reverse(d.serial()));
@@ -142,6 +175,19 @@ impl RrdpState {
         Ok((snapshot, deltas))
     }
 
+    /// Derives the relative path of a published file, which must be in place.
+    fn published_file(&self, info: &UriAndHash) -> Result<String> {
+        let rel_path = self.relative_path(info.uri())?;
+        if info
+            .hash()
+            .matches(&file_ops::read_file(&self.mappings.path(&rel_path))?)
+        {
+            Ok(rel_path)
+        } else {
+            Err(anyhow!("No published file for {}", info.uri()))
+        }
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
@@ -459,6 +505,7 @@ impl RrdpState {
         let referenced: HashSet<PathBuf> = self
             .snapshot_path()
             .into_iter()
+            .chain(Some(self.mappings.path(self.notification_source.name())))
             .chain(self.deltas.iter().map(|d| self.mappings.path(d.rel_path())))
             .collect();
 
-- 
2.43.0


From 2473c3081b6195b86cdd32e3c1899dea41d39175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 15/34] fix: parse snapshot and delta files before they are
 accepted

---
 src/rrdp.rs | 85 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 82 insertions(+), 3 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 6799216..d18c787 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::HashSet,
-    fs,
+    fs, io,
     path::{Path, PathBuf},
 };
 
@@ -10,8 +10,11 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo, UriAndHash},
-    uri::Https,
+    rrdp::{
+        self, DeltaInfo, Hash, NotificationFile, ObjectReader, ProcessDelta, ProcessSnapshot,
+        SnapshotInfo, UriAndHash,
+    },
+    uri::{Https, Rsync},
 };
 
 use crate::{
@@ -630,6 +633,9 @@ impl RrdpState {
         let rel_path = self.relative_path(snapshot_info.uri())?;
         let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
+        StagedContent::new(notification.session_id(), notification.serial())
+            .check_snapshot(&target)
+            .with_context(|| format!("Cannot parse snapshot: {}", snapshot_info.uri()))?;
 
         Ok(SnapshotState::create(
             notification.session_id(),
@@ -696,6 +702,9 @@ impl RrdpState {
                 let target = config.staging_path(&rel_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
+                StagedContent::new(notification.session_id(), serial)
+                    .check_delta(&target)
+                    .with_context(|| format!("Cannot parse delta: {uri}"))?;
 
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
@@ -924,6 +933,76 @@ pub struct StagedChanges {
     session_reset: bool, // implies that all current deltas are deprecated
 }
 
+/// Used to parse staged snapshot and delta files, and check that their content is
+/// for the session and serial given in the notification file.
+struct StagedContent {
+    session_id: Uuid,
+    serial: u64,
+}
+
+impl StagedContent {
+    fn new(session_id: Uuid, serial: u64) -> Self {
+        StagedContent { session_id, serial }
+    }
+
+    fn check_snapshot(&mut self, path: &Path) -> Result<()> {
+        let bytes = file_ops::read_file(path)?;
+        ProcessSnapshot::process(self, bytes.as_ref())
+    }
+
+    fn check_delta(&mut self, path: &Path) -> Result<()> {
+        let bytes = file_ops::read_file(path)?;
+        ProcessDelta::process(self, bytes.as_ref())
+    }
+
+    fn check_meta(&self, session_id: Uuid, serial: u64) -> Result<()> {
+        if session_id == self.session_id && serial == self.serial {
+            Ok(())
+        } else {
+            Err(anyhow!(
+                "Content is for session: {}, serial: {}, but expected session: {}, serial: {}",
+                session_id,
+                serial,
+                self.session_id,
+                self.serial
+            ))
+        }
+    }
+
+    fn check_object(&self, data: &mut ObjectReader) -> Result<()> {
+        io::copy(data, &mut io::sink())?;
+        Ok(())
+    }
+}
+
+impl ProcessSnapshot for StagedContent {
+    type Err = anyhow::Error;
+
+    fn meta(&mut self, session_id: Uuid, serial: u64) -> Result<()> {
+        self.check_meta(session_id, serial)
+    }
+
+    fn publish(&mut self, _uri: Rsync, data: &mut ObjectReader) -> Result<()> {
+        self.check_object(data)
+    }
+}
+
+impl ProcessDelta for StagedContent {
+    type Err = anyhow::Error;
+
+    fn meta(&mut self, session_id: Uuid, serial: u64) -> Result<()> {
+        self.check_meta(session_id, serial)
+    }
+
+    fn publish(&mut self, _uri: Rsync, _hash: Option<Hash>, data: &mut ObjectReader) -> Result<()> {
+        self.check_object(data)
+    }
+
+    fn withdraw(&mut self, _uri: Rsync, _hash: Hash) -> Result<()> {
+        Ok(())
+    }
+}
+
 /// Represents a staged RRDP file.
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct StagedFile {
-- 
2.43.0


From ef5bb86d04d13bdb75ba7ba1c756d24c74fb4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 16/34] fix: leftovers in the staging directory could make
 every later run fail

---
 src/file_ops.rs | 23 +++++++++++++++++++++++
 src/rrdp.rs     |  6 +++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 08e5dcf..2de08ce 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -63,6 +63,29 @@ pub fn create_path_for_file(file_path: &Path) -> Result<()> {
     })
 }
 
+/// Remove anything below the base dir that prevents that the relative file can be written
+/// there: a directory with its name, or a file with the name of one of its parents.
+pub fn clear_path_for_file(base_dir: &Path, relative: &str) -> Result<()> {
+    let file_path = base_dir.join(relative);
+
+    if file_path.is_dir() {
+        std::fs::remove_dir_all(&file_path)
+            .with_context(|| format!("Cannot remove dir {}", file_path.display()))?;
+    }
+
+    for parent in file_path.ancestors().skip(1) {
+        if parent == base_dir {
+            break;
+        }
+        if parent.is_file() {
+            std::fs::remove_file(parent)
+                .with_context(|| format!("Cannot remove file {}", parent.display()))?;
+        }
+    }
+
+    Ok(())
+}
+
 /// Tries to rename the relative file under the source dir to the target dir.
 /// Renaming will fail if those dirs are on different mount points. In that
 /// case we try to copy and delete instead.
diff --git a/src/rrdp.rs b/src/rrdp.rs
index d18c787..a14eef5 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -267,7 +267,9 @@ impl RrdpState {
                 // Save the notification file to the staging area so that it can
                 // be used for validation.
                 {
-                    let path = config.staging_path(self.notification_source.name());
+                    let name = self.notification_source.name();
+                    let path = config.staging_path(name);
+                    file_ops::clear_path_for_file(&config.staging_dir(), name)?;
                     let mut bytes: Vec<u8> = vec![];
                     notification_file.write_xml(&mut bytes)?;
 
@@ -632,6 +634,7 @@ impl RrdpState {
         let snapshot_info = notification.snapshot();
         let rel_path = self.relative_path(snapshot_info.uri())?;
         let target = config.staging_path(&rel_path);
+        file_ops::clear_path_for_file(&config.staging_dir(), &rel_path)?;
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
         StagedContent::new(notification.session_id(), notification.serial())
             .check_snapshot(&target)
@@ -701,6 +704,7 @@ impl RrdpState {
                 let rel_path = self.relative_path(uri)?;
                 let target = config.staging_path(&rel_path);
 
+                file_ops::clear_path_for_file(&config.staging_dir(), &rel_path)?;
                 fetcher.retrieve_file(uri, hash, &target)?;
                 StagedContent::new(notification.session_id(), serial)
                     .check_delta(&target)
-- 
2.43.0


From 36960f8001eddf389aacaa74cd727893036aedbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 17/34] fix: RRDP files can not be stored below the name of the
 notification file

---
 src/rrdp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index a14eef5..c256263 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -649,12 +649,14 @@ impl RrdpState {
     }
 
     /// Derives the relative path for a snapshot or delta file. These must not replace
-    /// the notification file, or use the name of a temporary file.
+    /// the notification file, or use the name of a temporary file, or use either as a
+    /// directory.
     fn relative_path(&self, uri: &Https) -> Result<String> {
         let rel_path = self.mappings.relative(uri)?;
-        if rel_path == self.notification_source.name()
-            || rel_path == self.notification_source.tmp_name()
-            || rel_path == file_ops::MOVE_TMP_FILE
+        let first = rel_path.split('/').next().unwrap_or_default();
+        if first == self.notification_source.name()
+            || first == self.notification_source.tmp_name()
+            || first == file_ops::MOVE_TMP_FILE
         {
             return Err(anyhow!("Uri {} would replace the notification file", uri));
         }
-- 
2.43.0


From ed474ab742adbb407a0d5b61d67c11e5361005e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:42 +0000
Subject: [PATCH 18/34] fix: remove a lingering temporary symlink if its target
 is gone

---
 src/rsync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 6a0c19b..baf8df0 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -134,7 +134,8 @@ fn symlink_current_to_new_revision_dir(
     let current_path = config.rsync_dir_current();
 
     let tmp_name = file_ops::path_with_extension(&current_path, config::TMP_FILE_EXT);
-    if tmp_name.exists() {
+    // Note that the directory that a lingering symlink points to may be gone.
+    if tmp_name.symlink_metadata().is_ok() {
         std::fs::remove_file(&tmp_name).with_context(|| {
             format!(
                 "Could not remove lingering temporary symlink for current rsync dir at '{}'",
-- 
2.43.0


From a2f34ee277f7e705428d3197c8127f7e9db58a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 19/34] fix: insist on data for snapshot and delta files

---
 src/fetch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 12c5099..e8e94fe 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -333,11 +333,13 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        match source
             .fetch(Some(hash), None, Some(target))
-            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
-
-        Ok(())
+            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?
+        {
+            FetchResponse::Saved => Ok(()),
+            _ => Err(anyhow!("Got no data for: {}", uri)),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
-- 
2.43.0


From d27445f5d272130f284bafeb82984d4d454c0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 20/34] fix: do not accept unsolicited 'not modified' responses

---
 src/fetch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fetch.rs b/src/fetch.rs
index e8e94fe..0cd7bd9 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -310,6 +310,9 @@ impl Fetcher {
                     .with_context(|| "Failed to parse notification file")?;
                 NotificationFileResponse::Data { notification, etag }
             }
+            FetchResponse::UnModified if etag.is_none() => {
+                return Err(anyhow!("Got an unsolicited 'not modified' response"))
+            }
             FetchResponse::UnModified => NotificationFileResponse::Unmodified,
             FetchResponse::Saved => {
                 unreachable!("For the notification file we get data instead of saving")
-- 
2.43.0


From df2d73f4c2df1f596b2d96d45fd4d9addfa023bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 21/34] fix: do not follow redirects from https to http

---
 src/fetch.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fetch.rs b/src/fetch.rs
index 0cd7bd9..c0f671b 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -108,6 +108,7 @@ impl FetchSource {
                 let client = Client::builder()
                     .danger_accept_invalid_certs(mode.accept_insecure())
                     .danger_accept_invalid_hostnames(mode.accept_insecure())
+                    .https_only(!mode.accept_insecure())
                     .timeout(Duration::from_secs(60))
                     .build()?;
 
-- 
2.43.0


From 03ec539ca15fdb97a41e28b4aba1f8af2e4c469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:35 +0000
Subject: [PATCH 22/34] fix: report manifests that are stale or not yet valid

---
 src/validation/validator.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..bb826c9 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -191,6 +191,26 @@ impl Validator {
                 }
             };
 
+            // The times of the manifest itself are not checked by the above, which
+            // considers the validity time of its EE certificate only.
+            if content.this_update() > when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is not yet valid",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
+            if content.next_update() < when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is stale",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             #[allow(clippy::mutable_key_type)]
             let mut mft_entries: HashMap<_, _> = content
                 .iter_uris(sia_ca)
-- 
2.43.0


From 8903203f364ab82618522f0d8450a78efbe17ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 23/34] fix: report revoked router certificates

---
 src/validation/validator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index bb826c9..ecc2a05 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -404,6 +404,11 @@ impl Validator {
                                             }
                                         }
                                     }
+                                } else if crl.contains(child_cert.serial_number()) {
+                                    ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                        uri,
+                                        "router certificate was revoked",
+                                    ));
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
                                     match child_cert.validate_router_at(resource_cert, strict, when)
-- 
2.43.0


From 075577c73429443ee48bfe57d6c828451cff29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 24/34] fix: validate the staged data, not what an earlier run
 cached

---
 src/validation/validator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index ecc2a05..e2dcabc 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -68,8 +68,11 @@ impl Validator {
     /// Ensure that the staged data is updated even if we are
     /// running in offline mode.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
-        self.repositories
-            .get_latest(notify_uri, false, Time::now())?;
+        // Do not use any data cached by an earlier run, because we must
+        // validate exactly the content that is in the staging directory now.
+        let fetcher = self.repositories.get_fetcher(notify_uri);
+        let data = VisitedRepositories::retrieve_new_repository(&fetcher, Time::now())?;
+        self.repositories.data.insert(notify_uri.into(), data);
         Ok(())
     }
 
-- 
2.43.0


From 71353bc63488b225405f58006f7db623a9571b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 25/34] fix: use the snapshot of another repository if its
 deltas do not lead to its serial

---
 src/validation/validator.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index e2dcabc..4a12be6 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -770,6 +770,16 @@ impl VisitedRepositories {
             }
         }
 
+        // The deltas may stop short of the current serial, or the server may
+        // have gone back to an older one.
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "deltas lead to serial {}, not to {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From dc391d3fa2cdf6c3cc941f7dd2e7398bc3a35c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 26/34] fix: validate CA certificates in loops and long chains,
 and each CA once only

---
 src/validation/validator.rs | 67 +++++++++++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 4a12be6..92f7129 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -7,7 +7,8 @@ use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
     repository::{
-        aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
+        aspa::Aspa, error::VerificationError, resources::ResourceSet, x509::Time, Cert, Crl,
+        Manifest, ResourceCert, Roa,
     },
     rrdp::{self, Delta, DeltaElement, NotificationFile, Snapshot},
     uri,
@@ -22,6 +23,9 @@ use super::{
     ValidatedChild, ValidatedRoa, ValidatedRouterCert, ValidationIssue, ValidationReport,
 };
 
+/// How many different sets of resources one CA may have certificates for.
+const MAX_RESOURCE_SETS: usize = 32;
+
 #[derive(Debug, Deserialize, Serialize)]
 pub struct Validator {
     tals: Vec<Tal>,
@@ -102,15 +106,68 @@ impl Validator {
         let info = ValidatedCaCertInfo::try_from(&ta_cert)
             .map_err(|e| anyhow!(format!("Invalid TA certificate: {e}")))?;
 
-        Ok(self.validate_tree_at(&ta_cert, &info, offline, when))
+        Ok(self.validate_tree_at(ta_cert, info, offline, when))
     }
 
+    /// Validates the given CA and everything below it.
+    ///
+    /// Certificates need not form a tree: there can be loops, and there can be
+    /// many paths to the same CA. So, keep track of what was validated already.
+    /// And there can be many levels, so avoid recursion.
     fn validate_tree_at(
+        &mut self,
+        ta_cert: ResourceCert,
+        ta_cert_info: ValidatedCaCertInfo,
+        offline: bool,
+        when: Time,
+    ) -> ValidationReport {
+        let mut report = ValidationReport::default();
+
+        // All CAs (their key and where they publish) that were seen, with the
+        // sets of resources that they were seen with.
+        #[allow(clippy::mutable_key_type)]
+        let mut seen: HashMap<_, Vec<ResourceSet>> = HashMap::new();
+
+        let mut todo = vec![(ta_cert, ta_cert_info)];
+        while let Some((cert, info)) = todo.pop() {
+            let resource_sets = seen
+                .entry((
+                    cert.subject_key_identifier(),
+                    info.sia_ca.clone(),
+                    info.sia_mft.clone(),
+                    info.sia_rrdp.clone(),
+                ))
+                .or_default();
+
+            if resource_sets.contains(&info.resources) {
+                continue;
+            }
+
+            if resource_sets.len() == MAX_RESOURCE_SETS {
+                let mut ca_cert = ValidatedCaCertificate::empty(info);
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    (&ca_cert.ca_cert_info.sia_ca).into(),
+                    "CA has too many certificates with different resources",
+                ));
+                report.add_cert(ca_cert);
+                continue;
+            }
+
+            resource_sets.push(info.resources.clone());
+            report.add_other(self.validate_ca_at(&cert, &info, offline, when, &mut todo));
+        }
+
+        report
+    }
+
+    /// Validates the given CA and its objects. Adds its children to the given list.
+    fn validate_ca_at(
         &mut self,
         resource_cert: &ResourceCert,
         ca_cert_info: &ValidatedCaCertInfo,
         offline: bool,
         when: Time,
+        children: &mut Vec<(ResourceCert, ValidatedCaCertInfo)>,
     ) -> ValidationReport {
         trace!(
             "Validate CA with SIA: {} and RRDP: {}",
@@ -481,10 +538,8 @@ impl Validator {
         // Add the results for this CA certificate validation.
         report.add_cert(ca_cert);
 
-        // recurse child certificates
-        for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
-        }
+        // child certificates are next
+        children.append(&mut child_certificates);
 
         report
     }
-- 
2.43.0


From 7c6d5c1cc405e0fc034950c5a7c968d2881b91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 27/34] fix: report invalid file names on manifests instead of
 panicking

---
 src/validation/validator.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 92f7129..3cf6bd4 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -7,8 +7,8 @@ use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
     repository::{
-        aspa::Aspa, error::VerificationError, resources::ResourceSet, x509::Time, Cert, Crl,
-        Manifest, ResourceCert, Roa,
+        aspa::Aspa, error::VerificationError, manifest::ManifestHash, resources::ResourceSet,
+        x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
     },
     rrdp::{self, Delta, DeltaElement, NotificationFile, Snapshot},
     uri,
@@ -272,10 +272,23 @@ impl Validator {
             }
 
             #[allow(clippy::mutable_key_type)]
-            let mut mft_entries: HashMap<_, _> = content
-                .iter_uris(sia_ca)
-                .map(|(k, v)| (UriString::from(k), v))
-                .collect();
+            let mut mft_entries: HashMap<_, _> = HashMap::new();
+            for item in content.iter() {
+                let (file, hash) = item.into_pair();
+                match sia_ca.join(file.as_ref()) {
+                    Ok(uri) => {
+                        let hash = ManifestHash::new(hash, content.file_hash_alg());
+                        mft_entries.insert(UriString::from(uri), hash);
+                    }
+                    Err(e) => {
+                        let msg = format!("Invalid file name on manifest: {e}");
+                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                            mft_uri_string.clone(),
+                            msg,
+                        ));
+                    }
+                }
+            }
 
             let crl_uri = match mft_cert.crl_uri() {
                 Some(uri) => UriString::from(uri),
-- 
2.43.0


From 10cbda892fd3f83108d75dac07c5923d616f57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:38 +0000
Subject: [PATCH 28/34] fix: do not request a repository that could not be
 retrieved again for each CA

---
 src/validation/validator.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 3cf6bd4..6bc871a 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -1,5 +1,9 @@
 use core::fmt;
-use std::{collections::HashMap, convert::TryFrom, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    convert::TryFrom,
+    sync::Arc,
+};
 
 use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
@@ -42,6 +46,7 @@ impl Validator {
                     .map(|fetcher| (fetcher.notification_uri().clone(), Arc::new(fetcher)))
                     .collect(),
                 data: HashMap::new(),
+                failed: HashSet::new(),
             },
         }
     }
@@ -562,6 +567,10 @@ impl Validator {
 pub struct VisitedRepositories {
     fetchers: HashMap<uri::Https, Arc<Fetcher>>,
     data: HashMap<UriString, RepositoryData>,
+
+    /// Repositories without data that we failed to retrieve in this run.
+    #[serde(skip)]
+    failed: HashSet<UriString>,
 }
 
 #[derive(Clone, Debug, Default, Deserialize, Eq, Hash, PartialEq, Serialize)]
@@ -634,6 +643,8 @@ impl VisitedRepositories {
             None => {
                 if offline {
                     debug!("Skip downloading content for {notify_uri} in offline validation mode.")
+                } else if self.failed.contains(&notify_uri_string) {
+                    debug!("Won't try {notify_uri} again in this run.")
                 } else {
                     // We did not have any data for this notify_uri, so add
                     // it now as a new repository.
@@ -645,6 +656,7 @@ impl VisitedRepositories {
                         }
                         Err(e) => {
                             warn!("Could not update repository for {notify_uri}. Error: {e}");
+                            self.failed.insert(notify_uri_string);
                             return Err(e);
                         }
                     }
@@ -720,6 +732,7 @@ impl VisitedRepositories {
                                         Err(e) => {
                                             debug!("Could not apply snapshot for {notify_uri}, will remove content. Reason: {e}");
                                             self.data.remove(&notify_uri_string);
+                                            self.failed.insert(notify_uri_string);
                                         }
                                     }
                                 } else {
-- 
2.43.0


From 906a22aadfb3639b9e5e82a1bcfb955bfc64cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:06 +0000
Subject: [PATCH 29/34] fix: do not use outdated data of a repository for some
 CAs when it could not be updated

If the notification file could not be retrieved, then this was an error for the
first CA publishing in that repository, while the outdated data was used for all
others. Which CA comes first depends on the order of a hash map.
---
 src/validation/validator.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 6bc871a..686ee23 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -568,7 +568,7 @@ pub struct VisitedRepositories {
     fetchers: HashMap<uri::Https, Arc<Fetcher>>,
     data: HashMap<UriString, RepositoryData>,
 
-    /// Repositories without data that we failed to retrieve in this run.
+    /// Repositories that we failed to retrieve, or to update, in this run.
     #[serde(skip)]
     failed: HashSet<UriString>,
 }
@@ -668,7 +668,11 @@ impl VisitedRepositories {
                 //
                 // TODO: make this time configurable.
 
-                if repo_data.fetched {
+                if self.failed.contains(&notify_uri_string) {
+                    // The data is out of date. Don't use it, also if we did not find out
+                    // about this just now, but for another CA.
+                    return Err(anyhow!("Could not update repository for {notify_uri}"));
+                } else if repo_data.fetched {
                     // nothing to fetch.. don't even trace log
                 } else if offline {
                     debug!("Use cached data for {notify_uri} in offline validation mode.");
@@ -686,7 +690,13 @@ impl VisitedRepositories {
                     // Get the notification response to see if we need
                     // to update the data.
                     let notification_response =
-                        fetcher.read_notification_file(repo_data.etag.as_ref())?;
+                        match fetcher.read_notification_file(repo_data.etag.as_ref()) {
+                            Ok(response) => response,
+                            Err(e) => {
+                                self.failed.insert(notify_uri_string);
+                                return Err(e);
+                            }
+                        };
 
                     match notification_response {
                         NotificationFileResponse::Unmodified => {
-- 
2.43.0


From da8a5dc976e45d635cf158be2815a08b41ddc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:41 +0000
Subject: [PATCH 30/34] fix: do not let a repository at the last possible
 serial crash validation

---
 src/validation/validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 686ee23..ee045ea 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -798,6 +798,15 @@ impl VisitedRepositories {
             .first()
             .ok_or(anyhow!("notification file has no deltas"))?;
 
+        // There are no deltas that lead back to an older serial.
+        if notification.serial() < data.serial {
+            return Err(anyhow!(
+                "no delta path from {} to older serial {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         // Ensure that we have all deltas needed for our
         // current data serial.
         if first_delta.serial() > data.serial + 1 {
-- 
2.43.0


From 299b807a772f8445f20aaad76912e93c3621d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:53 +0000
Subject: [PATCH 31/34] fix: find repositories and objects whose URIs are
 spelled in another case

The scheme and the host name of a URI are case-insensitive, and rpki's URI
types compare them that way, but the validator looked up repositories and
objects by the plain string. A correct tree was reported to have issues, or
not to contain the repository, if a certificate spelled a host name
differently.
---
 src/validation/validator.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index ee045ea..28ad340 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -595,27 +595,35 @@ impl AsRef<str> for UriString {
     }
 }
 
+/// The scheme and the authority of a URI are case-insensitive, so they are
+/// normalized to find the same thing under all their spellings.
 impl From<&uri::Https> for UriString {
     fn from(uri: &uri::Https) -> Self {
-        UriString(uri.to_string())
+        UriString(format!("https://{}{}", uri.canonical_authority(), uri.path()))
     }
 }
 
 impl From<uri::Https> for UriString {
     fn from(uri: uri::Https) -> Self {
-        UriString(uri.to_string())
+        UriString::from(&uri)
     }
 }
 
+/// See above. The module name and the path are case-sensitive.
 impl From<&uri::Rsync> for UriString {
     fn from(uri: &uri::Rsync) -> Self {
-        UriString(uri.to_string())
+        UriString(format!(
+            "rsync://{}/{}/{}",
+            uri.canonical_authority(),
+            uri.module_name(),
+            uri.path()
+        ))
     }
 }
 
 impl From<uri::Rsync> for UriString {
     fn from(uri: uri::Rsync) -> Self {
-        UriString(uri.to_string())
+        UriString::from(&uri)
     }
 }
 
-- 
2.43.0


From 5977d378d4711f8286928b3a3de30e01e44b8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:27 +0000
Subject: [PATCH 32/34] fix: never mix deltas of a server that uses serials
 again with the old ones

---
 src/rrdp.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c256263..797ec02 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -245,7 +245,17 @@ impl RrdpState {
                                     "Notification file was updated from serial '{}' to '{}'.",
                                     snapshot.serial(),
                                     notification_file.serial()
-                                )
+                                );
+
+                                // Serials are used again for other changes if the server was
+                                // restored from a backup. Then the deltas that we have do not
+                                // lead to the new version, and may not be mixed with new ones.
+                                session_reset = self.deltas.iter().any(|ours| {
+                                    notification_file.deltas().iter().any(|theirs| {
+                                        theirs.serial() == ours.serial()
+                                            && theirs.hash() != ours.hash()
+                                    })
+                                });
                             }
                             std::cmp::Ordering::Equal => {
                                 // no change, session and serial unchanged
-- 
2.43.0


From 378750c877e4d872ff377560c85284593633daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:33 +0000
Subject: [PATCH 33/34] fix: save which rsync directory was adopted before
 switching to another one

After a run that failed between switching the 'current' symlink and saving
the state, the next run only noted in memory that the directory is, or was,
being served. If that run failed at the same point, then the directory was
forgotten, and replaced without waiting for the clean-up time in case
upstream went back to that version.
---
 src/rsync.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index baf8df0..f0698bb 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -35,7 +35,10 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     let serial = snapshot.serial();
 
     let mut rsync_state = RsyncDirState::recover(config)?;
-    rsync_state.adopt_link_target(config);
+    if rsync_state.adopt_link_target(config) {
+        // This run may fail as well, and then there will be another link target to adopt.
+        rsync_state.persist(config)?;
+    }
 
     let include_host = config.rsync_include_host;
     let new_revision = RsyncRevision {
@@ -237,10 +240,15 @@ impl RsyncDirState {
     }
 
     /// If a previous run failed after it switched the 'current' symlink, but before it could
-    /// save the state, then the symlink is right and the state is not.
-    fn adopt_link_target(&mut self, config: &Config) {
-        if let Some(revision) = RsyncRevision::current(config) {
-            self.update_current(revision);
+    /// save the state, then the symlink is right and the state is not. Returns true if the
+    /// state was changed.
+    fn adopt_link_target(&mut self, config: &Config) -> bool {
+        match RsyncRevision::current(config) {
+            Some(revision) if self.current.as_ref() != Some(&revision) => {
+                self.update_current(revision);
+                true
+            }
+            _ => false,
         }
     }
 
-- 
2.43.0


From c390986c792c87d7f8aaa1b0b9d242d6722f76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:09 +0000
Subject: [PATCH 34/34] fix: renew the time of the last look at a repository
 that is found unchanged

Otherwise, once the data of a repository is more than an hour old, it is
asked for its notification file in every run (and its being down shortly
makes the source repository invalid) for as long as nothing changes.
---
 src/validation/validator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 28ad340..2b35fb0 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -708,7 +708,9 @@ impl VisitedRepositories {
 
                     match notification_response {
                         NotificationFileResponse::Unmodified => {
-                            // Nothing to update, proceed.
+                            // Nothing to update, proceed. What we have was found to be
+                            // current just now, though.
+                            repo_data.last_fetch = when;
                         }
                         NotificationFileResponse::Data { notification, etag } => {
                             // New notification file retrieved, or well... etag may not
@@ -718,6 +720,7 @@ impl VisitedRepositories {
                                 && notification.serial() == repo_data.serial
                             {
                                 trace!("Notification file at uri {notify_uri} is unchanged (but does not support etag)");
+                                repo_data.last_fetch = when;
                             } else {
                                 debug!("Notification file at uri {notify_uri} was updated, will try to apply deltas");
                                 // Try to apply deltas. If this fails, then try to apply
-- 
2.43.0

