From 776577d4eb726ab80a0850b424f65dfd485c0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 01/40] hooks: simulation seams for threads, locks, clocks and
 files behind cfg(axmos_verif)

---
 crates/axmos-db/src/io/disk/mod.rs            |   7 +-
 crates/axmos-db/src/io/disk/unix.rs           |  11 +-
 crates/axmos-db/src/lib.rs                    |  19 +-
 crates/axmos-db/src/macros/make_shared.rs     |  12 +-
 .../src/multithreading/coordinator.rs         |   2 +-
 crates/axmos-db/src/multithreading/frames.rs  |   2 +-
 crates/axmos-db/src/multithreading/runner.rs  |   3 +-
 .../axmos-db/src/multithreading/threadpool.rs |   8 +-
 crates/axmos-db/src/runtime/context.rs        |   2 +-
 crates/axmos-db/src/schema/catalog.rs         |   3 +-
 crates/axmos-db/src/sync.rs                   |  24 +
 crates/axmos-db/src/verif/facade.rs           |   1 +
 crates/axmos-db/src/verif/fs.rs               | 149 ++++++
 crates/axmos-db/src/verif/mod.rs              |  67 +++
 crates/axmos-db/src/verif/sync.rs             | 440 ++++++++++++++++++
 15 files changed, 725 insertions(+), 25 deletions(-)
 create mode 100644 crates/axmos-db/src/sync.rs
 create mode 100644 crates/axmos-db/src/verif/facade.rs
 create mode 100644 crates/axmos-db/src/verif/fs.rs
 create mode 100644 crates/axmos-db/src/verif/mod.rs
 create mode 100644 crates/axmos-db/src/verif/sync.rs

diff --git a/crates/axmos-db/src/io/disk/mod.rs b/crates/axmos-db/src/io/disk/mod.rs
index 014a576..99f3aca 100644
--- a/crates/axmos-db/src/io/disk/mod.rs
+++ b/crates/axmos-db/src/io/disk/mod.rs
@@ -3,8 +3,11 @@ pub mod unix;
 #[cfg(windows)]
 pub mod windows;
 
+#[cfg(axmos_verif)]
+use crate::verif::fs::{self, File, Metadata};
+#[cfg(not(axmos_verif))]
+use std::fs::{self, File, Metadata};
 use std::{
-    fs::{self, File, Metadata},
     io::{self, Read, Seek, Write},
     os::{fd::AsRawFd, unix::prelude::RawFd},
     path::{Path, PathBuf},
@@ -37,7 +40,7 @@ pub(crate) struct OpenOptions {
 impl Default for OpenOptions {
     fn default() -> Self {
         Self {
-            inner: std::fs::OpenOptions::new(),
+            inner: fs::OpenOptions::new(),
             bypass_cache: false,
             sync_on_write: false,
             lock: false,
diff --git a/crates/axmos-db/src/io/disk/unix.rs b/crates/axmos-db/src/io/disk/unix.rs
index ceca7de..6ea6757 100644
--- a/crates/axmos-db/src/io/disk/unix.rs
+++ b/crates/axmos-db/src/io/disk/unix.rs
@@ -1,12 +1,11 @@
+#[cfg(axmos_verif)]
+use crate::verif::fs::File;
+#[cfg(not(axmos_verif))]
 use std::{
     fs::File,
-    io,
-    os::{
-        fd::AsRawFd,
-        unix::{fs::OpenOptionsExt, prelude::MetadataExt},
-    },
-    path::Path,
+    os::unix::{fs::OpenOptionsExt, prelude::MetadataExt},
 };
+use std::{io, os::fd::AsRawFd, path::Path};
 
 use super::{FileSystem, FileSystemBlockSize, Open, OpenOptions};
 
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..20ee4be 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -4,6 +4,7 @@
 #![feature(debug_closure_helpers)]
 #![feature(trait_alias)]
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #![allow(unused_assignments)]
 #![allow(unused_variables)]
 #![feature(slice_ptr_get)]
@@ -20,9 +21,13 @@ pub mod runtime;
 pub mod schema;
 pub mod sql;
 mod storage;
+#[doc(hidden)]
+pub mod sync;
 pub mod tcp;
 mod tree;
 pub mod types;
+#[cfg(axmos_verif)]
+pub mod verif;
 
 pub use common::*;
 /// Jemalloc apparently has better alignment guarantees than rust's standard allocator.
@@ -171,7 +176,7 @@ impl Database {
         let path = path.as_ref().to_path_buf();
 
         // Check if database already exists
-        if path.exists() {
+        if path_exists(&path) {
             return Err(DatabaseError::AlreadyExists(path));
         }
 
@@ -215,7 +220,7 @@ impl Database {
         let path = path.as_ref().to_path_buf();
 
         // Check if database exists
-        if !path.exists() {
+        if !path_exists(&path) {
             return Err(DatabaseError::NotFound(path));
         }
 
@@ -295,7 +300,7 @@ impl Database {
     /// If the database exists, opens it. Otherwise, creates a new one.
     pub fn open_or_create(path: impl AsRef<Path>, config: DBConfig) -> DatabaseResult<Self> {
         let path = path.as_ref();
-        if path.exists() {
+        if path_exists(path) {
             Self::open(path, config)
         } else {
             Self::create(path, config)
@@ -539,6 +544,14 @@ impl Drop for Database {
     }
 }
 
+#[cfg(not(axmos_verif))]
+fn path_exists(path: &Path) -> bool {
+    path.exists()
+}
+
+#[cfg(axmos_verif)]
+use crate::verif::fs::exists as path_exists;
+
 #[cfg(test)]
 #[cfg(not(miri))]
 mod tests;
diff --git a/crates/axmos-db/src/macros/make_shared.rs b/crates/axmos-db/src/macros/make_shared.rs
index 0125ef6..0bf9458 100644
--- a/crates/axmos-db/src/macros/make_shared.rs
+++ b/crates/axmos-db/src/macros/make_shared.rs
@@ -2,17 +2,17 @@
 macro_rules! make_shared {
     ($shared_ty:ident, $inner_ty:ty) => {
         #[repr(transparent)]
-        pub struct $shared_ty(std::sync::Arc<parking_lot::RwLock<$inner_ty>>);
+        pub struct $shared_ty(std::sync::Arc<$crate::sync::RwLock<$inner_ty>>);
 
-        impl From<std::sync::Arc<parking_lot::RwLock<$inner_ty>>> for $shared_ty {
-            fn from(value: std::sync::Arc<parking_lot::RwLock<$inner_ty>>) -> Self {
+        impl From<std::sync::Arc<$crate::sync::RwLock<$inner_ty>>> for $shared_ty {
+            fn from(value: std::sync::Arc<$crate::sync::RwLock<$inner_ty>>) -> Self {
                 Self(std::sync::Arc::clone(&value))
             }
         }
 
         impl From<$inner_ty> for $shared_ty {
             fn from(value: $inner_ty) -> Self {
-                Self(std::sync::Arc::new(parking_lot::RwLock::new(value)))
+                Self(std::sync::Arc::new($crate::sync::RwLock::new(value)))
             }
         }
 
@@ -23,11 +23,11 @@ macro_rules! make_shared {
         }
 
         impl $shared_ty {
-            pub fn read(&self) -> parking_lot::RwLockReadGuard<'_, $inner_ty> {
+            pub fn read(&self) -> $crate::sync::RwLockReadGuard<'_, $inner_ty> {
                 self.0.read()
             }
 
-            pub fn write(&self) -> parking_lot::RwLockWriteGuard<'_, $inner_ty> {
+            pub fn write(&self) -> $crate::sync::RwLockWriteGuard<'_, $inner_ty> {
                 self.0.write()
             }
 
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 017347a..00c854a 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -3,7 +3,7 @@ use crate::{
     io::pager::SharedPager,
     types::{LogicalId, TransactionId},
 };
-use parking_lot::RwLock;
+use crate::sync::RwLock;
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 2e36692..f34d185 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -17,7 +17,7 @@ use std::{
     },
 };
 
-use parking_lot::{ArcRwLockReadGuard, ArcRwLockWriteGuard, RawRwLock, RwLock};
+use crate::sync::{ArcRwLockReadGuard, ArcRwLockWriteGuard, RawRwLock, RwLock};
 
 #[derive(Debug)]
 pub(crate) struct ReadLatch<P>(ArcRwLockReadGuard<RawRwLock, P>);
diff --git a/crates/axmos-db/src/multithreading/runner.rs b/crates/axmos-db/src/multithreading/runner.rs
index ed77e13..d085e04 100644
--- a/crates/axmos-db/src/multithreading/runner.rs
+++ b/crates/axmos-db/src/multithreading/runner.rs
@@ -2,11 +2,12 @@ use std::{
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
     io::{Error as IoError, ErrorKind},
-    sync::{Arc, mpsc},
+    sync::Arc,
 };
 
 use crate::{
     io::pager::SharedPager,
+    sync::mpsc,
     multithreading::{
         TransactionCoordinator,
         threadpool::{ThreadPool, ThreadPoolError},
diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..a4bf5c9 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -6,11 +6,13 @@ use std::{
         Arc,
         atomic::{AtomicBool, Ordering},
     },
-    thread::{self, JoinHandle, ThreadId},
-    time::{Duration, Instant},
+    time::Duration,
 };
 
-use parking_lot::{Condvar, Mutex};
+use crate::sync::{
+    Condvar, Instant, Mutex,
+    thread::{self, JoinHandle, ThreadId},
+};
 
 /// Thread pool errors
 #[derive(Debug)]
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index c557820..25d6de7 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,4 +1,4 @@
-use parking_lot::RwLock;
+use crate::sync::RwLock;
 
 // src/sql/executor/context.rs
 use super::RuntimeResult;
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..f4b02d5 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -23,7 +23,8 @@ use super::{
 
 use std::collections::HashSet;
 use std::fmt::{Display, Formatter, Result as FmtResult};
-use std::time::{SystemTime, UNIX_EPOCH};
+use crate::sync::SystemTime;
+use std::time::UNIX_EPOCH;
 
 #[derive(Debug)]
 pub enum CatalogError {
diff --git a/crates/axmos-db/src/sync.rs b/crates/axmos-db/src/sync.rs
new file mode 100644
index 0000000..a889e98
--- /dev/null
+++ b/crates/axmos-db/src/sync.rs
@@ -0,0 +1,24 @@
+//! Single import point for the synchronisation, thread and clock primitives used by the engine.
+//!
+//! In a normal build these are plain re-exports of `parking_lot` and `std`.
+//! When the crate is compiled with `--cfg axmos_verif` they are replaced by the
+//! simulator-controlled equivalents of [`crate::verif::sync`].
+
+#[cfg(not(axmos_verif))]
+pub use parking_lot::{
+    ArcRwLockReadGuard, ArcRwLockWriteGuard, Condvar, Mutex, RawRwLock, RwLock, RwLockReadGuard,
+    RwLockWriteGuard,
+};
+
+#[cfg(not(axmos_verif))]
+pub use std::{
+    sync::mpsc,
+    thread,
+    time::{Instant, SystemTime},
+};
+
+#[cfg(axmos_verif)]
+pub use crate::verif::sync::{
+    ArcRwLockReadGuard, ArcRwLockWriteGuard, Condvar, Instant, Mutex, RawRwLock, RwLock,
+    RwLockReadGuard, RwLockWriteGuard, SystemTime, mpsc, thread,
+};
diff --git a/crates/axmos-db/src/verif/facade.rs b/crates/axmos-db/src/verif/facade.rs
new file mode 100644
index 0000000..5797bf5
--- /dev/null
+++ b/crates/axmos-db/src/verif/facade.rs
@@ -0,0 +1 @@
+//! Crate-private entry points exposed to the simulator.
diff --git a/crates/axmos-db/src/verif/fs.rs b/crates/axmos-db/src/verif/fs.rs
new file mode 100644
index 0000000..c217ade
--- /dev/null
+++ b/crates/axmos-db/src/verif/fs.rs
@@ -0,0 +1,149 @@
+//! Stand-ins for the subset of [`std::fs`] used by [`crate::io::disk`].
+use super::{Env, env};
+use std::{
+    io::{self, Read, Seek, SeekFrom, Write},
+    os::fd::{AsRawFd, RawFd},
+    path::Path,
+};
+
+fn sim() -> &'static dyn Env {
+    env().expect("file access outside of a simulation")
+}
+
+#[derive(Debug)]
+pub struct File {
+    id: u64,
+    pos: u64,
+}
+
+#[derive(Debug)]
+pub struct Metadata {
+    len: u64,
+    blksize: u64,
+}
+
+impl Metadata {
+    pub fn len(&self) -> u64 {
+        self.len
+    }
+    pub fn blksize(&self) -> u64 {
+        self.blksize
+    }
+}
+
+#[derive(Debug)]
+pub struct OpenOptions {
+    create: bool,
+    truncate: bool,
+}
+
+impl OpenOptions {
+    pub fn new() -> Self {
+        Self {
+            create: false,
+            truncate: false,
+        }
+    }
+    pub fn create(&mut self, v: bool) -> &mut Self {
+        self.create = v;
+        self
+    }
+    pub fn truncate(&mut self, v: bool) -> &mut Self {
+        self.truncate = v;
+        self
+    }
+    pub fn read(&mut self, _v: bool) -> &mut Self {
+        self
+    }
+    pub fn write(&mut self, _v: bool) -> &mut Self {
+        self
+    }
+    pub fn append(&mut self, _v: bool) -> &mut Self {
+        self
+    }
+    pub fn custom_flags(&mut self, _flags: i32) -> &mut Self {
+        self
+    }
+    pub fn open(&self, path: impl AsRef<Path>) -> io::Result<File> {
+        let id = sim().fs_open(path.as_ref(), self.create, self.truncate)?;
+        Ok(File { id, pos: 0 })
+    }
+}
+
+impl File {
+    pub fn open(path: impl AsRef<Path>) -> io::Result<File> {
+        OpenOptions::new().read(true).open(path)
+    }
+    pub fn metadata(&self) -> io::Result<Metadata> {
+        Ok(Metadata {
+            len: sim().fs_len(self.id)?,
+            blksize: 4096,
+        })
+    }
+    pub fn set_len(&self, len: u64) -> io::Result<()> {
+        sim().fs_set_len(self.id, len)
+    }
+    pub fn sync_all(&self) -> io::Result<()> {
+        sim().fs_sync(self.id)
+    }
+    pub fn sync_data(&self) -> io::Result<()> {
+        sim().fs_sync(self.id)
+    }
+}
+
+impl Read for File {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = sim().fs_read(self.id, self.pos, buf)?;
+        self.pos += n as u64;
+        Ok(n)
+    }
+}
+
+impl Write for File {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let n = sim().fs_write(self.id, self.pos, buf)?;
+        self.pos += n as u64;
+        Ok(n)
+    }
+    fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
+impl Seek for File {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        let target = match pos {
+            SeekFrom::Start(p) => Some(p),
+            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
+            SeekFrom::End(d) => sim().fs_len(self.id)?.checked_add_signed(d),
+        };
+        match target {
+            Some(p) => {
+                self.pos = p;
+                Ok(p)
+            }
+            None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
+        }
+    }
+}
+
+impl AsRawFd for File {
+    fn as_raw_fd(&self) -> RawFd {
+        -1
+    }
+}
+
+pub fn create_dir_all(_path: impl AsRef<Path>) -> io::Result<()> {
+    Ok(())
+}
+
+pub fn remove_file(path: impl AsRef<Path>) -> io::Result<()> {
+    sim().fs_remove(path.as_ref())
+}
+
+pub fn exists(path: &Path) -> bool {
+    match env() {
+        Some(e) => e.fs_exists(path),
+        None => path.exists(),
+    }
+}
diff --git a/crates/axmos-db/src/verif/mod.rs b/crates/axmos-db/src/verif/mod.rs
new file mode 100644
index 0000000..d020c38
--- /dev/null
+++ b/crates/axmos-db/src/verif/mod.rs
@@ -0,0 +1,67 @@
+//! Simulation seams. Only compiled with `--cfg axmos_verif`.
+//!
+//! The simulator itself lives outside this repository. It installs an implementation of
+//! [`Env`], and the engine then routes every blocking primitive, every thread spawn, every
+//! clock read and every file operation through it.
+//! Without an installed environment the primitives fall back to the real thing.
+
+pub mod facade;
+pub mod fs;
+pub mod sync;
+
+use std::{
+    io,
+    path::Path,
+    sync::OnceLock,
+    time::Duration,
+};
+
+/// The environment the engine runs in.
+pub trait Env: Send + Sync {
+    /// Whether the calling thread is controlled by the simulator.
+    fn active(&self) -> bool;
+
+    /// A scheduling point. `site` names the operation about to take place.
+    fn yield_point(&self, site: &'static str, key: usize);
+
+    /// Blocks the calling thread until [`Env::wake`] is called on the same key (or the timeout fires).
+    /// Returns `true` when it returned because of the timeout.
+    fn block(&self, site: &'static str, key: usize, timeout: Option<Duration>) -> bool;
+
+    /// Makes waiters of `key` runnable: all of them, or one.
+    fn wake(&self, key: usize, all: bool);
+
+    /// Spawns a simulated thread and returns its id.
+    fn spawn(&self, f: Box<dyn FnOnce() + Send + 'static>) -> u64;
+
+    /// Waits for a simulated thread. Returns false if it panicked.
+    fn join(&self, id: u64) -> bool;
+
+    /// Simulated time since the epoch.
+    fn now(&self) -> Duration;
+
+    // File system.
+    fn fs_exists(&self, path: &Path) -> bool;
+    fn fs_open(&self, path: &Path, create: bool, truncate: bool) -> io::Result<u64>;
+    fn fs_len(&self, file: u64) -> io::Result<u64>;
+    fn fs_read(&self, file: u64, offset: u64, buf: &mut [u8]) -> io::Result<usize>;
+    fn fs_write(&self, file: u64, offset: u64, buf: &[u8]) -> io::Result<usize>;
+    fn fs_set_len(&self, file: u64, len: u64) -> io::Result<()>;
+    fn fs_sync(&self, file: u64) -> io::Result<()>;
+    fn fs_remove(&self, path: &Path) -> io::Result<()>;
+}
+
+static ENV: OnceLock<&'static dyn Env> = OnceLock::new();
+
+/// Installs the environment. Can be called once per process.
+pub fn install(env: &'static dyn Env) {
+    let _ = ENV.set(env);
+}
+
+/// The installed environment, if the calling thread is part of the simulation.
+pub(crate) fn env() -> Option<&'static dyn Env> {
+    match ENV.get() {
+        Some(e) if e.active() => Some(*e),
+        _ => None,
+    }
+}
diff --git a/crates/axmos-db/src/verif/sync.rs b/crates/axmos-db/src/verif/sync.rs
new file mode 100644
index 0000000..c380387
--- /dev/null
+++ b/crates/axmos-db/src/verif/sync.rs
@@ -0,0 +1,440 @@
+//! Simulator-controlled versions of the primitives re-exported by [`crate::sync`].
+//!
+//! Exactly one simulated thread runs at a time, so the lock state itself only needs relaxed
+//! bookkeeping: what the simulator decides is who runs after every acquisition and release.
+use super::env;
+use parking_lot::lock_api;
+use std::{
+    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
+    time::Duration,
+};
+
+pub struct RawRwLock {
+    writer: AtomicBool,
+    readers: AtomicUsize,
+}
+
+impl RawRwLock {
+    fn key(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    fn wait(&self, site: &'static str) {
+        match env() {
+            Some(e) => {
+                e.block(site, self.key(), None);
+            }
+            None => std::thread::yield_now(),
+        }
+    }
+
+    fn wake(&self) {
+        if let Some(e) = env() {
+            e.wake(self.key(), true);
+        }
+    }
+}
+
+// Same admission policy as `parking_lot`: a writer first takes the writer bit, which stops new
+// readers from entering, and then waits for the readers that are already inside to leave.
+unsafe impl lock_api::RawRwLock for RawRwLock {
+    #[allow(clippy::declare_interior_mutable_const)]
+    const INIT: Self = RawRwLock {
+        writer: AtomicBool::new(false),
+        readers: AtomicUsize::new(0),
+    };
+
+    type GuardMarker = <parking_lot::RawRwLock as lock_api::RawRwLock>::GuardMarker;
+
+    fn lock_shared(&self) {
+        if let Some(e) = env() {
+            e.yield_point("rwlock.read", self.key());
+        }
+        while self.writer.load(Ordering::SeqCst) {
+            self.wait("rwlock.read");
+        }
+        self.readers.fetch_add(1, Ordering::SeqCst);
+    }
+
+    fn try_lock_shared(&self) -> bool {
+        if self.writer.load(Ordering::SeqCst) {
+            return false;
+        }
+        self.readers.fetch_add(1, Ordering::SeqCst);
+        true
+    }
+
+    unsafe fn unlock_shared(&self) {
+        self.readers.fetch_sub(1, Ordering::SeqCst);
+        self.wake();
+    }
+
+    fn lock_exclusive(&self) {
+        if let Some(e) = env() {
+            e.yield_point("rwlock.write", self.key());
+        }
+        while self.writer.swap(true, Ordering::SeqCst) {
+            self.wait("rwlock.write");
+        }
+        while self.readers.load(Ordering::SeqCst) > 0 {
+            self.wait("rwlock.write");
+        }
+    }
+
+    fn try_lock_exclusive(&self) -> bool {
+        if self.writer.load(Ordering::SeqCst) || self.readers.load(Ordering::SeqCst) > 0 {
+            return false;
+        }
+        self.writer.store(true, Ordering::SeqCst);
+        true
+    }
+
+    unsafe fn unlock_exclusive(&self) {
+        self.writer.store(false, Ordering::SeqCst);
+        self.wake();
+    }
+}
+
+pub struct RawMutex {
+    locked: AtomicBool,
+}
+
+impl RawMutex {
+    fn key(&self) -> usize {
+        self as *const Self as usize
+    }
+}
+
+unsafe impl lock_api::RawMutex for RawMutex {
+    #[allow(clippy::declare_interior_mutable_const)]
+    const INIT: Self = RawMutex {
+        locked: AtomicBool::new(false),
+    };
+
+    type GuardMarker = <parking_lot::RawMutex as lock_api::RawMutex>::GuardMarker;
+
+    fn lock(&self) {
+        if let Some(e) = env() {
+            e.yield_point("mutex.lock", self.key());
+        }
+        while self.locked.swap(true, Ordering::SeqCst) {
+            match env() {
+                Some(e) => {
+                    e.block("mutex.lock", self.key(), None);
+                }
+                None => std::thread::yield_now(),
+            }
+        }
+    }
+
+    fn try_lock(&self) -> bool {
+        !self.locked.swap(true, Ordering::SeqCst)
+    }
+
+    unsafe fn unlock(&self) {
+        self.locked.store(false, Ordering::SeqCst);
+        if let Some(e) = env() {
+            e.wake(self.key(), true);
+        }
+    }
+}
+
+pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
+pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
+pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
+pub type ArcRwLockReadGuard<R, T> = lock_api::ArcRwLockReadGuard<R, T>;
+pub type ArcRwLockWriteGuard<R, T> = lock_api::ArcRwLockWriteGuard<R, T>;
+pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
+pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
+
+pub struct WaitTimeoutResult(bool);
+
+impl WaitTimeoutResult {
+    pub fn timed_out(&self) -> bool {
+        self.0
+    }
+}
+
+pub struct Condvar {
+    generation: AtomicUsize,
+}
+
+impl Condvar {
+    pub fn new() -> Self {
+        Self {
+            generation: AtomicUsize::new(0),
+        }
+    }
+
+    fn key(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn notify_one(&self) {
+        self.generation.fetch_add(1, Ordering::SeqCst);
+        if let Some(e) = env() {
+            e.wake(self.key(), false);
+        }
+    }
+
+    pub fn notify_all(&self) {
+        self.generation.fetch_add(1, Ordering::SeqCst);
+        if let Some(e) = env() {
+            e.wake(self.key(), true);
+        }
+    }
+
+    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
+        self.wait_inner(guard, None);
+    }
+
+    pub fn wait_for<T: ?Sized>(
+        &self,
+        guard: &mut MutexGuard<'_, T>,
+        timeout: Duration,
+    ) -> WaitTimeoutResult {
+        WaitTimeoutResult(self.wait_inner(guard, Some(timeout)))
+    }
+
+    fn wait_inner<T: ?Sized>(
+        &self,
+        guard: &mut MutexGuard<'_, T>,
+        timeout: Option<Duration>,
+    ) -> bool {
+        // The mutex is released without a scheduling point in between, so the wait is atomic.
+        match env() {
+            Some(e) => {
+                let mutex = MutexGuard::mutex(guard);
+                unsafe { mutex.force_unlock() };
+                let timed_out = e.block("condvar.wait", self.key(), timeout);
+                std::mem::forget(mutex.lock());
+                timed_out
+            }
+            None => {
+                let before = self.generation.load(Ordering::SeqCst);
+                let start = std::time::Instant::now();
+                MutexGuard::unlocked(guard, || {
+                    loop {
+                        if self.generation.load(Ordering::SeqCst) != before {
+                            return false;
+                        }
+                        if timeout.is_some_and(|t| start.elapsed() >= t) {
+                            return true;
+                        }
+                        std::thread::yield_now();
+                    }
+                })
+            }
+        }
+    }
+}
+
+impl Default for Condvar {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+/// Channels. The queue is the real `std::sync::mpsc` one; only blocking is simulated.
+pub mod mpsc {
+    use super::env;
+    use std::sync::Arc;
+    pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
+
+    pub struct Sender<T> {
+        inner: Option<std::sync::mpsc::Sender<T>>,
+        key: Arc<u8>,
+    }
+
+    pub struct Receiver<T> {
+        inner: std::sync::mpsc::Receiver<T>,
+        key: Arc<u8>,
+    }
+
+    fn key_of(key: &Arc<u8>) -> usize {
+        Arc::as_ptr(key) as usize
+    }
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let (tx, rx) = std::sync::mpsc::channel();
+        let key = Arc::new(0);
+        (
+            Sender {
+                inner: Some(tx),
+                key: key.clone(),
+            },
+            Receiver { inner: rx, key },
+        )
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            Self {
+                inner: self.inner.clone(),
+                key: self.key.clone(),
+            }
+        }
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, value: T) -> Result<(), SendError<T>> {
+            if let Some(e) = env() {
+                e.yield_point("channel.send", key_of(&self.key));
+            }
+            let result = self.inner.as_ref().expect("sender is alive").send(value);
+            if let Some(e) = env() {
+                e.wake(key_of(&self.key), true);
+            }
+            result
+        }
+    }
+
+    impl<T> Drop for Sender<T> {
+        fn drop(&mut self) {
+            self.inner = None;
+            if let Some(e) = env() {
+                e.wake(key_of(&self.key), true);
+            }
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn recv(&self) -> Result<T, RecvError> {
+            match env() {
+                None => self.inner.recv(),
+                Some(e) => loop {
+                    match self.inner.try_recv() {
+                        Ok(value) => return Ok(value),
+                        Err(TryRecvError::Disconnected) => return Err(RecvError),
+                        Err(TryRecvError::Empty) => {
+                            e.block("channel.recv", key_of(&self.key), None);
+                        }
+                    }
+                },
+            }
+        }
+
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            self.inner.try_recv()
+        }
+
+        pub fn iter(&self) -> Iter<'_, T> {
+            Iter { rx: self }
+        }
+    }
+
+    pub struct Iter<'a, T> {
+        rx: &'a Receiver<T>,
+    }
+
+    impl<T> Iterator for Iter<'_, T> {
+        type Item = T;
+        fn next(&mut self) -> Option<T> {
+            self.rx.recv().ok()
+        }
+    }
+}
+
+/// Threads.
+pub mod thread {
+    use super::env;
+    pub use std::thread::{ThreadId, available_parallelism, current, current_id};
+    use std::{any::Any, time::Duration};
+
+    pub struct JoinHandle<T> {
+        id: u64,
+        real: Option<std::thread::JoinHandle<T>>,
+        result: std::sync::Arc<std::sync::Mutex<Option<T>>>,
+    }
+
+    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
+    where
+        F: FnOnce() -> T + Send + 'static,
+        T: Send + 'static,
+    {
+        let result = std::sync::Arc::new(std::sync::Mutex::new(None));
+        match env() {
+            Some(e) => {
+                let slot = result.clone();
+                let id = e.spawn(Box::new(move || {
+                    let value = f();
+                    *slot.lock().unwrap() = Some(value);
+                }));
+                JoinHandle {
+                    id,
+                    real: None,
+                    result,
+                }
+            }
+            None => JoinHandle {
+                id: 0,
+                real: Some(std::thread::spawn(f)),
+                result,
+            },
+        }
+    }
+
+    impl<T> JoinHandle<T> {
+        pub fn join(self) -> Result<T, Box<dyn Any + Send + 'static>> {
+            match (self.real, env()) {
+                (Some(handle), _) => handle.join(),
+                (None, Some(e)) => {
+                    let ok = e.join(self.id);
+                    match self.result.lock().unwrap().take() {
+                        Some(value) if ok => Ok(value),
+                        _ => Err(Box::new("simulated thread panicked")),
+                    }
+                }
+                (None, None) => Err(Box::new("simulated thread joined outside of the simulation")),
+            }
+        }
+    }
+
+    pub fn sleep(duration: Duration) {
+        match env() {
+            Some(e) => {
+                let marker = 0u8;
+                e.block("sleep", &marker as *const u8 as usize, Some(duration));
+            }
+            None => std::thread::sleep(duration),
+        }
+    }
+}
+
+/// A monotonic clock backed by simulated time.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+pub struct Instant(Duration);
+
+impl Instant {
+    pub fn now() -> Self {
+        Self(env().map(|e| e.now()).unwrap_or_default())
+    }
+
+    pub fn elapsed(&self) -> Duration {
+        Self::now().0.saturating_sub(self.0)
+    }
+
+    pub fn duration_since(&self, earlier: Instant) -> Duration {
+        self.0.saturating_sub(earlier.0)
+    }
+}
+
+/// A wall clock backed by simulated time.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+pub struct SystemTime(std::time::SystemTime);
+
+impl SystemTime {
+    pub const UNIX_EPOCH: std::time::SystemTime = std::time::SystemTime::UNIX_EPOCH;
+
+    pub fn now() -> Self {
+        let elapsed = env().map(|e| e.now()).unwrap_or_default();
+        Self(std::time::SystemTime::UNIX_EPOCH + elapsed)
+    }
+
+    pub fn duration_since(
+        &self,
+        earlier: std::time::SystemTime,
+    ) -> Result<Duration, std::time::SystemTimeError> {
+        self.0.duration_since(earlier)
+    }
+}
-- 
2.43.0


From fb0bc0aea3a1bf488c8a9ea4ab51766567ce25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 02/40] fix: keep flushed log blocks and sequence numbers
 across log forces

---
 crates/axmos-db/src/io/wal.rs | 83 +++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..31b3580 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -48,6 +48,17 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
+        // A log that was just created or truncated has no blocks on disk yet.
+        if file.seek(SeekFrom::End(0))? == 0 {
+            return Ok(Self {
+                header: BlockZero::alloc(0, default_block_size),
+                current_block: None,
+                flush_queue: VecDeque::new(),
+                file,
+                block_size: default_block_size,
+            });
+        }
+
         // Read block 0 (global header)
         let mut header_buf: BlockZero = BlockZero::new(default_block_size);
         file.seek(SeekFrom::Start(0))?;
@@ -146,8 +157,9 @@ impl WriteAheadLog {
         WalBlock::usable_space(self.block_size as usize) as usize
     }
 
+    /// LSN of the last record appended to any block of the log.
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
@@ -301,20 +313,21 @@ impl WriteAheadLog {
         self.header.metadata_mut().wal_header.global_last_lsn = Some(lsn);
         self.header.metadata_mut().wal_header.total_entries += 1;
 
-        // Try to write to block zero first
-        if self.current_block.is_none() {
-            if self.header.available_space() >= record_size {
-                self.header.try_push(lsn, record)?;
-                return Ok(());
-            }
-            // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+        // Block zero is filled first. Once there are other blocks it is never written again.
+        if self.header.metadata().wal_header.total_blocks <= 1
+            && self.header.available_space() >= record_size
+        {
+            self.header.try_push(lsn, record)?;
+            return Ok(());
         }
 
         // Write to current_block
-        let block = self.current_block.as_mut().unwrap();
+        let has_space = self
+            .current_block
+            .as_ref()
+            .is_some_and(|block| block.available_space() >= record_size);
 
-        if block.available_space() < record_size {
+        if !has_space {
             self.rotate_block()?;
         }
 
@@ -355,37 +368,26 @@ impl WriteAheadLog {
     }
 
     pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
-
-        // Flush queued blocks
-        while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
+        // Flush queued blocks. A block leaves the queue only once it is on disk.
+        while let Some(block) = self.flush_queue.front() {
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
             self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
+            self.flush_queue.pop_front();
         }
 
-        // Flush current block if it has data
+        // Flush the current block, which stays open for the records to come.
         if let Some(ref block) = self.current_block {
-            if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
-                self.file.write_all(block.as_ref())?;
-                block_number += 1;
-            }
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
+            self.file.write_all(block.as_ref())?;
         }
 
         // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
-        if let Some(block) = self.current_block.take() {
-            self.header.metadata_mut().wal_header.last_block_used =
-                block.metadata().used_bytes as u32;
-        } else {
-            self.header.metadata_mut().wal_header.last_block_used =
-                self.header.metadata().block_header.used_bytes as u32;
-        }
+        self.header.metadata_mut().wal_header.last_block_used = match &self.current_block {
+            Some(block) => block.metadata().used_bytes as u32,
+            None => self.header.metadata().block_header.used_bytes as u32,
+        };
 
         // Write block zero (siempre al principio)
         self.file.seek(SeekFrom::Start(0))?;
@@ -452,9 +454,14 @@ impl<'a> WalReader<'a> {
         total_blocks: u64,
     ) -> io::Result<Self> {
         // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        let mut header = BlockZero::alloc(0, block_size);
+        if file.seek(SeekFrom::End(0))? > 0 {
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header.as_mut())?;
+        }
+
+        // Only the blocks covered by the last flush are on disk.
+        let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
 
         let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
         let num_blocks_to_read =
-- 
2.43.0


From cdb13c0edd07125de12eeac9abacf5bb6f2208e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 03/40] fix: row version counter no longer overflows after 255
 updates

---
 crates/axmos-db/src/storage/tuple.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..c72f2a3 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -253,13 +253,13 @@ impl<'a> IntoIterator for &'a mut Row {
 pub(crate) struct TupleHeader {
     pub xmin: u64,
     pub xmax: i64,
-    pub version: u8,
+    pub version: u32,
 }
 
 bytemuck_struct!(TupleHeader);
 
 impl TupleHeader {
-    pub fn new(version: u8, xmin: u64, xmax: Option<u64>) -> Self {
+    pub fn new(version: u32, xmin: u64, xmax: Option<u64>) -> Self {
         Self {
             xmin,
             xmax: xmax.map(|v| v as i64).unwrap_or(-1),
@@ -277,7 +277,7 @@ impl TupleHeader {
     }
 
     #[inline]
-    pub fn version(&self) -> u8 {
+    pub fn version(&self) -> u32 {
         self.version
     }
 
@@ -291,18 +291,18 @@ impl TupleHeader {
 #[repr(C, align(8))]
 struct DeltaHeader {
     pub xmin: u64,
-    pub version: u8,
+    pub version: u32,
 }
 
 bytemuck_struct!(DeltaHeader);
 
 impl DeltaHeader {
-    pub fn new(version: u8, xmin: u64) -> Self {
+    pub fn new(version: u32, xmin: u64) -> Self {
         Self { xmin, version }
     }
 
     #[inline]
-    pub fn version(&self) -> u8 {
+    pub fn version(&self) -> u32 {
         self.version
     }
 
@@ -338,7 +338,7 @@ pub(crate) struct TupleLayout {
     data_end: usize,
 
     /// Current version the layout represents.
-    version: u8,
+    version: u32,
 }
 
 impl Display for TupleLayout {
@@ -521,7 +521,7 @@ impl<'a> TupleReader<'a> {
     }
 
     /// Parses a specific version by traversing deltas.
-    fn parse_version(&self, data: &[u8], target_version: u8) -> TupleResult<TupleLayout> {
+    fn parse_version(&self, data: &[u8], target_version: u32) -> TupleResult<TupleLayout> {
         let mut layout = self.parse_last_version(data)?;
 
         if target_version > layout.current_version() {
@@ -664,7 +664,7 @@ impl<'a> TupleReader<'a> {
 
 impl TupleLayout {
     #[inline]
-    fn current_version(&self) -> u8 {
+    fn current_version(&self) -> u32 {
         self.version
     }
 
@@ -717,11 +717,11 @@ impl<'a> TupleRef<'a> {
     }
 
     #[inline]
-    pub(crate) fn current_version(&self) -> u8 {
+    pub(crate) fn current_version(&self) -> u32 {
         self.layout.current_version()
     }
 
-    pub(crate) fn global_last_version(&self) -> u8 {
+    pub(crate) fn global_last_version(&self) -> u32 {
         let (header, _) = TupleHeader::read_from(self.data, 0);
         header.version()
     }
@@ -915,7 +915,7 @@ impl Tuple {
         Ok(())
     }
 
-    pub(crate) fn version(&self) -> u8 {
+    pub(crate) fn version(&self) -> u32 {
         let (header, _) = TupleHeader::read_from(self.data.effective_data(), 0);
         header.version()
     }
@@ -1218,7 +1218,7 @@ impl Tuple {
     fn write_delta(
         buffer: &mut [u8],
         offset: usize,
-        version: u8,
+        version: u32,
         xmin: TransactionId,
         changed_values: &[(u8, DataType)],
         all_old_values: &[DataType],
-- 
2.43.0


From 4d31985cd9444eca7d5d9145e12faf1438338c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 04/40] fix: row versions record the transaction that replaced
 them, so older snapshots decode the right version

---
 .../src/multithreading/coordinator.rs         | 10 +++
 crates/axmos-db/src/storage/tuple.rs          | 84 +++++++++++--------
 2 files changed, 61 insertions(+), 33 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 00c854a..ef74b2c 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -173,6 +173,16 @@ impl Snapshot {
         true
     }
 
+    /// Check if the version of a row written by an update of the given transaction is visible.
+    ///
+    /// Rolling back a transaction does not undo the updates it made, so they become visible to the
+    /// transactions that start after the rollback as they would after a commit.
+    pub fn is_update_visible(&self, updater: TransactionId) -> bool {
+        updater == self.xid
+            || self.is_committed_before_snapshot(updater)
+            || self.is_transaction_aborted(updater)
+    }
+
     /// Check if a transaction was committed before this snapshot was taken
     pub fn is_committed_before_snapshot(&self, txid: TransactionId) -> bool {
         // Transaction started after our snapshot,
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index c72f2a3..36caccf 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -287,6 +287,8 @@ impl TupleHeader {
     }
 }
 
+/// Header of a delta. [DeltaHeader::xmin] is the transaction whose update replaced the version that
+/// the delta restores: the header of the tuple keeps the transaction that inserted the row.
 #[derive(Debug, Clone, Copy)]
 #[repr(C, align(8))]
 struct DeltaHeader {
@@ -541,9 +543,8 @@ impl<'a> TupleReader<'a> {
             let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
             cursor = header_end;
 
-            layout.version_xmax = Some(layout.version_xmin);
+            layout.version_xmax = Some(delta_header.xmin());
             layout.version = delta_header.version();
-            layout.version_xmin = delta_header.xmin();
 
             // Read number of changes
             let num_changes = data[cursor] as usize;
@@ -585,6 +586,9 @@ impl<'a> TupleReader<'a> {
     }
 
     /// Parses a byte array for a specific snapshot.
+    ///
+    /// Starts from the last version and walks the deltas back while the transaction that made the
+    /// version is not one the snapshot can see.
     pub fn parse_for_snapshot(
         &self,
         data: &[u8],
@@ -592,29 +596,29 @@ impl<'a> TupleReader<'a> {
     ) -> TupleResult<Option<TupleLayout>> {
         let mut layout = self.parse_last_version(data)?;
 
-        // Check if tuple was deleted before our snapshot
-        if let Some(xmax) = layout.version_xmax {
-            if snapshot.is_committed_before_snapshot(xmax) {
-                return Ok(None);
-            }
-        }
-
-        // If current version is valid, return it
-        if layout.is_valid_for_snapshot(snapshot) {
-            return Ok(Some(layout));
+        // The row must have been inserted, and must not have been deleted, for our snapshot.
+        if !layout.is_valid_for_snapshot(snapshot) {
+            return Ok(None);
         }
 
         let num_values = self.schema.num_values();
         let bitmap_size = null_bitmap_size(num_values);
+        let creator = layout.version_xmin;
         let mut cursor = layout.delta_start();
 
         while cursor < data.len() {
-            let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
-            cursor = header_end;
+            let (delta_header, header_end) =
+                DeltaHeader::read_from(data, DeltaHeader::aligned_offset(cursor));
 
-            layout.version_xmax = Some(layout.version_xmin);
+            // The update that made this version is visible: this is the one.
+            if snapshot.is_update_visible(delta_header.xmin()) {
+                layout.version_xmin = delta_header.xmin();
+                return Ok(Some(layout));
+            }
+
+            cursor = header_end;
+            layout.version_xmax = Some(delta_header.xmin());
             layout.version = delta_header.version();
-            layout.version_xmin = delta_header.xmin();
 
             let num_changes = data[cursor] as usize;
             cursor += 1;
@@ -645,13 +649,10 @@ impl<'a> TupleReader<'a> {
                 }
                 // If null, the offset doesn't matter - null check happens first
             }
-
-            if snapshot.is_committed_before_snapshot(layout.version_xmin) {
-                return Ok(Some(layout));
-            }
         }
 
-        Ok(None)
+        layout.version_xmin = creator;
+        Ok(Some(layout))
     }
 
     #[inline]
@@ -939,6 +940,18 @@ impl Tuple {
         header.xmax()
     }
 
+    /// Transaction that wrote the last version of the tuple: the last one that updated it, if its
+    /// history still records it, or otherwise the one that inserted it.
+    pub(crate) fn last_writer_with(&self, schema: &Schema) -> TupleResult<TransactionId> {
+        let data = self.data.effective_data();
+        let layout = TupleReader::from_schema(schema).parse_last_version(data)?;
+        if layout.delta_start() < data.len() {
+            let (delta_header, _) = DeltaHeader::read_from(data, layout.delta_start());
+            return Ok(delta_header.xmin());
+        }
+        Ok(self.xmin())
+    }
+
     #[inline]
     pub(crate) fn is_deleted(&self) -> bool {
         self.xmax().is_some()
@@ -992,7 +1005,6 @@ impl Tuple {
 
         // Extract current state
         let old_version = current.current_version();
-        let old_xmin = current.version_xmin();
         let keys = self.extract_keys(&current, schema)?;
         let (new_values, changed_values, all_old_values) =
             self.compute_values(&current, modified, schema)?;
@@ -1034,7 +1046,7 @@ impl Tuple {
             buffer,
             cursor,
             old_version,
-            old_xmin,
+            new_xmin,
             &changed_values,
             &all_old_values,
             bitmap_size,
@@ -1042,6 +1054,7 @@ impl Tuple {
 
         // Copy existing deltas
         if existing_deltas_size > 0 {
+            cursor = DeltaHeader::aligned_offset(cursor);
             let existing_deltas = &self.data.effective_data()[existing_deltas_start..];
             buffer[cursor..cursor + existing_deltas_size].copy_from_slice(existing_deltas);
         }
@@ -1159,8 +1172,11 @@ impl Tuple {
             }
         }
 
-        // Existing deltas
-        size += existing_deltas_size;
+        // Existing deltas, which keep their alignment
+        if existing_deltas_size > 0 {
+            size = DeltaHeader::aligned_offset(size);
+            size += existing_deltas_size;
+        }
 
         size
     }
@@ -1263,10 +1279,6 @@ impl Tuple {
     }
 
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
-        if self.is_deleted() {
-            return Ok(());
-        }
-
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
         header.xmax = xid as i64;
@@ -1278,8 +1290,8 @@ impl Tuple {
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-    /// A delta is no longer needed if its xmin is less than the oldest active
-    /// transaction ID, meaning no transaction can ever need to see that version.
+    /// A delta is no longer needed if the transaction that replaced its version is older than the
+    /// oldest active transaction ID, meaning no transaction can ever need to see that version.
     ///
     /// Returns the number of bytes freed.
     pub(crate) fn vaccum_with(
@@ -1304,7 +1316,7 @@ impl Tuple {
             let (delta_header, header_end) =
                 DeltaHeader::read_from(self.data.effective_data(), cursor);
 
-            // If this delta's xmin >= oldest_active_xid, some transaction might still need it
+            // If the version was replaced at or after oldest_active_xid, some transaction might still need it
             if delta_header.xmin() >= oldest_active_xid {
                 let num_changes = self.data.effective_data()[header_end] as usize;
 
@@ -1382,12 +1394,18 @@ impl Tuple {
         while cursor < self.data.len() {
             let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
             let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1 + bitmap_size;
+            cursor = header_end + 1;
+            let delta_bitmap = &self.data.effective_data()[cursor..cursor + bitmap_size];
+            cursor += bitmap_size;
 
             for _ in 0..num_changes {
                 let field_idx = self.data.effective_data()[cursor] as usize;
                 cursor += 1;
 
+                if TupleReader::check_null(delta_bitmap, field_idx) {
+                    continue;
+                }
+
                 let dtype = schema
                     .value(field_idx)
                     .ok_or(TupleError::ValueError(field_idx))?
-- 
2.43.0


From 961edd0f22c4978bdb88a7b8cc5f5a9b90356ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 05/40] hooks: plain-value entry points for the simulator (cfg
 axmos_verif)

---
 crates/axmos-db/src/verif/facade.rs | 634 +++++++++++++++++++++++++++-
 1 file changed, 633 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/verif/facade.rs b/crates/axmos-db/src/verif/facade.rs
index 5797bf5..21a3fb9 100644
--- a/crates/axmos-db/src/verif/facade.rs
+++ b/crates/axmos-db/src/verif/facade.rs
@@ -1 +1,633 @@
-//! Crate-private entry points exposed to the simulator.
+//! Crate-private entry points exposed to the simulator, as plain values.
+
+use crate::{
+    DBConfig, Database,
+    io::{
+        disk::FileOperations,
+        pager::{BtreeBuilder, Pager, SharedPager},
+        wal::WriteAheadLog,
+    },
+    multithreading::coordinator::Snapshot,
+    schema::{Column, Schema, base::Relation, meta_index_schema, meta_table_schema},
+    storage::{
+        core::traits::{BtreeMetadata, BtreeOps, Writable},
+        page::{BtreePage, OverflowPage},
+        tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef},
+        wal::{OwnedRecord, RecordType},
+    },
+    tree::{
+        accessor::BtreeWriteAccessor,
+        bplustree::{Btree, BtreeError, SearchResult},
+        cell_ops::Reassembler,
+    },
+    types::{DataType, DataTypeKind},
+};
+use std::{
+    collections::{HashMap, HashSet},
+    io::{self, Write},
+    path::Path,
+};
+
+pub type Res<T> = Result<T, String>;
+
+fn s<E: std::fmt::Display>(e: E) -> String {
+    e.to_string()
+}
+
+// ---------------------------------------------------------------------------------------------
+// Write ahead log.
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct WalRec {
+    pub lsn: u64,
+    pub tid: u64,
+    pub prev: Option<u64>,
+    pub oid: Option<u64>,
+    pub row: Option<u64>,
+    pub kind: u8,
+    pub undo: Vec<u8>,
+    pub redo: Vec<u8>,
+}
+
+pub const WAL_KINDS: [u8; 10] = [0, 1, 2, 3, 6, 7, 8, 9, 10, 11];
+
+fn record_type(kind: u8) -> RecordType {
+    match kind {
+        0 => RecordType::Begin,
+        1 => RecordType::Commit,
+        2 => RecordType::Abort,
+        3 => RecordType::End,
+        6 => RecordType::Update,
+        7 => RecordType::Delete,
+        8 => RecordType::Insert,
+        9 => RecordType::Create,
+        10 => RecordType::Drop,
+        _ => RecordType::Alter,
+    }
+}
+
+pub struct Wal(WriteAheadLog);
+
+impl Wal {
+    pub fn create(path: &Path) -> io::Result<Self> {
+        WriteAheadLog::create(path).map(Wal)
+    }
+    pub fn open(path: &Path) -> io::Result<Self> {
+        WriteAheadLog::open(path).map(Wal)
+    }
+    pub fn push(&mut self, r: &WalRec) -> io::Result<()> {
+        self.0.push(OwnedRecord::new(
+            r.lsn,
+            r.tid,
+            r.prev,
+            r.oid,
+            r.row,
+            record_type(r.kind),
+            &r.undo,
+            &r.redo,
+        ))
+    }
+    pub fn flush(&mut self) -> io::Result<()> {
+        self.0.flush()
+    }
+    pub fn truncate(&mut self) -> io::Result<()> {
+        self.0.truncate()
+    }
+    pub fn last_lsn(&self) -> Option<u64> {
+        self.0.last_lsn()
+    }
+    pub fn total_entries(&self) -> u32 {
+        self.0.stats().total_entries
+    }
+    /// Stored size of a record, and largest size the log takes.
+    pub fn sizes(&self, r: &WalRec) -> (usize, usize) {
+        let rec = OwnedRecord::new(
+            r.lsn,
+            r.tid,
+            r.prev,
+            r.oid,
+            r.row,
+            record_type(r.kind),
+            &r.undo,
+            &r.redo,
+        );
+        (rec.total_size(), self.0.max_record_size())
+    }
+    pub fn read(&mut self, read_ahead: usize, limit: usize) -> io::Result<Vec<WalRec>> {
+        let mut out = Vec::new();
+        let mut reader = self.0.reader(read_ahead)?;
+        while let Some(r) = reader.next_ref()? {
+            if out.len() >= limit {
+                return Err(io::Error::other("reader does not end"));
+            }
+            let m = r.metadata();
+            out.push(WalRec {
+                lsn: r.lsn(),
+                tid: r.tid(),
+                prev: m.prev_lsn,
+                oid: m.object_id,
+                row: m.row_id,
+                kind: r.log_type() as u8,
+                undo: r.undo_payload().to_vec(),
+                redo: r.redo_payload().to_vec(),
+            });
+        }
+        Ok(out)
+    }
+    /// Transactions the analysis pass finds: finished with a commit, and to undo.
+    pub fn analysis(&mut self) -> io::Result<(Vec<u64>, Vec<u64>)> {
+        let a = self.0.run_analysis()?;
+        Ok((
+            a.needs_redo.iter().copied().collect(),
+            a.needs_undo.iter().copied().collect(),
+        ))
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Rows.
+
+#[derive(Debug, Clone)]
+pub struct RowSchema(Schema);
+
+impl RowSchema {
+    pub fn new(cols: &[(DataTypeKind, String)], num_keys: usize) -> Self {
+        let columns: Vec<Column> = cols
+            .iter()
+            .map(|(k, n)| Column::new_with_defaults(*k, n))
+            .collect();
+        RowSchema(Schema::new_table_with_num_keys(columns, num_keys))
+    }
+    fn row(values: &[DataType]) -> Row {
+        Row::from(values)
+    }
+}
+
+#[derive(Debug, Clone)]
+pub struct Snap {
+    pub xid: u64,
+    pub xmin: u64,
+    pub xmax: Option<u64>,
+    pub active: Vec<u64>,
+    pub aborted: Vec<u64>,
+}
+
+impl Snap {
+    fn build(&self) -> Snapshot {
+        Snapshot::new(
+            self.xid,
+            self.xmin,
+            self.xmax,
+            self.active.iter().copied().collect(),
+            self.aborted.iter().copied().collect(),
+        )
+    }
+}
+
+#[derive(Clone)]
+pub struct StoredRow(Tuple);
+
+impl StoredRow {
+    pub fn build(schema: &RowSchema, values: &[DataType], xid: u64) -> Res<Self> {
+        TupleBuilder::from_schema(&schema.0)
+            .build(&RowSchema::row(values), xid)
+            .map(StoredRow)
+            .map_err(s)
+    }
+    pub fn from_bytes(bytes: &[u8]) -> Res<Self> {
+        Tuple::from_slice_unchecked(bytes).map(StoredRow).map_err(s)
+    }
+    pub fn bytes(&self) -> Vec<u8> {
+        self.0.effective_data().to_vec()
+    }
+    pub fn update(&mut self, schema: &RowSchema, set: &[(usize, DataType)], xid: u64) -> Res<()> {
+        let map: HashMap<usize, DataType> = set.iter().cloned().collect();
+        self.0.add_version_with(&map, xid, &schema.0).map_err(s)
+    }
+    pub fn delete(&mut self, xid: u64) -> Res<()> {
+        self.0.delete(xid).map_err(s)
+    }
+    pub fn trim(&mut self, schema: &RowSchema, horizon: u64) -> Res<usize> {
+        self.0.vaccum_with(horizon, &schema.0).map_err(s)
+    }
+    pub fn xmin(&self) -> u64 {
+        self.0.xmin()
+    }
+    pub fn xmax(&self) -> Option<u64> {
+        self.0.xmax()
+    }
+    pub fn decode(&self, schema: &RowSchema, snap: &Snap) -> Res<Option<Vec<DataType>>> {
+        decode(self.0.effective_data(), &schema.0, &snap.build())
+    }
+    pub fn decode_last(&self, schema: &RowSchema) -> Res<Vec<DataType>> {
+        Row::from_bytes_checked(self.0.effective_data(), &schema.0)
+            .map(|r| r.as_slice().to_vec())
+            .map_err(s)
+    }
+}
+
+fn decode(data: &[u8], schema: &Schema, snap: &Snapshot) -> Res<Option<Vec<DataType>>> {
+    Row::from_bytes_checked_with_snapshot(data, schema, snap)
+        .map(|r| r.map(|r| r.as_slice().to_vec()))
+        .map_err(s)
+}
+
+// ---------------------------------------------------------------------------------------------
+// Pages.
+
+#[derive(Debug, Clone)]
+pub struct CellInfo {
+    pub left_child: Option<u64>,
+    pub overflow: Option<u64>,
+    /// Keys stored in the cell, or what failed when reading them.
+    pub keys: Res<Vec<DataType>>,
+}
+
+#[derive(Debug, Clone)]
+pub struct PageInfo {
+    pub id: u64,
+    pub header_id: u64,
+    pub leaf: bool,
+    pub right_child: Option<u64>,
+    pub next: Option<u64>,
+    pub prev: Option<u64>,
+    pub free_space: u32,
+    pub used_bytes: usize,
+    pub cells: Vec<CellInfo>,
+}
+
+#[derive(Debug, Clone, Copy)]
+pub struct LinkInfo {
+    pub id: u64,
+    pub header_id: u64,
+    pub next: Option<u64>,
+    pub num_bytes: u32,
+}
+
+#[derive(Debug, Clone, Copy)]
+pub struct FileInfo {
+    pub first_free: Option<u64>,
+    pub last_free: Option<u64>,
+    pub free_pages: u32,
+    pub total_pages: u64,
+    pub last_created_tx: u64,
+    pub last_committed_tx: u64,
+    pub last_object: u64,
+    pub page_size: usize,
+}
+
+/// A page store: what owns the pages, the cache and the log of one database.
+#[derive(Clone)]
+pub struct Store(SharedPager);
+
+impl Store {
+    pub fn create(path: &Path, config: DBConfig) -> Res<Self> {
+        Ok(Store(SharedPager::from(
+            Pager::from_config(config, path).map_err(s)?,
+        )))
+    }
+    pub fn open(path: &Path) -> Res<Self> {
+        Ok(Store(SharedPager::from(Pager::open(path).map_err(s)?)))
+    }
+    pub fn of(db: &Database) -> Self {
+        Store(db.pager().clone())
+    }
+    pub fn flush(&self) -> Res<()> {
+        self.0.write().flush().map_err(s)
+    }
+    pub fn info(&self) -> FileInfo {
+        let pager = self.0.read();
+        let h = pager.header_unchecked();
+        FileInfo {
+            first_free: h.first_free_page,
+            last_free: h.last_free_page,
+            free_pages: h.free_pages,
+            total_pages: h.total_pages,
+            last_created_tx: h.last_created_transaction,
+            last_committed_tx: h.last_committed_transaction,
+            last_object: h.last_stored_object,
+            page_size: pager.page_size(),
+        }
+    }
+    pub fn allocate_node(&self) -> Res<u64> {
+        self.0.write().allocate_page::<BtreePage>().map_err(s)
+    }
+    pub fn tree(&self, root: u64, min_keys: usize, siblings: usize, schema: &RowSchema) -> Tree {
+        Tree {
+            builder: BtreeBuilder::new(min_keys, siblings).with_pager(self.0.clone()),
+            root,
+            schema: schema.0.clone(),
+        }
+    }
+    /// A link of an overflow chain or of the free list.
+    pub fn link(&self, id: u64) -> Res<LinkInfo> {
+        self.0
+            .write()
+            .with_page::<OverflowPage, _, _>(id, |p| LinkInfo {
+                id,
+                header_id: p.metadata().page_number,
+                next: p.metadata().next,
+                num_bytes: p.metadata().num_bytes,
+            })
+            .map_err(s)
+    }
+    fn node(&self, id: u64, schema: &Schema) -> Res<PageInfo> {
+        let pager = self.0.clone();
+        let (mut info, cells) = self
+            .0
+            .write()
+            .with_page::<BtreePage, _, _>(id, |p| {
+                let cells: Vec<_> = (0..p.num_slots()).map(|i| p.owned_cell(i)).collect();
+                (
+                    PageInfo {
+                        id,
+                        header_id: p.metadata().page_number,
+                        leaf: p.is_leaf(),
+                        right_child: p.right_child(),
+                        next: p.next_sibling(),
+                        prev: p.prev_sibling(),
+                        free_space: p.free_space(),
+                        used_bytes: p.used_bytes(),
+                        cells: Vec::new(),
+                    },
+                    cells,
+                )
+            })
+            .map_err(s)?;
+        for cell in cells {
+            let keys = (|| -> Res<Vec<DataType>> {
+                let mut r = Reassembler::new(pager.clone());
+                r.reassemble(cell.as_cell_ref()).map_err(s)?;
+                let bytes = r.into_boxed_slice();
+                let layout = TupleReader::from_schema(schema)
+                    .parse_last_version(&bytes)
+                    .map_err(s)?;
+                let t = TupleRef::new(&bytes, layout);
+                (0..schema.num_keys())
+                    .map(|i| {
+                        t.key_with(i, schema)
+                            .map_err(s)
+                            .map(|k| k.to_owned().unwrap_or(DataType::Null))
+                    })
+                    .collect()
+            })();
+            info.cells.push(CellInfo {
+                left_child: cell.left_child(),
+                overflow: cell.overflow_page(),
+                keys,
+            });
+        }
+        Ok(info)
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Trees.
+
+#[derive(Clone)]
+pub struct Tree {
+    builder: BtreeBuilder,
+    root: u64,
+    schema: Schema,
+}
+
+impl Tree {
+    pub fn root(&self) -> u64 {
+        self.root
+    }
+    fn writer(&self) -> Btree<BtreeWriteAccessor> {
+        self.builder.build_tree_mut(self.root)
+    }
+    fn tuple(&self, values: &[DataType], xid: u64) -> Res<Tuple> {
+        TupleBuilder::from_schema(&self.schema)
+            .build(&Row::from(values), xid)
+            .map_err(s)
+    }
+    pub fn insert(&self, values: &[DataType]) -> Res<()> {
+        let t = self.tuple(values, 1)?;
+        self.writer().insert(self.root, t, &self.schema).map_err(s)
+    }
+    pub fn update(&self, values: &[DataType]) -> Res<()> {
+        let t = self.tuple(values, 1)?;
+        self.writer().update(self.root, t, &self.schema).map_err(s)
+    }
+    pub fn upsert(&self, values: &[DataType]) -> Res<()> {
+        let t = self.tuple(values, 1)?;
+        self.writer().upsert(self.root, t, &self.schema).map_err(s)
+    }
+    /// Removes the row with the keys of `values`, by tuple or by its serialized keys.
+    pub fn remove(&self, values: &[DataType], by_key: bool) -> Res<()> {
+        let t = self.tuple(values, 1)?;
+        if by_key {
+            let keys = self.key_bytes(&t);
+            self.writer()
+                .remove(self.root, &keys, &self.schema)
+                .map_err(s)
+        } else {
+            self.writer()
+                .remove_tuple(self.root, &t, &self.schema)
+                .map_err(s)
+        }
+    }
+    fn key_bytes(&self, t: &Tuple) -> Box<[u8]> {
+        Box::from(&t.effective_data()[Tuple::keys_offset(self.schema.num_values())..])
+    }
+    pub fn get(&self, values: &[DataType], by_key: bool) -> Res<Option<Vec<DataType>>> {
+        let t = self.tuple(values, 1)?;
+        let mut tree = self.builder.build_tree(self.root);
+        let found = if by_key {
+            let keys = self.key_bytes(&t);
+            tree.search(&keys, &self.schema)
+        } else {
+            tree.search_tuple(&t, &self.schema)
+        }
+        .map_err(s)?;
+        match found {
+            SearchResult::Found(pos) => tree
+                .with_cell_at(pos, |b| Row::from_bytes_checked(b, &self.schema))
+                .map_err(s)?
+                .map(|r| Some(r.as_slice().to_vec()))
+                .map_err(s),
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+    pub fn scan(&self, limit: usize) -> Res<Vec<Vec<DataType>>> {
+        let mut tree = self.builder.build_tree(self.root);
+        let iter = match tree.iter_forward() {
+            Ok(i) => i,
+            Err(BtreeError::BtreeEmpty) => return Ok(Vec::new()),
+            Err(e) => return Err(s(e)),
+        };
+        let mut out = Vec::new();
+        for pos in iter {
+            let pos = pos.map_err(s)?;
+            if out.len() >= limit {
+                return Err("the scan does not end".into());
+            }
+            let row = tree
+                .with_cell_at(pos, |b| Row::from_bytes_checked(b, &self.schema))
+                .map_err(s)?
+                .map_err(s)?;
+            out.push(row.as_slice().to_vec());
+        }
+        Ok(out)
+    }
+    pub fn height(&self) -> Res<usize> {
+        self.builder.build_tree(self.root).height().map_err(s)
+    }
+    pub fn dealloc(&self) -> Res<()> {
+        self.writer().dealloc().map_err(s)
+    }
+    pub fn node(&self, store: &Store, id: u64) -> Res<PageInfo> {
+        store.node(id, &self.schema)
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Catalog.
+
+/// A row of the meta table as it is stored, visible or not.
+#[derive(Clone)]
+pub struct RelationInfo {
+    pub id: u64,
+    pub root: u64,
+    pub name: String,
+    pub is_table: bool,
+    pub xmin: u64,
+    pub xmax: Option<u64>,
+    pub next_row_id: Option<u64>,
+    pub columns: Vec<(String, String, bool)>,
+    pub num_keys: usize,
+    pub indexes: Vec<(u64, Vec<usize>)>,
+    pub tree: Tree,
+}
+
+/// The stored relations, and an entry `name -> object` for each stored entry of the name index.
+pub struct CatalogInfo {
+    pub meta_table: Tree,
+    pub meta_index: Tree,
+    pub relations: Vec<RelationInfo>,
+    pub names: Vec<(String, u64, u64, Option<u64>)>,
+}
+
+pub fn catalog(db: &Database, limit: usize) -> Res<CatalogInfo> {
+    let pager = db.pager().clone();
+    let builder = {
+        let p = pager.read();
+        BtreeBuilder::new(p.min_keys_per_page(), p.num_siblings_per_side())
+    }
+    .with_pager(pager);
+    let (table_root, index_root) = (1, 2);
+    let meta_table = Tree {
+        builder: builder.clone(),
+        root: table_root,
+        schema: meta_table_schema(),
+    };
+    let meta_index = Tree {
+        builder: builder.clone(),
+        root: index_root,
+        schema: meta_index_schema(),
+    };
+    let raw = |tree: &Tree| -> Res<Vec<(Vec<DataType>, u64, Option<u64>)>> {
+        let mut t = tree.builder.build_tree(tree.root);
+        let iter = match t.iter_forward() {
+            Ok(i) => i,
+            Err(BtreeError::BtreeEmpty) => return Ok(Vec::new()),
+            Err(e) => return Err(s(e)),
+        };
+        let mut out = Vec::new();
+        for pos in iter {
+            let pos = pos.map_err(s)?;
+            if out.len() >= limit {
+                return Err("the scan does not end".into());
+            }
+            let tuple = t.get_tuple_at_unchecked(pos, &tree.schema).map_err(s)?;
+            let row = Row::from_bytes_checked(tuple.effective_data(), &tree.schema).map_err(s)?;
+            out.push((row.as_slice().to_vec(), tuple.xmin(), tuple.xmax()));
+        }
+        Ok(out)
+    };
+    let mut relations = Vec::new();
+    for (row, xmin, xmax) in raw(&meta_table)? {
+        let rel = Relation::from_meta_table_row(Row::from(row));
+        let schema = rel.schema().clone();
+        relations.push(RelationInfo {
+            id: rel.object_id(),
+            root: rel.root(),
+            name: rel.name().to_string(),
+            is_table: schema.is_table(),
+            xmin,
+            xmax,
+            next_row_id: schema.is_table().then(|| rel.next_row_id().value()),
+            columns: schema
+                .iter_columns()
+                .map(|c| {
+                    (
+                        c.name().to_string(),
+                        format!("{:?}", c.datatype()),
+                        c.is_non_null,
+                    )
+                })
+                .collect(),
+            num_keys: schema.num_keys(),
+            indexes: schema
+                .get_indexes()
+                .iter()
+                .map(|i| (i.id(), i.indexed_column_ids().to_vec()))
+                .collect(),
+            tree: Tree {
+                builder: builder.clone(),
+                root: rel.root(),
+                schema,
+            },
+        });
+    }
+    let mut names = Vec::new();
+    for (row, xmin, xmax) in raw(&meta_index)? {
+        let name = match &row[0] {
+            DataType::Blob(b) => b.to_string_lossy().unwrap_or_default(),
+            other => return Err(format!("name of unexpected kind: {other:?}")),
+        };
+        let id = match &row[1] {
+            DataType::BigUInt(v) => v.value(),
+            other => return Err(format!("object id of unexpected kind: {other:?}")),
+        };
+        names.push((name, id, xmin, xmax));
+    }
+    Ok(CatalogInfo {
+        meta_table,
+        meta_index,
+        relations,
+        names,
+    })
+}
+
+/// The rows a tree stores with the transactions that inserted and deleted them, visible or not.
+pub fn raw_rows(
+    tree: &Tree,
+    limit: usize,
+) -> Res<Vec<(Vec<DataType>, u64, Option<u64>)>> {
+    let mut t = tree.builder.build_tree(tree.root);
+    let iter = match t.iter_forward() {
+        Ok(i) => i,
+        Err(BtreeError::BtreeEmpty) => return Ok(Vec::new()),
+        Err(e) => return Err(s(e)),
+    };
+    let mut out = Vec::new();
+    for pos in iter {
+        let pos = pos.map_err(s)?;
+        if out.len() >= limit {
+            return Err("the scan does not end".into());
+        }
+        let tuple = t.get_tuple_at_unchecked(pos, &tree.schema).map_err(s)?;
+        let row = Row::from_bytes_checked(tuple.effective_data(), &tree.schema).map_err(s)?;
+        out.push((row.as_slice().to_vec(), tuple.xmin(), tuple.xmax()));
+    }
+    Ok(out)
+}
+
+/// Transactions that are still active, as the coordinator knows them.
+pub fn active_transactions(db: &Database) -> HashSet<u64> {
+    db.coordinator()
+        .transaction_set(crate::multithreading::coordinator::TransactionState::Active)
+}
-- 
2.43.0


From 9715a7bdac0b4a02524224d96f1094c43b79f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 06/40] fix: booleans can be written anywhere in a row

---
 crates/axmos-db/src/types/bool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index 23d3533..fbc118e 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -286,7 +286,7 @@ impl Hashable for Bool {
 
 impl SerializableType for Bool {
     fn write_to(&self, writer: &mut [u8], cursor: usize) -> SerializationResult<usize> {
-        writer[cursor..].copy_from_slice(&[self.0 as u8]);
+        writer[cursor] = self.0 as u8;
         Ok(cursor + 1)
     }
 }
-- 
2.43.0


From bcdbf4a3e4b3ea71a5d5262d430394635b1c01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 07/40] fix: a record of the advertised maximum size fits a log
 block

---
 crates/axmos-db/src/storage/wal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index 24f9bfe..d1fd095 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -408,14 +408,14 @@ pub(crate) type WalBlock = MemBlock<BlockHeader>;
 
 impl AvailableSpace for BlockZero {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity())
+        self.capacity()
             .saturating_sub(self.metadata().block_header.used_bytes as usize)
     }
 }
 
 impl AvailableSpace for WalBlock {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity()).saturating_sub(self.metadata().used_bytes as usize)
+        self.capacity().saturating_sub(self.metadata().used_bytes as usize)
     }
 }
 
-- 
2.43.0


From 6968c654862554b869bc63c80131b5a0171c097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 08/40] fix: a log whose first force was cut short opens as an
 empty log

---
 crates/axmos-db/src/io/wal.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 31b3580..b2e81bd 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -64,12 +64,15 @@ impl FileOperations for WriteAheadLog {
         file.seek(SeekFrom::Start(0))?;
         file.read_exact(header_buf.as_mut())?;
 
-        // Usar el block_size del archivo, o el default si es 0
+        // Block zero is written last. Without it, nothing in the file was ever part of the log.
         let block_size = header_buf.metadata().wal_header.block_size as usize;
-        let block_size = if block_size == 0 {
-            default_block_size
+        let (header_buf, block_size) = if block_size == 0 {
+            (
+                BlockZero::alloc(0, default_block_size),
+                default_block_size,
+            )
         } else {
-            block_size
+            (header_buf, block_size)
         };
 
         Ok(Self {
-- 
2.43.0


From 259da8d35f95bf6588138b0698a20335187b8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 09/40] fix: copied cells record their own size

---
 crates/axmos-db/src/storage/cell.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/storage/cell.rs b/crates/axmos-db/src/storage/cell.rs
index dd2bb7a..8f12fbf 100644
--- a/crates/axmos-db/src/storage/cell.rs
+++ b/crates/axmos-db/src/storage/cell.rs
@@ -379,10 +379,11 @@ impl OwnedCell {
         let mut payload = Payload::alloc_aligned(cell.len()).unwrap();
         payload.effective_data_mut()[..cell.len()].copy_from_slice(cell.effective_data());
 
-        Self {
-            header: *cell.metadata(),
-            payload,
-        }
+        // The copy drops any slack the original cell had.
+        let mut header = *cell.metadata();
+        header.size = payload.capacity() as u64;
+
+        Self { header, payload }
     }
 
     /// Creates an OwnedCell from a CellMut by copying its data.
@@ -390,10 +391,11 @@ impl OwnedCell {
         let mut payload = Payload::alloc_aligned(cell.len()).unwrap();
         payload.effective_data_mut()[..cell.len()].copy_from_slice(cell.effective_data());
 
-        Self {
-            header: *cell.metadata(),
-            payload,
-        }
+        // The copy drops any slack the original cell had.
+        let mut header = *cell.metadata();
+        header.size = payload.capacity() as u64;
+
+        Self { header, payload }
     }
 
     #[inline]
-- 
2.43.0


From ba678141469139d9b70d542830297d5b6f6462dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 10/40] fix: replacing, draining and defragmenting cells of a
 page no longer overwrite other cells

---
 crates/axmos-db/src/storage/core/buffer.rs | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..2af56d4 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -826,7 +826,8 @@ where
                 .copy_from_slice(&new_cell.full_data());
             *old_cell.metadata_mut() = *new_cell.metadata();
 
-            self.free_space_pointer_down(free_bytes);
+            // The gained bytes are a hole between cells: only defragmentation can join them
+            // to the contiguous free space.
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
@@ -894,7 +895,13 @@ where
                 let cell_ref = CellRef::from_raw(cell);
                 let size = cell_ref.total_size();
                 destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
+                // Both ranges overlap when the cell moves by less than its size.
+                let base = self.data.cast::<u8>().as_ptr();
+                std::ptr::copy(
+                    base.add(offset as usize),
+                    base.add(destination_offset),
+                    size as usize,
+                );
             }
             self.slot_array_mut()[i] = destination_offset as u16;
         }
@@ -935,16 +942,16 @@ where
                         .sum::<usize>() as u32,
                 );
 
-                self.free_space_pointer_down(
-                    (start..slot_index)
-                        .map(|slot| self.cell(slot).total_size())
-                        .sum::<usize>() as u32,
-                );
-
                 self.slot_array_mut().copy_within(slot_index.., start);
 
                 self.remove_slots(slot_index - start);
 
+                // Cells are not stored in slot order. Only an empty page has its content area
+                // contiguously free, otherwise defragmentation has to reclaim it.
+                if self.num_slots() == 0 {
+                    self.reset_free_space_pointer(self.capacity() as u32);
+                }
+
                 None
             }
         })
-- 
2.43.0


From 234fa547debe4056ecb0cc59ef503a85c75a976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 11/40] fix: tree separators hold only keys and route
 correctly, cell distribution accounts for what it moves

---
 crates/axmos-db/src/storage/tuple.rs  |  21 ++++
 crates/axmos-db/src/tree/bplustree.rs | 144 +++++++++++++++-----------
 2 files changed, 106 insertions(+), 59 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 36caccf..58b92cb 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -522,6 +522,27 @@ impl<'a> TupleReader<'a> {
         })
     }
 
+    /// Builds a tuple with the keys of the given one and no values.
+    pub(crate) fn keys_only(&self, data: &[u8]) -> TupleResult<Tuple> {
+        let bitmap_size = null_bitmap_size(self.schema.num_values());
+        let (header, header_end) = TupleHeader::read_from(data, 0);
+        let bitmap_end = header_end + bitmap_size;
+
+        let mut keys_end = bitmap_end;
+        for key_col in self.schema.iter_keys() {
+            let (_, next) = key_col.datatype().deserialize(data, keys_end)?;
+            keys_end = next;
+        }
+
+        let mut keys = Payload::alloc_aligned(keys_end)?;
+        let buffer = keys.effective_data_mut();
+        buffer.copy_from_slice(&data[..keys_end]);
+        TupleHeader::new(0, header.xmin(), None).write_to(buffer, 0);
+        buffer[header_end..bitmap_end].fill(u8::MAX);
+
+        Ok(Tuple { data: keys })
+    }
+
     /// Parses a specific version by traversing deltas.
     fn parse_version(&self, data: &[u8], target_version: u32) -> TupleResult<TupleLayout> {
         let mut layout = self.parse_last_version(data)?;
diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..0e5e137 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -32,6 +32,9 @@ use std::{
 
 const MINIMUM_KEYS_PER_PAGE: usize = 3;
 
+/// Separators always get at least this many bytes of their page.
+const MINIMUM_SEPARATOR_SIZE: usize = 128;
+
 pub(crate) enum SearchResult {
     Found(BtreePagePosition),
     NotFound(BtreePagePosition),
@@ -772,7 +775,7 @@ where
         };
 
         // Check the current page status and call balance if required.
-        self.balance(page_id)?;
+        self.balance(page_id, schema)?;
         Ok(())
     }
 
@@ -801,7 +804,7 @@ where
         // Deallocate the cell
         deallocator.deallocate_cell(old_cell)?;
 
-        self.balance(page_id)?;
+        self.balance(page_id, schema)?;
 
         Ok(())
     }
@@ -888,7 +891,7 @@ where
                 let deallocator = CellDeallocator::new(self.pager.clone());
                 deallocator.deallocate_cell(cell)?;
 
-                self.balance(page_id)?;
+                self.balance(page_id, schema)?;
 
                 Ok(())
             }
@@ -921,7 +924,7 @@ where
                 let deallocator = CellDeallocator::new(self.pager.clone());
                 deallocator.deallocate_cell(cell)?;
 
-                self.balance(page_id)?;
+                self.balance(page_id, schema)?;
 
                 Ok(())
             }
@@ -996,18 +999,37 @@ where
             })
             .unwrap_or(cells.len().div_ceil(2));
 
-        // Divide the vector
+        // Divide the vector, leaving something at each side.
+        let split_index = split_index.clamp(1, cells.len().saturating_sub(1).max(1));
         let right = cells.split_off(split_index);
         let left = cells;
 
         (left, right)
     }
 
+    /// Builds the separator that precedes the given leaf cell on interior pages.
+    ///
+    /// It has only the keys of the cell, with an overflow chain of its own if they need one: the leaf is free to change or remove the cell afterwards.
+    /// Its size is bounded so that a balanced interior page has space for the separators of a whole rebalance.
+    fn build_separator(&self, cell: &OwnedCell, schema: &Schema) -> BtreeResult<OwnedCell> {
+        let mut reassembler = Reassembler::new(self.pager.clone());
+        reassembler.reassemble(cell.as_cell_ref())?;
+        let keys = TupleReader::from_schema(schema).keys_only(&reassembler.into_boxed_slice())?;
+
+        let page_size = self.pager.write().page_size();
+        let max_separator_size = (BtreePage::usable_space(page_size)
+            / (8 * (self.num_siblings_per_side + 1)))
+            .max(MINIMUM_SEPARATOR_SIZE);
+
+        let builder = CellBuilder::new(max_separator_size, self.min_keys, self.pager.clone());
+        Ok(builder.build_cell(keys, schema)?)
+    }
+
     /// Balance deeper algorithm inspired by SQLite [balance deeper].
     /// Balance deeper is the opposite of balance shallower in the sense that it will allocate two new nodes when the root becomes full, increasing the depth of the tree by one.
     /// The cell in the middle gets propagated upwards.
     /// We also need to fix the pointers in the frontiers between the two new nodes to maintain the leaf node's linked list.
-    fn balance_deeper(&mut self) -> BtreeResult<()> {
+    fn balance_deeper(&mut self, schema: &Schema) -> BtreeResult<()> {
         let page_size = self.pager.write().page_size();
         // Allocate new left and right childs
         let new_left = self.pager.write().allocate_page::<BtreePage>()?;
@@ -1028,9 +1050,9 @@ where
         let (mut left_cells, right_cells) = Self::split_cells(cells);
 
         // Choose the appropiate cell to propagate based on the type of page.
-        // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
+        // The cells of a leaf stay where they are (this is a Bplustree, so the data must reside on the leaf pages), so a separator is built from their keys.
         let mut propagated_cell = if was_leaf {
-            right_cells.first().unwrap().clone()
+            self.build_separator(right_cells.first().unwrap(), schema)?
         } else {
             left_cells.last().unwrap().clone()
         };
@@ -1132,24 +1154,30 @@ where
         // Account for underflow towards the right.
         // At least two pages are needed in order to be able to account for that underflow.
         if number_of_cells_per_page.len() >= 2 {
-            // The divider cell will be the first cell of the last page.
-            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap() - 1;
+            // The divider cell is the first cell of the page being filled.
+            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap();
 
             // Iterate backwards, moving cells towards the right.
             for i in (1..=(total_size_in_each_page.len() - 1)).rev() {
-                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size) {
+                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size)
+                    && number_of_cells_per_page[i - 1] > 1
+                {
+                    let moved_size = cells[divider_cell - 1].storage_size();
                     number_of_cells_per_page[i] += 1;
-                    total_size_in_each_page[i] += &cells[divider_cell].storage_size();
+                    total_size_in_each_page[i] += moved_size;
 
                     number_of_cells_per_page[i - 1] -= 1;
-                    total_size_in_each_page[i - 1] -= &cells[divider_cell - 1].storage_size();
+                    total_size_in_each_page[i - 1] -= moved_size;
                     divider_cell -= 1;
                 }
+                divider_cell -= number_of_cells_per_page[i - 1];
             }
 
             // Second page has more data than the first one, make a little
             // adjustment to keep it left biased.
-            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size) {
+            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size)
+                && number_of_cells_per_page[1] > 1
+            {
                 number_of_cells_per_page[0] += 1;
                 number_of_cells_per_page[1] -= 1;
             };
@@ -1162,7 +1190,7 @@ where
     /// The description of this algorithm can be found on original SQLite docs: https://sqlite.org/btreemodule.html
     /// The main idea is that you have to take as many pages as specified, recompute a balanced distribution, and redistribute the cells accordingly.
     /// Afterwards, propagate the pointers as required.
-    fn balance(&mut self, page_id: PageId) -> BtreeResult<()> {
+    fn balance(&mut self, page_id: PageId, schema: &Schema) -> BtreeResult<()> {
         let is_root = self.is_root(page_id);
         // Read the page size from the pager.
         let page_size = self.pager.write().page_size();
@@ -1180,7 +1208,7 @@ where
 
         // Root overflow.
         if is_root && matches!(status, NodeStatus::Overflow) {
-            return self.balance_deeper();
+            return self.balance_deeper(schema);
         };
 
         // Pop the last visited position from the stack.
@@ -1191,14 +1219,15 @@ where
             .ok_or(BtreeError::TraversalEmpty)?;
 
         // Internal/Leaf node Overflow/Underflow.
-        self.balance_siblings(page_id, &parent_position)?;
+        self.balance_siblings(page_id, &parent_position, schema)?;
+
+        let parent_page_id = parent_position.entry();
 
-        // No need to fuck anything else up.
+        // No need to fuck anything else up, except that the parent got a new separator.
         if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
-            return Ok(());
+            return self.balance(parent_page_id, schema);
         };
 
-        let parent_page_id = parent_position.entry();
         let (parent_prev, last_parent_slot, parent_next) = {
             let parent_page = self.get_page_mut(parent_page_id)?;
 
@@ -1272,7 +1301,7 @@ where
         let slot_to_remove = siblings[0].slot();
 
         // Make copies of cells in order.
-        for (i, sibling) in siblings.iter().enumerate() {
+        for sibling in siblings.iter() {
             // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
             let sibling_page_id = sibling.entry();
 
@@ -1282,38 +1311,26 @@ where
             // Extract this node's cells and return the right child.
             let right_child = page.right_child();
 
-            // If we are not the last sibling we can safely link with the next in the chain.
-            // If we are the last sibling we use the right frontier.
-            // If there is no right frontier we are the parent's right most and there is no [next].
-            let next_sibling = siblings
-                .get(i + 1)
-                .map(|s| s.entry())
-                .or(right_frontier_in_parent.map(|f| f.entry()));
-
-            // If the right child is different from None and the next sibling too,
-            // extract the first cell of the first child on our next sibling and allocate a new cell.
-            // This always happens on interior nodes rebalancing, as right_child is not set on leaf nodes.
-            if let Some(right_most_child_id) = right_child
-                && let Some(next_id) = next_sibling
-            {
-                let next_page = self.get_page_mut(next_id)?;
-
-                // Obtain the first child
-                if let Some(first_child_id) = next_page.child(0) {
-                    let child_page = self.get_page_mut(first_child_id)?;
-                    let mut cell = child_page.owned_cell(0);
-
-                    // Make the copied cell point to our right child and push it to the chain.
-                    cell.set_left_child(Some(right_most_child_id));
-                    cells.push_back(cell);
-                };
-            };
-
-            let parent_page = self.get_page_mut(parent_page_id)?;
             // Remove our entry from the parent node.
-            if slot_to_remove < parent_page.num_slots() {
-                parent_page.remove(slot_to_remove)?;
+            let parent_page = self.get_page_mut(parent_page_id)?;
+            let separator = if slot_to_remove < parent_page.num_slots() {
+                Some(parent_page.remove(slot_to_remove)?)
+            } else {
+                None
             };
+
+            match (separator, right_child) {
+                // On interior nodes the separator that followed us in the parent moves down to precede the first cell of our next sibling. It points to our right child.
+                (Some(mut separator), Some(right_most_child_id)) => {
+                    separator.set_left_child(Some(right_most_child_id));
+                    cells.push_back(separator);
+                }
+                // On leaf nodes new separators get built from the redistributed cells.
+                (Some(separator), None) => {
+                    CellDeallocator::new(self.pager.clone()).deallocate_cell(separator)?;
+                }
+                (None, _) => {}
+            }
         }
 
         // Take the last right child of the siblings chain.
@@ -1408,9 +1425,8 @@ where
             //
             // Note that the last node's  next is the right frontier, which gets propagated afterwards.
             if i < siblings.len() - 1 && is_leaf {
-                // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = cells.front().unwrap().clone();
-                current_iter_page.set_right_child(divider.left_child());
+                // Build a separator from the next node's front cell, make it point towards ourselves and propagate.
+                let mut divider = self.build_separator(cells.front().unwrap(), schema)?;
                 divider.set_left_child(Some(current_iter_id));
                 let parent_page = self.get_page_mut(parent_page_id)?;
                 parent_page.insert(current_iter_slot, divider)?;
@@ -1443,7 +1459,8 @@ where
             let last_sibling_id = last_sibling.entry();
             let last_sibling_slot = last_sibling.slot();
 
-            let mut divider_cell = page.owned_cell(0);
+            let first_cell = page.owned_cell(0);
+            let mut divider_cell = self.build_separator(&first_cell, schema)?;
             divider_cell.set_left_child(Some(last_sibling_id));
             let parent_page = self.get_page_mut(parent_page_id)?;
             parent_page.insert(last_sibling_slot, divider_cell)?;
@@ -1471,7 +1488,7 @@ where
         };
 
         // Done, propagate upwards.
-        self.balance(parent_page_id)?;
+        self.balance(parent_page_id, schema)?;
 
         Ok(())
     }
@@ -1573,6 +1590,7 @@ where
         target_slot: usize,
         separator_slot: usize,
         direction: BorrowDirection,
+        schema: &Schema,
     ) -> BtreeResult<()> {
         // Size occupied by the cell that would go to the target node.
         let cell_size = self
@@ -1604,12 +1622,14 @@ where
         // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
         let divider = match direction {
             BorrowDirection::RightToLeft => {
-                let mut separator = self.get_page_mut(source_page_id)?.owned_cell(0);
+                let first_cell = self.get_page_mut(source_page_id)?.owned_cell(0);
+                let mut separator = self.build_separator(&first_cell, schema)?;
                 separator.set_left_child(Some(target_page_id));
                 separator
             }
             BorrowDirection::LeftToRight => {
-                let mut separator = self.get_page_mut(target_page_id)?.owned_cell(0);
+                let first_cell = self.get_page_mut(target_page_id)?.owned_cell(0);
+                let mut separator = self.build_separator(&first_cell, schema)?;
                 separator.set_left_child(Some(source_page_id));
                 separator
             }
@@ -1619,7 +1639,8 @@ where
         if parent_page.num_slots() == separator_slot {
             parent_page.set_right_child(divider.left_child());
         } else {
-            parent_page.replace(separator_slot, divider)?;
+            let old_separator = parent_page.replace(separator_slot, divider)?;
+            CellDeallocator::new(self.pager.clone()).deallocate_cell(old_separator)?;
         };
 
         Ok(())
@@ -1631,6 +1652,7 @@ where
         &mut self,
         page_id: PageId,
         parent_pos: &BtreePagePosition,
+        schema: &Schema,
     ) -> BtreeResult<()> {
         let is_leaf = self.get_page_mut(page_id)?.is_leaf();
 
@@ -1668,6 +1690,7 @@ where
                         target_slot,
                         separator_slot,
                         BorrowDirection::RightToLeft,
+                        schema,
                     )?;
                 };
 
@@ -1690,6 +1713,7 @@ where
                         0,
                         separator_slot,
                         BorrowDirection::LeftToRight,
+                        schema,
                     )?;
                 };
                 Ok(())
@@ -1714,6 +1738,7 @@ where
                         target_slot,
                         separator_slot,
                         BorrowDirection::RightToLeft,
+                        schema,
                     )?;
                 };
 
@@ -1736,6 +1761,7 @@ where
                         0,
                         separator_slot,
                         BorrowDirection::LeftToRight,
+                        schema,
                     )?;
                 };
 
-- 
2.43.0


From 1f8b535ca6998ad058b72fc0abffa213767e24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 12/40] fix: page cache eviction visits every frame, keeps
 pinned pages and its capacity

---
 crates/axmos-db/src/io/cache.rs | 43 ++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..096dc59 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -12,23 +12,23 @@ use std::{
 pub(crate) struct MemoryStats {
     pub cache_hits: Cell<u32>,
     pub cache_misses: Cell<u32>,
-    pub frames_evicted: Cell<u16>,
+    pub frames_evicted: Cell<u32>,
 }
 
 impl MemoryStats {
     fn cache_hit(&self) {
         let current = self.cache_hits.get();
-        self.cache_hits.set(current + 1);
+        self.cache_hits.set(current.saturating_add(1));
     }
 
     fn cache_miss(&self) {
         let current = self.cache_misses.get();
-        self.cache_misses.set(current + 1);
+        self.cache_misses.set(current.saturating_add(1));
     }
 
     fn eviction(&self) {
         let current = self.frames_evicted.get();
-        self.frames_evicted.set(current + 1);
+        self.frames_evicted.set(current.saturating_add(1));
     }
 }
 impl Display for MemoryStats {
@@ -115,7 +115,11 @@ impl PageCache {
 
     /// Removes a frame from the cache for deallocation.
     pub(crate) fn remove(&mut self, id: PageId) -> Option<MemFrame> {
-        self.frames.swap_remove(&id).filter(|frame| frame.is_free())
+        // A frame in use stays cached: whoever holds it expects its changes to reach the disk.
+        if !self.frames.get(&id)?.is_free() {
+            return None;
+        }
+        self.frames.swap_remove(&id)
     }
 
     pub fn evict(&mut self) -> io::Result<Option<MemFrame>> {
@@ -123,28 +127,24 @@ impl PageCache {
             return Ok(None);
         };
 
-        let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
-            if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
-                if frame.is_free() {
-                    self.stats.eviction();
-
-                    let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+        // Look at every frame once, starting where the last search ended.
+        for _ in 0..self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            }
 
-                    found_victim = Some(victim);
-                    break;
-                }
-            };
+            if self.frames[self.cursor].is_free() {
+                self.stats.eviction();
+                return Ok(self
+                    .frames
+                    .swap_remove_index(self.cursor)
+                    .map(|(_, victim)| victim));
+            }
 
             // Not evictable.
             self.cursor += 1;
         }
 
-        if found_victim.is_some() {
-            return Ok(found_victim);
-        };
-
         Err(IoError::new(
             ErrorKind::OutOfMemory,
             "Buffer pool got out of memory for new frames.",
@@ -180,7 +180,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
-- 
2.43.0


From f775583615bccd9306e009dbce298170e9b3d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 13/40] fix: reading cells during a scan no longer pins every
 visited page

---
 crates/axmos-db/src/tree/bplustree.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 0e5e137..8563faf 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -534,17 +534,24 @@ where
         let page_id = pos.entry();
         let slot = pos.slot();
         let mut reassembler = Reassembler::new(self.get_pager().clone());
+        // A page that is only visited here is not kept latched (and pinned) afterwards.
+        let held = self.accessor()?.contains(page_id);
         let page = self.get_page(page_id)?;
         let cell = page.cell(slot);
 
         let result = if cell.metadata().is_overflow() {
-            reassembler.reassemble(cell)?;
-            f(reassembler.into_boxed_slice().as_ref())
+            reassembler
+                .reassemble(cell)
+                .map(|_| f(reassembler.into_boxed_slice().as_ref()))
         } else {
-            f(cell.effective_data())
+            Ok(f(cell.effective_data()))
         };
 
-        Ok(result)
+        if !held {
+            self.accessor_mut()?.release(page_id);
+        }
+
+        Ok(result?)
     }
 
     /// Batch process multiple positions, grouping by page for efficiency.
-- 
2.43.0


From 5bb9e0dbc659e3d7c9431ab5ccee7a22df0e4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 14/40] fix: the last sequence number of a log whose force was
 cut short covers its last block

---
 crates/axmos-db/src/io/wal.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index b2e81bd..93667d3 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -66,7 +66,7 @@ impl FileOperations for WriteAheadLog {
 
         // Block zero is written last. Without it, nothing in the file was ever part of the log.
         let block_size = header_buf.metadata().wal_header.block_size as usize;
-        let (header_buf, block_size) = if block_size == 0 {
+        let (mut header_buf, block_size) = if block_size == 0 {
             (
                 BlockZero::alloc(0, default_block_size),
                 default_block_size,
@@ -75,6 +75,17 @@ impl FileOperations for WriteAheadLog {
             (header_buf, block_size)
         };
 
+        // A force that was cut short may have written the last block but not block zero.
+        let last_block = header_buf.metadata().wal_header.total_blocks.saturating_sub(1);
+        if last_block > 0 {
+            let mut block = WalBlock::new(block_size);
+            file.seek(SeekFrom::Start(last_block * block_size as u64))?;
+            file.read_exact(block.as_mut())?;
+            let last_lsn = block.metadata().block_last_lsn;
+            let wal_header = &mut header_buf.metadata_mut().wal_header;
+            wal_header.global_last_lsn = wal_header.global_last_lsn.max(last_lsn);
+        }
+
         Ok(Self {
             header: header_buf,
             current_block: None, // If needed, will be allocated on push.
-- 
2.43.0


From 4df2dde124ad5252c97ebe0edb3a1bce0be0f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 15/40] hooks: files outside of a simulation are real files
 (cfg axmos_verif)

---
 crates/axmos-db/src/verif/fs.rs | 81 +++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/crates/axmos-db/src/verif/fs.rs b/crates/axmos-db/src/verif/fs.rs
index c217ade..fbc6036 100644
--- a/crates/axmos-db/src/verif/fs.rs
+++ b/crates/axmos-db/src/verif/fs.rs
@@ -2,20 +2,31 @@
 use super::{Env, env};
 use std::{
     io::{self, Read, Seek, SeekFrom, Write},
-    os::fd::{AsRawFd, RawFd},
+    os::{
+        fd::{AsRawFd, RawFd},
+        unix::fs::FileExt,
+    },
     path::Path,
 };
 
-fn sim() -> &'static dyn Env {
-    env().expect("file access outside of a simulation")
-}
-
+/// A file of the simulation or, outside of one, a real file.
 #[derive(Debug)]
 pub struct File {
-    id: u64,
+    inner: Inner,
     pos: u64,
 }
 
+#[derive(Debug)]
+enum Inner {
+    Simulated(u64),
+    Real(std::fs::File),
+}
+
+/// Files of a simulation are only used by the threads of the simulation.
+fn sim() -> &'static dyn Env {
+    env().expect("simulated file used outside of the simulation")
+}
+
 #[derive(Debug)]
 pub struct Metadata {
     len: u64,
@@ -65,8 +76,18 @@ impl OpenOptions {
         self
     }
     pub fn open(&self, path: impl AsRef<Path>) -> io::Result<File> {
-        let id = sim().fs_open(path.as_ref(), self.create, self.truncate)?;
-        Ok(File { id, pos: 0 })
+        let inner = match env() {
+            Some(e) => Inner::Simulated(e.fs_open(path.as_ref(), self.create, self.truncate)?),
+            None => Inner::Real(
+                std::fs::OpenOptions::new()
+                    .read(true)
+                    .write(true)
+                    .create(self.create)
+                    .truncate(self.truncate)
+                    .open(path)?,
+            ),
+        };
+        Ok(File { inner, pos: 0 })
     }
 }
 
@@ -74,26 +95,41 @@ impl File {
     pub fn open(path: impl AsRef<Path>) -> io::Result<File> {
         OpenOptions::new().read(true).open(path)
     }
+    fn size(&self) -> io::Result<u64> {
+        match &self.inner {
+            Inner::Simulated(id) => sim().fs_len(*id),
+            Inner::Real(f) => Ok(f.metadata()?.len()),
+        }
+    }
     pub fn metadata(&self) -> io::Result<Metadata> {
         Ok(Metadata {
-            len: sim().fs_len(self.id)?,
+            len: self.size()?,
             blksize: 4096,
         })
     }
     pub fn set_len(&self, len: u64) -> io::Result<()> {
-        sim().fs_set_len(self.id, len)
+        match &self.inner {
+            Inner::Simulated(id) => sim().fs_set_len(*id, len),
+            Inner::Real(f) => f.set_len(len),
+        }
     }
     pub fn sync_all(&self) -> io::Result<()> {
-        sim().fs_sync(self.id)
+        match &self.inner {
+            Inner::Simulated(id) => sim().fs_sync(*id),
+            Inner::Real(f) => f.sync_all(),
+        }
     }
     pub fn sync_data(&self) -> io::Result<()> {
-        sim().fs_sync(self.id)
+        self.sync_all()
     }
 }
 
 impl Read for File {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let n = sim().fs_read(self.id, self.pos, buf)?;
+        let n = match &self.inner {
+            Inner::Simulated(id) => sim().fs_read(*id, self.pos, buf)?,
+            Inner::Real(f) => f.read_at(buf, self.pos)?,
+        };
         self.pos += n as u64;
         Ok(n)
     }
@@ -101,7 +137,10 @@ impl Read for File {
 
 impl Write for File {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        let n = sim().fs_write(self.id, self.pos, buf)?;
+        let n = match &self.inner {
+            Inner::Simulated(id) => sim().fs_write(*id, self.pos, buf)?,
+            Inner::Real(f) => f.write_at(buf, self.pos)?,
+        };
         self.pos += n as u64;
         Ok(n)
     }
@@ -115,7 +154,7 @@ impl Seek for File {
         let target = match pos {
             SeekFrom::Start(p) => Some(p),
             SeekFrom::Current(d) => self.pos.checked_add_signed(d),
-            SeekFrom::End(d) => sim().fs_len(self.id)?.checked_add_signed(d),
+            SeekFrom::End(d) => self.size()?.checked_add_signed(d),
         };
         match target {
             Some(p) => {
@@ -133,12 +172,18 @@ impl AsRawFd for File {
     }
 }
 
-pub fn create_dir_all(_path: impl AsRef<Path>) -> io::Result<()> {
-    Ok(())
+pub fn create_dir_all(path: impl AsRef<Path>) -> io::Result<()> {
+    match env() {
+        Some(_) => Ok(()),
+        None => std::fs::create_dir_all(path),
+    }
 }
 
 pub fn remove_file(path: impl AsRef<Path>) -> io::Result<()> {
-    sim().fs_remove(path.as_ref())
+    match env() {
+        Some(e) => e.fs_remove(path.as_ref()),
+        None => std::fs::remove_file(path),
+    }
 }
 
 pub fn exists(path: &Path) -> bool {
-- 
2.43.0


From 4f63de9b975f9de0f00174faa5c872bd410a1a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 16/40] fix: snapshots and commits are taken atomically, and
 the first snapshots do not see later transactions

---
 .../src/multithreading/coordinator.rs         | 93 ++++++++++++++-----
 1 file changed, 70 insertions(+), 23 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index ef74b2c..87594ae 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -376,27 +376,51 @@ impl TransactionCoordinator {
 
     /// Create a snapshot of the database state for a given transaction id.
     pub fn snapshot(&self, txid: TransactionId) -> TransactionResult<Snapshot> {
-        // Collect active transaction ids
-        let active: HashSet<TransactionId> = self.transaction_set(TransactionState::Active);
+        let txs = self.transactions.read();
+        Ok(self.snapshot_with(&txs, txid))
+    }
+
+    /// Create a snapshot from a locked transaction table.
+    fn snapshot_with(
+        &self,
+        txs: &HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> Snapshot {
+        let with_state = |wanted: fn(TransactionState) -> bool| -> HashSet<TransactionId> {
+            txs.iter()
+                .filter(|(_, entry)| wanted(entry.state()))
+                .map(|(id, _)| *id)
+                .collect()
+        };
+
+        // Collect active transaction ids. A transaction which is committing has not committed yet.
+        let active = with_state(|state| {
+            matches!(
+                state,
+                TransactionState::Active | TransactionState::Committing
+            )
+        });
 
         // Collect tracked aborted transaction ids
-        let aborted: HashSet<TransactionId> = self.transaction_set(TransactionState::Aborted);
+        let aborted = with_state(|state| state == TransactionState::Aborted);
 
         // xmin is the smallest active transaction ID (or our ID if none active)
         let xmin = active.iter().min().copied().unwrap_or(txid);
 
-        // xmax is the last committed transaction from PageZero
-        let xmax = {
-            let last = self.get_last_committed();
-            if last == 0 { None } else { Some(last) }
-        };
+        // xmax is the last committed transaction from PageZero. The ids of the transactions that
+        // have not committed yet are all above it, or are among the active or the aborted ones.
+        let xmax = Some(self.get_last_committed());
 
-        Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
+        Snapshot::new(txid, xmin, xmax, active, aborted)
     }
 
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
+        // The id, the snapshot and the entry in the table have to be taken at the same instant,
+        // otherwise a transaction that begins or commits meanwhile may be missing in the snapshot.
+        let mut txs = self.transactions.write();
+
         // Atomically get and increment the transaction ID in PageZero
         let txid = {
             let mut pager = self.pager.write();
@@ -406,16 +430,14 @@ impl TransactionCoordinator {
         };
 
         // Create snapshot
-        let snapshot = self.snapshot(txid)?;
+        let snapshot = self.snapshot_with(&txs, txid);
 
         let start_ts = self.commit_counter.load(Ordering::SeqCst);
 
         // Insert new transaction entry
-        {
-            let mut txs = self.transactions.write();
-            let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
-            txs.insert(txid, entry);
-        }
+        let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
+        txs.insert(txid, entry);
+        drop(txs);
 
         Ok(TransactionHandle {
             id: txid,
@@ -430,25 +452,40 @@ impl TransactionCoordinator {
     /// Checks that no tuple in write set was modified by another committed transaction
     /// If validation passes, marks the transaction as committed
     pub fn commit(&self, txid: TransactionId) -> TransactionResult<()> {
+        self.commit_with(txid, || Ok(()))
+    }
+
+    /// Validate and commit a transaction, making the commit durable with the provided function
+    /// between the validation and the moment in which the transaction becomes visible.
+    pub fn commit_with<F>(&self, txid: TransactionId, log: F) -> TransactionResult<()>
+    where
+        F: FnOnce() -> TransactionResult<()>,
+    {
         // Perform validation
         match self.validate_write_set(txid)? {
             ValidationResult::Allowed => {
-                self.set_transaction_state(txid, TransactionState::Committed)?;
+                if let Err(err) = log() {
+                    self.abort(txid)?;
+                    return Err(err);
+                }
+
+                // The state and the last committed id have to change together: a snapshot takes
+                // both of them.
+                let mut txs = self.transactions.write();
+                let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
+                entry.state = TransactionState::Committed;
 
                 // Update last_committed in PageZero if this is the highest committed txid
-                {
-                    let mut pager = self.pager.write();
-                    let current_last = pager.get_last_committed_transaction();
-                    if txid > current_last {
-                        pager.set_last_committed_transaction(txid);
-                    }
+                let mut pager = self.pager.write();
+                if txid > pager.get_last_committed_transaction() {
+                    pager.set_last_committed_transaction(txid);
                 }
 
                 Ok(())
             }
 
             ValidationResult::Conflict(id) => {
-                self.set_transaction_state(txid, TransactionState::Aborted)?;
+                self.abort(txid)?;
                 Err(TransactionError::WriteWriteConflict(txid, id))
             }
         }
@@ -713,6 +750,16 @@ impl TransactionHandle {
         Ok(())
     }
 
+    pub(crate) fn commit_with<F>(&mut self, log: F) -> TransactionResult<()>
+    where
+        F: FnOnce() -> TransactionResult<()>,
+    {
+        match self.commit_handle.take() {
+            Some(handle) => handle.coordinator.commit_with(self.id, log),
+            None => Err(TransactionError::TransactionNotStarted),
+        }
+    }
+
     pub fn abort(&mut self) -> TransactionResult<()> {
         if let Some(handle) = self.commit_handle.take() {
             handle.abort(self.id())?;
-- 
2.43.0


From 3d2380673b4ed4baa0d9f56a54df530d9bbb15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 17/40] fix: rolling back logs an abort, a commit is logged
 only once it can no longer fail, and a session ends once

---
 crates/axmos-db/src/lib.rs             | 36 +++++++++++++++-----------
 crates/axmos-db/src/runtime/context.rs | 35 ++++++++++++++++++++++---
 crates/axmos-db/src/tcp/session.rs     | 30 +++++++++++++++------
 3 files changed, 75 insertions(+), 26 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 20ee4be..cf2699c 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -59,7 +59,7 @@ use crate::{
         runner::{BoxError, SharedTaskRunner, TaskError},
     },
     runtime::{
-        MultiQueryRunner, QueryError, QueryResult, QueryRunner, RuntimeError,
+        MultiQueryRunner, QueryError, QueryResult, QueryRunner, QueryRunnerResult, RuntimeError,
         context::{TransactionContext, TransactionLogger},
     },
     schema::catalog::{Catalog, SharedCatalog, VacuumStats},
@@ -338,6 +338,18 @@ impl Database {
         Ok(())
     }
 
+    /// Aborts the transaction if what it was asked to run has failed.
+    fn or_abort<T>(
+        result: QueryRunnerResult<T>,
+        tx_ctx: &TransactionContext,
+        logger: &TransactionLogger,
+    ) -> Result<T, BoxError> {
+        if result.is_err() {
+            let _ = tx_ctx.abort_and_log(logger);
+        }
+        result.map_err(box_err)
+    }
+
     /// Executes a SQL query and returns the result.
     pub fn execute(&self, sql: &str) -> DatabaseResult<QueryResult> {
         let sql = sql.to_string();
@@ -350,11 +362,9 @@ impl Database {
         let child = tx_ctx.create_child()?;
         let result = self.task_runner.run_with_result(move |_ctx| {
             let runner = QueryRunner::new(child, logger.clone());
-            let result_guard = runner.prepare_and_run(&sql).map_err(box_err)?;
+            let result_guard = Self::or_abort(runner.prepare_and_run(&sql), &tx_ctx, &logger)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_and_log(&logger).map_err(box_err)?;
 
             Ok(result_guard)
         })?;
@@ -375,11 +385,9 @@ impl Database {
         let child = tx_ctx.create_child()?;
         let result = self.task_runner.run_with_result(move |_ctx| {
             let runner = QueryRunner::new(child, logger.clone());
-            let result = runner.prepare_and_explain(&sql).map_err(box_err)?;
+            let result = Self::or_abort(runner.prepare_and_explain(&sql), &tx_ctx, &logger)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_and_log(&logger).map_err(box_err)?;
 
             Ok(result)
         })?;
@@ -402,11 +410,9 @@ impl Database {
             // Use BatchQueryRunner for atomic execution
             let runner = MultiQueryRunner::new(child, logger.clone());
 
-            let results = runner.execute_all(&statements).map_err(box_err)?;
+            let results = Self::or_abort(runner.execute_all(&statements), &tx_ctx, &logger)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_and_log(&logger).map_err(box_err)?;
 
             Ok(results)
         })?;
@@ -477,7 +483,7 @@ impl Database {
                 )
                 .map_err(box_err)?;
 
-            tx_ctx.commit_transaction().map_err(box_err)?;
+            tx_ctx.commit_and_log(&logger).map_err(box_err)?;
             Ok(())
         })?;
 
@@ -524,7 +530,7 @@ impl Database {
             pager.write().clear_aborted_up_to(oldest_active_xid);
 
             // Commit vacuum transaction
-            tx_ctx.commit_transaction().map_err(box_err)?;
+            tx_ctx.commit_and_log(&logger).map_err(box_err)?;
 
             // Flush everything to disk
             pager.write().flush().map_err(box_err)?;
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 25d6de7..923c5f4 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -4,10 +4,10 @@ use crate::sync::RwLock;
 use super::RuntimeResult;
 use crate::{
     io::{
-        logger::{Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
+        logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle},
+    multithreading::coordinator::{Snapshot, TransactionError, TransactionHandle},
     schema::catalog::SharedCatalog,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
@@ -125,7 +125,7 @@ impl TransactionLogger {
     }
 
     pub(crate) fn log_abort(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
+        self.log_operation(Abort)?;
         Ok(())
     }
 
@@ -290,6 +290,35 @@ impl TransactionContext {
         Ok(())
     }
 
+    /// Commits the transaction, writing its commit record to the log.
+    ///
+    /// The commit record is only written once the transaction is known to be able to commit, and
+    /// the changes of the transaction only become visible once it has been written.
+    pub(crate) fn commit_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        let committed = {
+            let mut h = self.handle.write();
+            h.commit_with(|| {
+                logger
+                    .log_commit()
+                    .map_err(|e| TransactionError::Other(e.to_string()))
+            })
+        };
+
+        if let Err(err) = committed {
+            let _ = logger.log_abort();
+            return Err(err.into());
+        }
+
+        logger.log_end()
+    }
+
+    /// Aborts the transaction, writing the abort record to the log.
+    pub(crate) fn abort_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        self.abort_transaction()?;
+        logger.log_abort()?;
+        logger.log_end()
+    }
+
     /// Aborts the transaction: log commit, commit handle, end.
     pub(crate) fn abort_transaction(&self) -> RuntimeResult<()> {
         let mut h = self.handle.write();
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index eab65b6..aea1a6b 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     box_err,
-    multithreading::runner::SharedTaskRunner,
+    multithreading::{coordinator::TransactionError, runner::SharedTaskRunner},
     runtime::{
         QueryError, QueryResult, QueryRunner, QueryRunnerResult, RuntimeError,
         context::{TransactionContext, TransactionLogger},
@@ -12,6 +12,8 @@ pub struct Session {
     ctx: TransactionContext,
     logger: TransactionLogger,
     task_runner: SharedTaskRunner,
+    /// Set once the transaction of the session has been committed or aborted.
+    finished: bool,
 }
 
 impl Session {
@@ -24,20 +26,29 @@ impl Session {
             ctx,
             logger,
             task_runner,
+            finished: false,
         }
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_commit()?;
-        self.ctx.commit_transaction()?;
-        self.logger.log_end()?;
+        self.check_open()?;
+        self.finished = true;
+        self.ctx.commit_and_log(&self.logger)?;
         Ok(())
     }
 
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_abort()?;
-        self.ctx.abort_transaction()?;
-        self.logger.log_end()?;
+        self.check_open()?;
+        self.finished = true;
+        self.ctx.abort_and_log(&self.logger)?;
+        Ok(())
+    }
+
+    /// A session holds a single transaction, and cannot be used once it has ended.
+    fn check_open(&self) -> QueryRunnerResult<()> {
+        if self.finished {
+            return Err(TransactionError::TransactionNotStarted.into());
+        }
         Ok(())
     }
 
@@ -47,6 +58,7 @@ impl Session {
     }
 
     fn execute_async(&self, sql: String) -> QueryRunnerResult<QueryResult> {
+        self.check_open()?;
         let logger = self.logger.clone();
         // Build a temporary context for this thread
         // Cloning the handle creates an invalidated copy of itself that can fo everything but committing  or aborting.
@@ -68,6 +80,8 @@ unsafe impl Sync for Session {}
 
 impl Drop for Session {
     fn drop(&mut self) {
-        let _ = self.abort_transaction();
+        if !self.finished {
+            let _ = self.abort_transaction();
+        }
     }
 }
-- 
2.43.0


From 14db649c38492d153f1d90fce0cc0aae957e1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:39 +0000
Subject: [PATCH 18/40] fix: transactions are isolated, rolled back and checked
 for conflicts, and failed statements leave no trace

---
 crates/axmos-db/src/io/pager.rs               |  19 +
 crates/axmos-db/src/lib.rs                    |  38 +-
 .../src/multithreading/coordinator.rs         |  58 ++
 crates/axmos-db/src/runtime/context.rs        | 147 +++-
 crates/axmos-db/src/runtime/dml.rs            | 678 ++++++++----------
 crates/axmos-db/src/runtime/mod.rs            |  57 +-
 crates/axmos-db/src/runtime/ops/delete.rs     |  13 +-
 crates/axmos-db/src/runtime/ops/insert.rs     |  11 +-
 crates/axmos-db/src/runtime/ops/update.rs     |  45 +-
 crates/axmos-db/src/runtime/validator.rs      |  27 -
 crates/axmos-db/src/schema/base.rs            |  21 +-
 crates/axmos-db/src/schema/catalog.rs         | 379 +++++++---
 crates/axmos-db/src/storage/tuple.rs          |  32 +
 crates/axmos-db/src/tcp/session.rs            |   4 +-
 crates/axmos-db/src/tree/bplustree.rs         |  42 +-
 crates/axmos-db/src/tree/mod.rs               |   1 +
 crates/axmos-db/src/tree/undo.rs              | 142 ++++
 17 files changed, 1134 insertions(+), 580 deletions(-)
 create mode 100644 crates/axmos-db/src/tree/undo.rs

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index d797bad..944bb96 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -16,6 +16,7 @@ use crate::{
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter},
         bplustree::Btree,
+        undo::UndoLog,
     },
     types::{Lsn, PAGE_ZERO, PageId},
 };
@@ -579,6 +580,7 @@ pub struct BtreeBuilder {
     pager: Option<SharedPager>,
     min_keys: usize,
     num_siblings_per_side: usize,
+    undo: Option<UndoLog>,
 }
 
 impl Default for BtreeBuilder {
@@ -593,6 +595,21 @@ impl BtreeBuilder {
             pager: None,
             min_keys,
             num_siblings_per_side,
+            undo: None,
+        }
+    }
+
+    /// Sets the log where the trees that are built record the changes made to them.
+    pub(crate) fn with_undo(mut self, undo: UndoLog) -> Self {
+        self.undo = Some(undo);
+        self
+    }
+
+    /// Builds trees whose changes are not recorded.
+    pub(crate) fn without_undo(&self) -> Self {
+        Self {
+            undo: None,
+            ..self.clone()
         }
     }
 
@@ -617,6 +634,7 @@ impl BtreeBuilder {
     ) -> Btree<Acc> {
         let pager = self.pager.as_ref().expect("Pager not intialized").clone();
         Btree::new(root, pager, self.min_keys, self.num_siblings_per_side).with_accessor(accessor)
+            .with_undo(self.undo.clone())
     }
 
     pub(crate) fn build_tree(&self, root: PageId) -> Btree<BtreeReadAccessor> {
@@ -629,5 +647,6 @@ impl BtreeBuilder {
         let pager = self.pager.as_ref().expect("Pager not intialized").clone();
         Btree::new(root, pager, self.min_keys, self.num_siblings_per_side)
             .with_accessor(BtreeWriteAccessor::new())
+            .with_undo(self.undo.clone())
     }
 }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index cf2699c..ff08a59 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -51,7 +51,7 @@ use crate::{
     io::{
         disk::FileOperations,
         logger::Begin,
-        pager::{Pager, SharedPager},
+        pager::{BtreeBuilder, Pager, SharedPager},
         recovery::WalRecuperator,
     },
     multithreading::{
@@ -345,7 +345,7 @@ impl Database {
         logger: &TransactionLogger,
     ) -> Result<T, BoxError> {
         if result.is_err() {
-            let _ = tx_ctx.abort_and_log(logger);
+            let _ = tx_ctx.rollback_and_log(logger);
         }
         result.map_err(box_err)
     }
@@ -422,6 +422,7 @@ impl Database {
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
+        let _statement = self.catalog.lock_for_write();
         self.pager.write().flush()?;
         Ok(())
     }
@@ -466,6 +467,7 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         self.task_runner.run(move |_ctx| {
+            let statement = catalog.lock_for_write();
             let (tx_ctx, logger) =
                 Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
                     .map_err(box_err)?;
@@ -473,7 +475,7 @@ impl Database {
             let tree_builder = tx_ctx.tree_builder();
             let snapshot = tx_ctx.snapshot();
 
-            catalog
+            let analyzed = catalog
                 .analyze(
                     &tree_builder,
                     &snapshot,
@@ -481,8 +483,10 @@ impl Database {
                     sample_rate,
                     max_sample_rows,
                 )
-                .map_err(box_err)?;
+                .map_err(|e| QueryError::from(RuntimeError::from(e)));
 
+            drop(statement);
+            Self::or_abort(analyzed, &tx_ctx, &logger)?;
             tx_ctx.commit_and_log(&logger).map_err(box_err)?;
             Ok(())
         })?;
@@ -503,10 +507,24 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         let stats = self.task_runner.run_with_result(move |_ctx| {
+            let statement = catalog.lock_for_write();
+
             // Abort all active transactions
             let aborted_txs = coordinator.abort_all();
             let oldest_active_xid = coordinator.get_last_committed();
 
+            // Take back the changes they had made
+            let builder = {
+                let p = pager.read();
+                BtreeBuilder::new(p.min_keys_per_page(), p.num_siblings_per_side())
+            }
+            .with_pager(pager.clone());
+            for undo in aborted_txs.iter().filter_map(|id| coordinator.undo_log(*id)) {
+                catalog
+                    .undo_all(&undo, &builder, |_| true)
+                    .map_err(box_err)?;
+            }
+
             if !aborted_txs.is_empty() {
                 eprintln!("VACUUM: Aborted {} active transactions", aborted_txs.len());
             }
@@ -516,9 +534,16 @@ impl Database {
                 Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
                     .map_err(box_err)?;
 
-            let tree_builder = tx_ctx.tree_builder();
+            let tree_builder = tx_ctx.tree_builder().without_undo();
             let vacuum_snapshot = tx_ctx.snapshot();
 
+            // Free the relations that have been dropped
+            if !coordinator.has_other_active(tx_ctx.tid()) {
+                catalog
+                    .reclaim(&tree_builder, &coordinator)
+                    .map_err(box_err)?;
+            }
+
             let mut stats = catalog
                 .vacuum(&tree_builder, &vacuum_snapshot, oldest_active_xid)
                 .map_err(box_err)?;
@@ -529,10 +554,13 @@ impl Database {
             // Clear aborted transactions bitmap up to oldest_active_xid
             pager.write().clear_aborted_up_to(oldest_active_xid);
 
+            drop(statement);
+
             // Commit vacuum transaction
             tx_ctx.commit_and_log(&logger).map_err(box_err)?;
 
             // Flush everything to disk
+            let _statement = catalog.lock_for_write();
             pager.write().flush().map_err(box_err)?;
 
             Ok(stats)
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 87594ae..1fcf483 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -1,6 +1,7 @@
 //! MVCC Transaction System for AxmosDB
 use crate::{
     io::pager::SharedPager,
+    tree::undo::UndoLog,
     types::{LogicalId, TransactionId},
 };
 use crate::sync::RwLock;
@@ -183,6 +184,14 @@ impl Snapshot {
             || self.is_transaction_aborted(updater)
     }
 
+    /// Check if a transaction may have committed, or may still commit, changes which are not
+    /// visible to this snapshot.
+    pub fn is_concurrent(&self, txid: TransactionId) -> bool {
+        txid != self.xid
+            && !self.is_committed_before_snapshot(txid)
+            && !self.is_transaction_aborted(txid)
+    }
+
     /// Check if a transaction was committed before this snapshot was taken
     pub fn is_committed_before_snapshot(&self, txid: TransactionId) -> bool {
         // Transaction started after our snapshot,
@@ -243,6 +252,8 @@ pub struct TransactionMetadata {
     write_set: HashMap<LogicalId, u8>,
     /// Tracks the timestamp when the transaction actually started.
     start_ts: u64,
+    /// Changes made by this transaction.
+    undo: UndoLog,
 }
 
 impl TransactionMetadata {
@@ -254,6 +265,7 @@ impl TransactionMetadata {
             read_set: HashSet::new(),
             write_set: HashMap::new(),
             start_ts,
+            undo: UndoLog::default(),
         }
     }
 
@@ -436,16 +448,46 @@ impl TransactionCoordinator {
 
         // Insert new transaction entry
         let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
+        let undo = entry.undo.clone();
         txs.insert(txid, entry);
         drop(txs);
 
         Ok(TransactionHandle {
             id: txid,
             snapshot,
+            coordinator: Some(self.clone()),
+            undo,
             commit_handle: Some(CommitHandle::new(self.clone())),
         })
     }
 
+    /// Current state of a transaction. Transactions forgotten by a VACUUM have no state.
+    pub(crate) fn state(&self, txid: TransactionId) -> Option<TransactionState> {
+        self.transactions
+            .read()
+            .get(&txid)
+            .map(|entry| entry.state())
+    }
+
+    /// Whether any transaction other than the given one is still running.
+    pub(crate) fn has_other_active(&self, txid: TransactionId) -> bool {
+        self.transactions.read().values().any(|entry| {
+            entry.id() != txid
+                && matches!(
+                    entry.state(),
+                    TransactionState::Active | TransactionState::Committing
+                )
+        })
+    }
+
+    /// Changes made by a transaction.
+    pub(crate) fn undo_log(&self, txid: TransactionId) -> Option<UndoLog> {
+        self.transactions
+            .read()
+            .get(&txid)
+            .map(|entry| entry.undo.clone())
+    }
+
     /// Validate and commit a transaction
     ///
     /// This performs optimistic concurrency control validation:
@@ -680,6 +722,8 @@ impl TransactionCoordinator {
 pub struct TransactionHandle {
     id: TransactionId,
     snapshot: Snapshot,
+    coordinator: Option<TransactionCoordinator>,
+    undo: UndoLog,
     commit_handle: Option<CommitHandle>,
 }
 
@@ -688,10 +732,22 @@ impl TransactionHandle {
         Self {
             id,
             snapshot,
+            coordinator: None,
+            undo: UndoLog::default(),
             commit_handle: None,
         }
     }
 
+    /// Coordinator the transaction was started by.
+    pub(crate) fn coordinator(&self) -> Option<&TransactionCoordinator> {
+        self.coordinator.as_ref()
+    }
+
+    /// Changes made by the transaction.
+    pub(crate) fn undo(&self) -> &UndoLog {
+        &self.undo
+    }
+
     pub(crate) fn with_commit_handle(mut self, commit_handle: CommitHandle) -> Self {
         self.commit_handle = Some(commit_handle);
         self
@@ -704,6 +760,8 @@ impl Clone for TransactionHandle {
         Self {
             id: self.id,
             snapshot: self.snapshot.clone(),
+            coordinator: self.coordinator.clone(),
+            undo: self.undo.clone(),
             commit_handle: None,
         }
     }
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 923c5f4..ab92691 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,4 +1,4 @@
-use crate::sync::RwLock;
+use crate::sync::{Mutex, RwLock};
 
 // src/sql/executor/context.rs
 use super::RuntimeResult;
@@ -7,16 +7,28 @@ use crate::{
         logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionError, TransactionHandle},
+    multithreading::coordinator::{
+        Snapshot, TransactionCoordinator, TransactionError, TransactionHandle, TransactionState,
+    },
     schema::catalog::SharedCatalog,
+    storage::tuple::Row,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
         bplustree::Btree,
+        undo::{UndoEntry, UndoLog},
     },
     types::{ObjectId, PageId, RowId, TransactionId},
 };
 use std::sync::Arc;
 
+/// Row whose indexes have to be updated once the statement that has updated it is done.
+pub(crate) struct IndexUpdate {
+    pub(crate) table_id: ObjectId,
+    pub(crate) row_id: RowId,
+    pub(crate) old_row: Row,
+    pub(crate) new_row: Row,
+}
+
 /// Context of a single thread. Cannot commit transactions by itself.
 #[derive(Clone)]
 pub(crate) struct ThreadContext {
@@ -24,6 +36,9 @@ pub(crate) struct ThreadContext {
     catalog: SharedCatalog,
     tid: TransactionId,
     snapshot: Snapshot,
+    coordinator: Option<TransactionCoordinator>,
+    undo: UndoLog,
+    index_updates: Arc<Mutex<Vec<IndexUpdate>>>,
 }
 
 impl ThreadContext {
@@ -38,7 +53,83 @@ impl ThreadContext {
             snapshot,
             pager,
             catalog,
+            coordinator: None,
+            undo: UndoLog::default(),
+            index_updates: Arc::default(),
+        }
+    }
+
+    /// Sets the transaction the context belongs to.
+    fn with_transaction(mut self, handle: &TransactionHandle) -> Self {
+        self.coordinator = handle.coordinator().cloned();
+        self.undo = handle.undo().clone();
+        self
+    }
+
+    /// Changes made by the transaction.
+    pub(crate) fn undo(&self) -> &UndoLog {
+        &self.undo
+    }
+
+    /// Leaves the update of the indexes of a row for the end of the statement.
+    pub(crate) fn defer_index_update(&self, update: IndexUpdate) {
+        self.index_updates.lock().push(update);
+    }
+
+    /// Takes the index updates which have been deferred.
+    pub(crate) fn take_index_updates(&self) -> Vec<IndexUpdate> {
+        std::mem::take(&mut *self.index_updates.lock())
+    }
+
+    /// Checks that the transaction is still running.
+    pub(crate) fn ensure_active(&self) -> RuntimeResult<()> {
+        if let Some(coordinator) = &self.coordinator
+            && coordinator.state(self.tid) != Some(TransactionState::Active)
+        {
+            return Err(TransactionError::Aborted(self.tid).into());
+        }
+        Ok(())
+    }
+
+    /// Whether another transaction may have committed, or may still commit, changes that this one
+    /// does not see. Two of these transactions cannot modify the same row.
+    pub(crate) fn is_concurrent(&self, writer: TransactionId) -> bool {
+        self.snapshot.is_concurrent(writer) && !self.is_aborted(writer)
+    }
+
+    /// Whether the changes of a transaction have been rolled back.
+    pub(crate) fn is_aborted(&self, writer: TransactionId) -> bool {
+        self.snapshot.is_transaction_aborted(writer)
+            || self
+                .coordinator
+                .as_ref()
+                .is_some_and(|c| c.state(writer) == Some(TransactionState::Aborted))
+    }
+
+    /// Takes back the changes made after the given point of the transaction.
+    pub(crate) fn rollback_to(
+        &self,
+        savepoint: usize,
+        logger: &TransactionLogger,
+    ) -> RuntimeResult<()> {
+        let builder = self.tree_builder().without_undo();
+        while let Some(entry) = self.undo.pop_after(savepoint) {
+            // The log already has the change, so it has to have how it was taken back too.
+            if let Some((object, row)) = entry.row() {
+                match (entry.previous(), entry.written()) {
+                    (Some(previous), _) => logger.log_update(
+                        object,
+                        row,
+                        Box::from(previous),
+                        Box::from(previous),
+                    )?,
+                    (None, Some(written)) => logger.log_delete(object, row, Box::from(written))?,
+                    (None, None) => {}
+                }
+            }
+            self.catalog.undo(&entry, &builder)?;
         }
+        Ok(())
     }
 
     pub(crate) fn pager(&self) -> &SharedPager {
@@ -74,6 +165,7 @@ impl ThreadContext {
         let pager = self.pager().read();
         BtreeBuilder::new(pager.min_keys_per_page(), pager.num_siblings_per_side())
             .with_pager(self.pager().clone())
+            .with_undo(self.undo.clone())
     }
 }
 
@@ -239,7 +331,8 @@ impl TransactionContext {
             self.snapshot(),
             self.pager().clone(),
             self.catalog().clone(),
-        ))
+        )
+        .with_transaction(&self.handle.read()))
     }
 
     pub(crate) fn tid(&self) -> TransactionId {
@@ -281,6 +374,7 @@ impl TransactionContext {
         let pager = self.pager().read();
         BtreeBuilder::new(pager.min_keys_per_page(), pager.num_siblings_per_side())
             .with_pager(self.pager().clone())
+            .with_undo(self.handle.read().undo().clone())
     }
 
     /// Commits the transaction: log commit, commit handle, end.
@@ -305,11 +399,56 @@ impl TransactionContext {
         };
 
         if let Err(err) = committed {
+            let _statement = self.catalog.lock_for_write();
+            let _ = self.undo_changes(|_| true);
             let _ = logger.log_abort();
             return Err(err.into());
         }
 
-        logger.log_end()
+        // Nothing can be taken back anymore.
+        let changes_catalog = self.catalog.is_changed_by(self.handle.read().undo());
+        self.handle.read().undo().clear();
+        logger.log_end()?;
+
+        if changes_catalog {
+            self.reclaim_relations()?;
+        }
+        Ok(())
+    }
+
+    /// Frees the relations that nobody can see anymore, if there are no transactions running.
+    fn reclaim_relations(&self) -> RuntimeResult<()> {
+        let _statement = self.catalog.lock_for_write();
+        let coordinator = self.handle.read().coordinator().cloned();
+        if let Some(coordinator) = coordinator
+            && !coordinator.has_other_active(self.tid())
+        {
+            let builder = self.tree_builder().without_undo();
+            self.catalog.reclaim(&builder, &coordinator)?;
+        }
+        Ok(())
+    }
+
+    /// Takes back the changes of the transaction that satisfy the condition.
+    fn undo_changes(&self, condition: impl Fn(&UndoEntry) -> bool) -> RuntimeResult<()> {
+        let undo = self.handle.read().undo().clone();
+        self.catalog
+            .undo_all(&undo, &self.tree_builder().without_undo(), condition)?;
+        Ok(())
+    }
+
+    /// Takes back the changes of the transaction and aborts it.
+    pub(crate) fn rollback_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        let _statement = self.catalog.lock_for_write();
+        self.undo_changes(|_| true)?;
+        self.abort_and_log(logger)
+    }
+
+    /// Aborts the transaction on behalf of the user. The rows it has updated keep their values.
+    pub(crate) fn rollback_session_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        let _statement = self.catalog.lock_for_write();
+        self.undo_changes(|entry| !entry.is_update())?;
+        self.abort_and_log(logger)
     }
 
     /// Aborts the transaction, writing the abort record to the log.
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..3f9405a 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -3,24 +3,25 @@
 //! This module provides a unified interface for Insert, Update, and Delete operations
 //! on individual rows, including automatic maintenance of secondary indexes.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use crate::{
     core::SerializableType,
+    multithreading::coordinator::TransactionError,
     runtime::{
         RuntimeError, RuntimeResult, TypeSystemError,
-        context::{ThreadContext, TransactionLogger},
+        context::{IndexUpdate, ThreadContext, TransactionLogger},
         eval::ExpressionEvaluator,
-        validator::ConstraintValidator,
+        validator::{ConstraintValidator, ValidationError},
     },
     schema::{
-        Schema,
+        DatabaseItem, Schema,
         base::{IndexHandle, Relation},
     },
     sql::binder::bounds::BoundExpression,
-    storage::tuple::{Row, Tuple, TupleBuilder, TupleReader},
+    storage::tuple::{Row, Tuple, TupleBuilder},
     tree::bplustree::SearchResult,
-    types::{DataType, ObjectId, RowId, UInt64},
+    types::{DataType, LogicalId, ObjectId, RowId, UInt64},
 };
 
 /// Result of an insert operation.
@@ -73,68 +74,74 @@ impl DmlExecutor {
         assignments
     }
 
-    /// Validates constraints for an update operation.
+    /// Validates the constraints that a row has to satisfy on its own.
     ///
-    /// This function checks:
-    /// - NOT NULL constraints on updated columns
-    /// - UNIQUE constraints (excluding the current row) via index lookup
-    pub fn validate_update_constraints(
-        &self,
-        relation: &Relation,
-        old_values: &[DataType],
-        assignments: &HashMap<usize, DataType>,
-        row_id: RowId,
-    ) -> RuntimeResult<()> {
-        let schema = relation.schema();
-        let id = relation.object_id();
-
-        // Build the new values array by applying assignments to old values
-        let mut new_values: Vec<DataType> = old_values.to_vec();
-        for (value_idx, value) in assignments {
-            // value_idx is relative to values (after keys), convert to column index
-            let col_idx = value_idx + schema.num_keys();
-            if col_idx < new_values.len() {
-                new_values[col_idx] = value.clone();
-            }
-        }
-
+    /// UNIQUE constraints are checked when the row is added to the indexes.
+    fn validate_row(&self, relation: &Relation, row: &Row) -> RuntimeResult<()> {
         let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
+        let validator = ConstraintValidator::new(relation.schema(), table_name, self.ctx.clone());
 
         // Validate NOT NULL
-        validator.validate_not_null_constraints(&new_values)?;
+        validator.validate_not_null_constraints(row.as_slice())?;
 
         // Validate foreign keys.
-        validator.validate_foreign_key_constraints(id, &new_values)?;
-        let mut excluded = HashSet::new();
-        excluded.insert(row_id);
-
-        // Validate UNIQUE
-        validator.validate_unique_constraints(&new_values, true, excluded)?;
+        validator.validate_foreign_key_constraints(relation.object_id(), row.as_slice())?;
 
         Ok(())
     }
 
-    pub(crate) fn validate_insert_constraints(
+    /// Gets the table that is going to be modified.
+    fn get_table(&self, table_id: ObjectId) -> RuntimeResult<Relation> {
+        let tree_builder = self.ctx.tree_builder();
+        let snapshot = self.ctx.snapshot();
+        let catalog = self.ctx.catalog();
+        let relation = catalog.get_relation(table_id, &tree_builder, snapshot)?;
+        catalog.check_schema_is_current(&relation, &tree_builder, snapshot)?;
+        Ok(relation)
+    }
+
+    /// Gets a row that is going to be modified, if the transaction sees it.
+    ///
+    /// Fails if a transaction which is not visible to this one has modified the row.
+    fn get_row_to_modify(
         &self,
         relation: &Relation,
-        new_values: &[DataType],
-    ) -> RuntimeResult<()> {
+        row_id: &UInt64,
+    ) -> RuntimeResult<Option<(Tuple, Row)>> {
         let schema = relation.schema();
-        let id = relation.object_id();
-        let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
+        let snapshot = self.ctx.snapshot();
+        let mut btree = self.ctx.build_tree(relation.root());
 
-        // Validate NOT NULL
-        validator.validate_not_null_constraints(&new_values)?;
+        let position = match btree.search(&row_id.serialize()?, schema)? {
+            SearchResult::Found(pos) => pos,
+            SearchResult::NotFound(_) => return Ok(None),
+        };
+        let Some(row) = btree.get_row_at(position, schema, snapshot)? else {
+            return Ok(None);
+        };
+        let tuple = btree.get_tuple_at_unchecked(position, schema)?;
 
-        // Validate foreign keys.
-        validator.validate_foreign_key_constraints(id, &new_values)?;
+        if self.is_written_concurrently(&tuple, schema)? {
+            return Err(self.conflict(relation, row_id.value()));
+        }
+        Ok(Some((tuple, row)))
+    }
 
-        // Validate UNIQUE
-        validator.validate_unique_constraints(&new_values, true, HashSet::new())?;
+    fn is_written_concurrently(&self, tuple: &Tuple, schema: &Schema) -> RuntimeResult<bool> {
+        let writers = [
+            Some(tuple.xmin()),
+            tuple.xmax(),
+            Some(tuple.last_writer_with(schema)?),
+        ];
+        Ok(writers
+            .into_iter()
+            .flatten()
+            .any(|writer| self.ctx.is_concurrent(writer)))
+    }
 
-        Ok(())
+    fn conflict(&self, relation: &Relation, row_id: RowId) -> RuntimeError {
+        let logical_id = LogicalId::new(relation.object_id(), row_id);
+        TransactionError::WriteWriteConflict(self.ctx.tid(), logical_id).into()
     }
 
     /// Inserts a new row into the specified table.
@@ -153,14 +160,10 @@ impl DmlExecutor {
         values: &Row,
     ) -> RuntimeResult<InsertResult> {
         let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot().clone();
         let tid = self.ctx.tid();
 
         // Get the relation and allocate a new row ID
-        let mut relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
+        let mut relation = self.get_table(table_id)?;
 
         let row_id = relation.next_row_id();
         relation.increment_row_id();
@@ -170,47 +173,7 @@ impl DmlExecutor {
 
         // Build the full row with the assigned row ID
         let full_row = self.build_full_row(&schema, columns, values, row_id)?;
-
-        // Constraint validation goes here.
-        self.validate_insert_constraints(&relation, full_row.as_slice())?;
-        let indexes = relation.get_indexes();
-
-        // Create and insert the tuple
-        let tuple = TupleBuilder::from_schema(&schema).build(&full_row, tid)?;
-
-        // Log the insert operation
-        self.logger
-            .log_insert(table_id, row_id.value(), Box::from(&tuple))?;
-
-        // Table access scope
-        {
-            // Insert into main table
-            let mut btree = self.ctx.build_tree_mut(root);
-            let search_result = btree.search_tuple(&tuple, &schema)?;
-
-            if let SearchResult::Found(position) = search_result {
-                let existing = btree.get_tuple_at_unchecked(position, &schema)?;
-
-                // If it is deleted we need to un-delete it
-                if existing.is_deleted() {
-                    btree.update(root, tuple, &schema)?;
-                };
-
-                // Otherwise there is nothing to do. Just keep the tuple there.
-            } else {
-                btree.insert(root, tuple, &schema)?;
-            }
-        }
-
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            None,
-            Some(full_row),
-            None,
-            &schema,
-            row_id.value(),
-        )?;
+        self.validate_row(&relation, &full_row)?;
 
         // Update relation metadata
         self.ctx.catalog().update_relation(
@@ -219,9 +182,21 @@ impl DmlExecutor {
             None,
             None,
             &tree_builder,
-            &snapshot,
+            self.ctx.snapshot(),
         )?;
 
+        // Create and insert the tuple
+        let tuple = TupleBuilder::from_schema(&schema).build(&full_row, tid)?;
+        let data: Box<[u8]> = Box::from(&tuple);
+        self.ctx.build_tree_mut(root).insert(root, tuple, &schema)?;
+        self.logger.log_insert(table_id, row_id.value(), data)?;
+        self.ctx.undo().set_last_row(table_id, row_id.value());
+
+        // Maintain secondary indexes
+        for index in relation.get_indexes() {
+            self.put_index_entry(&relation, &index, &full_row, row_id.value())?;
+        }
+
         Ok(InsertResult {
             row_id: row_id.value(),
         })
@@ -244,7 +219,9 @@ impl DmlExecutor {
         new_row: &Row,
     ) -> RuntimeResult<UpdateResult> {
         let assignments = Self::build_assignments(old_row, new_row, 1);
-        self.update(table_id, row_id, assignments)
+        let result = self.update(table_id, row_id, assignments)?;
+        self.apply_index_updates()?;
+        Ok(result)
     }
 
     /// Updates a row identified by its row ID.
@@ -262,83 +239,87 @@ impl DmlExecutor {
         row_id: &UInt64,
         assignments: HashMap<usize, DataType>,
     ) -> RuntimeResult<UpdateResult> {
-        let row_id_bytes = row_id.serialize()?;
-        let tid = self.ctx.tid();
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        // Get relation and schema
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
+        let updated = self.update_rows(table_id, vec![(*row_id, assignments)])?;
+        Ok(UpdateResult {
+            updated: updated > 0,
+        })
+    }
 
-        let schema = relation.schema().clone();
+    /// Updates a set of rows identified by their row IDs, returning how many have been updated.
+    ///
+    /// UNIQUE constraints only have to hold once the statement has updated all the rows, so the
+    /// indexes are not updated until then. See [`Self::apply_index_updates`].
+    pub fn update_rows(
+        &mut self,
+        table_id: ObjectId,
+        rows: Vec<(UInt64, HashMap<usize, DataType>)>,
+    ) -> RuntimeResult<u64> {
+        let relation = self.get_table(table_id)?;
+        let schema = relation.schema();
         let root = relation.root();
+        let savepoint = self.ctx.undo().len();
 
-        // Search for the tuple
-        let mut btree = self.ctx.build_tree_mut(root);
-        let position = match btree.search(&row_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(UpdateResult { updated: false }),
-        };
-
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = btree.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(tuple) = existing_tuple else {
-            return Ok(UpdateResult { updated: false });
-        };
+        let mut updated_rows = 0;
+        for (row_id, assignments) in rows {
+            let Some((tuple, old_row)) = self.get_row_to_modify(&relation, &row_id)? else {
+                continue;
+            };
 
-        // Get the old row for index maintenance
-        let old_row = btree
-            .get_row_at(position, &schema, &snapshot)?
-            .expect("Tuple should exist");
-
-        // Constraint validation goes here.
-        self.validate_update_constraints(
-            &relation,
-            old_row.as_slice(),
-            &assignments,
-            row_id.value(),
-        )?;
+            let mut new_row = old_row.clone();
+            for (value_idx, value) in &assignments {
+                if let Some(column) = new_row.value_mut(*value_idx, schema) {
+                    *column = value.clone();
+                }
+            }
+            self.validate_row(&relation, &new_row)?;
+
+            // Apply the update
+            let mut updated_tuple = tuple.clone();
+            updated_tuple.add_version_with(&assignments, self.ctx.tid(), schema)?;
+            let new_data: Box<[u8]> = Box::from(&updated_tuple);
+            self.ctx
+                .build_tree_mut(root)
+                .update(root, updated_tuple, schema)?;
+
+            // Log the update
+            self.logger
+                .log_update(table_id, row_id.value(), Box::from(&tuple), new_data)?;
+            self.ctx.undo().set_last_row(table_id, row_id.value());
+
+            self.ctx.defer_index_update(IndexUpdate {
+                table_id,
+                row_id: row_id.value(),
+                old_row,
+                new_row,
+            });
+            updated_rows += 1;
+        }
 
-        // Apply the update
-        let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tid, &schema)?;
-
-        // Get the new row for index maintenance
-        let new_row = updated_tuple
-            .as_tuple_ref(&schema, &snapshot)
-            .expect("Updated tuple should be visible")
-            .to_row_with(&schema)?;
-
-        // Log the update
-        self.logger.log_update(
-            table_id,
-            row_id.value(),
-            Box::from(&tuple),
-            Box::from(&updated_tuple),
-        )?;
+        self.ctx.undo().mark_as_update(savepoint);
+        Ok(updated_rows)
+    }
 
-        // Update the main table
-        btree.update(root, updated_tuple, &schema)?;
+    /// Updates the indexes of the rows that a statement has updated.
+    pub fn apply_index_updates(&mut self) -> RuntimeResult<()> {
+        let savepoint = self.ctx.undo().len();
+        let mut changes = Vec::new();
+        for update in self.ctx.take_index_updates() {
+            let relation = self.get_table(update.table_id)?;
+            for index in relation.get_indexes() {
+                let old_key = Self::index_key(&index, &update.old_row)?;
+                if old_key != Self::index_key(&index, &update.new_row)? {
+                    self.remove_index_entry(&relation, &index, &update.old_row, update.row_id)?;
+                    changes.push((relation.clone(), index, update.new_row.clone(), update.row_id));
+                }
+            }
+        }
 
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            Some(new_row),
-            Some(assignments),
-            &schema,
-            row_id.value(),
-        )?;
+        for (relation, index, new_row, row_id) in &changes {
+            self.put_index_entry(relation, index, new_row, *row_id)?;
+        }
 
-        Ok(UpdateResult { updated: true })
+        self.ctx.undo().mark_as_update(savepoint);
+        Ok(())
     }
 
     /// Deletes a row identified by its row ID.
@@ -350,61 +331,30 @@ impl DmlExecutor {
     /// # Returns
     /// Whether the delete was successful.
     pub fn delete(&mut self, table_id: ObjectId, row_id: &UInt64) -> RuntimeResult<DeleteResult> {
-        let row_id_bytes = row_id.serialize()?;
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        // Get relation and schema
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-        let schema = relation.schema().clone();
+        let relation = self.get_table(table_id)?;
+        let schema = relation.schema();
         let root = relation.root();
 
-        // Search for the tuple
-        let mut btree = self.ctx.build_tree_mut(root);
-        let position = match btree.search(&row_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(DeleteResult { deleted: false }),
-        };
-
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = btree.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(tuple) = existing_tuple else {
+        let Some((tuple, old_row)) = self.get_row_to_modify(&relation, row_id)? else {
             return Ok(DeleteResult { deleted: false });
         };
 
-        // Get the row for index maintenance
-        let old_row = btree
-            .get_row_at(position, &schema, &snapshot)?
-            .expect("Tuple should exist");
-
         // Mark as deleted
         let mut deleted_tuple = tuple.clone();
-        deleted_tuple.delete(snapshot.xid())?;
+        deleted_tuple.delete(self.ctx.tid())?;
+        self.ctx
+            .build_tree_mut(root)
+            .update(root, deleted_tuple, schema)?;
 
         // Log the delete
         self.logger
             .log_delete(table_id, row_id.value(), Box::from(&tuple))?;
-
-        // Update the main table
-        btree.update(root, deleted_tuple, &schema)?;
+        self.ctx.undo().set_last_row(table_id, row_id.value());
 
         // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            None,
-            None,
-            &schema,
-            row_id.value(),
-        )?;
+        for index in relation.get_indexes() {
+            self.remove_index_entry(&relation, &index, &old_row, row_id.value())?;
+        }
 
         Ok(DeleteResult { deleted: true })
     }
@@ -438,201 +388,165 @@ impl DmlExecutor {
         Ok(Row::new(full_values.into_boxed_slice()))
     }
 
-    /// Builds an index entry row from table values.
-    fn build_index_entry(
-        values: &[DataType],
-        index: &IndexHandle,
-        index_schema: &Schema,
-        row_id: RowId,
-    ) -> RuntimeResult<Row> {
-        let mut entry: Vec<DataType> = Vec::with_capacity(index_schema.num_keys() + 1);
-
-        for col_idx in index.indexed_column_ids() {
-            let value = values
-                .get(*col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(*col_idx))?;
-            entry.push(value.clone());
+    /// Serialized values of the columns of an index. Rows where any of them is NULL are not part of
+    /// the index.
+    fn index_key(index: &IndexHandle, row: &Row) -> RuntimeResult<Option<Vec<Box<[u8]>>>> {
+        let mut key = Vec::with_capacity(index.indexed_column_ids().len());
+        for &idx in index.indexed_column_ids() {
+            let value = row
+                .as_slice()
+                .get(idx)
+                .ok_or(RuntimeError::ColumnNotFound(idx))?;
+            if value.is_null() {
+                return Ok(None);
+            }
+            key.push(value.serialize()?);
         }
+        Ok(Some(key))
+    }
+
+    /// Builds the entry that a row has in an index.
+    pub(crate) fn index_entry(index: &IndexHandle, row: &Row, row_id: RowId) -> Row {
+        let mut entry: Vec<DataType> = index
+            .indexed_column_ids()
+            .iter()
+            .map(|&idx| row[idx].clone())
+            .collect();
 
         // Append row ID as the last column
         entry.push(DataType::BigUInt(UInt64(row_id)));
+        Row::from(entry)
+    }
 
-        Ok(Row::new(entry.into_boxed_slice()))
+    /// Whether the transaction sees a row with the given values on the columns of an index.
+    fn has_row_with_key(
+        &self,
+        relation: &Relation,
+        index: &IndexHandle,
+        row_id: RowId,
+        key: &[Box<[u8]>],
+    ) -> RuntimeResult<bool> {
+        let schema = relation.schema();
+        let mut table = self.ctx.build_tree(relation.root());
+        let SearchResult::Found(position) = table.search(&UInt64(row_id).serialize()?, schema)?
+        else {
+            return Ok(false);
+        };
+        let Some(row) = table.get_row_at(position, schema, self.ctx.snapshot())? else {
+            return Ok(false);
+        };
+        Ok(Self::index_key(index, &row)?.as_deref() == Some(key))
     }
 
-    /// Maintains secondary indexes.
-    fn maintain_secondary_indexes(
-        &mut self,
-        indexes: &[IndexHandle],
-        old_values: Option<Row>,
-        new_values: Option<Row>,
-        table_assignments: Option<HashMap<usize, DataType>>,
-        table_schema: &Schema,
+    /// Adds a row to an index.
+    ///
+    /// There is a single entry for each key, which belongs to the last row that has had the key.
+    fn put_index_entry(
+        &self,
+        relation: &Relation,
+        index: &IndexHandle,
+        row: &Row,
         row_id: RowId,
     ) -> RuntimeResult<()> {
-        let old_values = old_values.map(|r| r.into_inner());
-        let new_values = new_values.map(|r| r.into_inner());
+        let Some(key) = Self::index_key(index, row)? else {
+            return Ok(());
+        };
 
         let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let tid = self.ctx.tid();
+        let index_relation =
+            self.ctx
+                .catalog()
+                .get_relation(index.id(), &tree_builder, self.ctx.snapshot())?;
+        let schema = index_relation.schema();
+        let root = index_relation.root();
+        let entry = Self::index_entry(index, row, row_id);
+        let entry = TupleBuilder::from_schema(schema).build(&entry, self.ctx.tid())?;
+
+        let mut tree = self.ctx.build_tree_mut(root);
+        let mut existing = match tree.search_tuple(&entry, schema)? {
+            SearchResult::Found(position) => tree.get_tuple_at_unchecked(position, schema)?,
+            SearchResult::NotFound(_) => return Ok(tree.insert(root, entry, schema)?),
+        };
 
-        // Determine which columns were modified
-        let modified_columns: Option<HashSet<usize>> = table_assignments
-            .clone()
-            .map(|c| c.keys().copied().collect());
-
-        for index in indexes {
-            let index_relation =
-                self.ctx
-                    .catalog()
-                    .get_relation(index.id(), &tree_builder, &snapshot)?;
-            let index_schema = index_relation.schema();
-            let index_root = index_relation.root();
-
-            if let Some(modified) = modified_columns.as_ref() {
-                // Skip indexes not affected by this update
-                let index_affected = index
-                    .indexed_column_ids()
-                    .iter()
-                    .any(|col| modified.contains(col));
-
-                if !index_affected {
-                    continue;
-                }
-            }
+        if self.is_written_concurrently(&existing, schema)? {
+            return Err(self.conflict(relation, row_id));
+        }
 
-            let mut index_btree = self.ctx.build_tree_mut(index_root);
-
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
-                // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
-                            index_btree.update(index_root, index_tuple, index_schema)?;
-                        };
-
-                        // Otherwise there is nothing to do. Just keep the tuple there.
-                    } else {
-                        index_btree.insert(index_root, index_tuple, index_schema)?;
-                    }
-                }
-                // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
-                // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(position, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.delete(self.ctx.tid())?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    };
-                } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
-                    // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
-                    let old_index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
-
-                    // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
-
-                    // Search and update the index entry
-                    let mut index_btree = self.ctx.build_tree_mut(index_root);
-                    let search_result = index_btree.search_tuple(&old_index_tuple, index_schema)?;
-
-                    if let SearchResult::Found(pos) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(pos, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.add_version_with(
-                                &index_assignments,
-                                snapshot.xid(),
-                                index_schema,
-                            )?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    }
-                }
-                _ => return Err(RuntimeError::InvalidStatement),
-            }
+        let owner = Self::entry_owner(&existing, schema)?;
+        let is_live = !existing.is_deleted();
+        if is_live && owner == row_id && !self.ctx.is_aborted(existing.xmin()) {
+            return Ok(());
+        }
+        if is_live && owner != row_id && self.has_row_with_key(relation, index, owner, &key)? {
+            let columns: Vec<&str> = index
+                .indexed_column_ids()
+                .iter()
+                .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name()))
+                .collect();
+            return Err(
+                ValidationError::UniqueConstraintViolated(DatabaseItem::Column(
+                    columns.join(","),
+                    relation.name().to_string(),
+                ))
+                .into(),
+            );
         }
 
+        if self.ctx.is_aborted(existing.xmin()) {
+            tree.update(root, entry, schema)?;
+        } else {
+            let changes = HashMap::from([(0, DataType::BigUInt(UInt64(row_id)))]);
+            existing.add_version_with(&changes, self.ctx.tid(), schema)?;
+            tree.update(root, existing, schema)?;
+        }
         Ok(())
     }
 
-    /// Builds assignment map for an index based on table assignments.
-    fn build_index_assignments(
+    /// Row that an index entry belongs to.
+    fn entry_owner(entry: &Tuple, schema: &Schema) -> RuntimeResult<RowId> {
+        let row = entry.as_tuple_ref_with(schema).to_row_with(schema)?;
+        match row.last() {
+            Some(DataType::BigUInt(UInt64(owner))) => Ok(*owner),
+            _ => Err(RuntimeError::Other(
+                "index entries must end with a row id".to_string(),
+            )),
+        }
+    }
+
+    /// Removes a row from an index.
+    fn remove_index_entry(
         &self,
-        old_values: &[DataType],
-        table_assignments: &HashMap<usize, DataType>,
+        relation: &Relation,
         index: &IndexHandle,
-        index_schema: &Schema,
-    ) -> RuntimeResult<HashMap<usize, DataType>> {
-        let mut index_assignments: HashMap<usize, DataType> = HashMap::new();
-
-        for (index_col_idx, table_col_idx) in index.indexed_column_ids().iter().enumerate() {
-            // Check if this table column was modified
-            let Some(new_value) = table_assignments.get(table_col_idx) else {
-                continue;
-            };
-
-            // Validate type compatibility
-            let index_col_type = index_schema
-                .column(index_col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(index_col_idx))?
-                .datatype();
+        row: &Row,
+        row_id: RowId,
+    ) -> RuntimeResult<()> {
+        if Self::index_key(index, row)?.is_none() {
+            return Ok(());
+        }
 
-            if index_col_type != new_value.kind() {
-                return Err(RuntimeError::TypeError(
-                    TypeSystemError::UnexpectedDataType(new_value.kind()),
-                ));
-            }
+        let tree_builder = self.ctx.tree_builder();
+        let index_relation =
+            self.ctx
+                .catalog()
+                .get_relation(index.id(), &tree_builder, self.ctx.snapshot())?;
+        let schema = index_relation.schema();
+        let root = index_relation.root();
+        let entry = Self::index_entry(index, row, row_id);
+        let entry = TupleBuilder::from_schema(schema).build(&entry, self.ctx.tid())?;
+
+        let mut tree = self.ctx.build_tree_mut(root);
+        let SearchResult::Found(position) = tree.search_tuple(&entry, schema)? else {
+            return Ok(());
+        };
+        let mut existing = tree.get_tuple_at_unchecked(position, schema)?;
 
-            index_assignments.insert(index_col_idx, new_value.clone());
+        if existing.is_deleted() || Self::entry_owner(&existing, schema)? != row_id {
+            return Ok(());
         }
-
-        Ok(index_assignments)
+        existing.delete(self.ctx.tid())?;
+        tree.update(root, existing, schema)?;
+        Ok(())
     }
 }
 
diff --git a/crates/axmos-db/src/runtime/mod.rs b/crates/axmos-db/src/runtime/mod.rs
index 413e73e..9952b4b 100644
--- a/crates/axmos-db/src/runtime/mod.rs
+++ b/crates/axmos-db/src/runtime/mod.rs
@@ -2,6 +2,7 @@ use std::{
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
     io::Error as IoError,
+    panic::{AssertUnwindSafe, catch_unwind},
 };
 
 use crate::{
@@ -12,6 +13,7 @@ use crate::{
         builder::{BoxedExecutor, ExecutorBuilder},
         context::{ThreadContext, TransactionLogger},
         ddl::{DdlExecutor, DdlResult},
+        dml::DmlExecutor,
         eval::EvaluationError,
         validator::ValidationError,
     },
@@ -135,7 +137,10 @@ impl From<IoError> for RuntimeError {
 
 impl From<CatalogError> for RuntimeError {
     fn from(value: CatalogError) -> Self {
-        Self::Catalog(value)
+        match value {
+            CatalogError::Transaction(err) => Self::TransactionalError(err),
+            err => Self::Catalog(err),
+        }
     }
 }
 impl From<TransactionError> for RuntimeError {
@@ -445,14 +450,53 @@ impl QueryRunner {
         self.ctx.snapshot()
     }
 
+    /// Runs a statement. If it fails, the changes it had already made are taken back.
     pub(crate) fn prepare_and_run(&self, sql: &str) -> QueryRunnerResult<QueryResult> {
-        let bound = self.prepare(sql)?;
-        self.execute_statement(bound)
+        let run = || {
+            let ast = parse(sql)?;
+            if matches!(ast, Statement::Select(_) | Statement::With(_)) {
+                let _statement = self.ctx.catalog().lock_for_read();
+                self.ctx.ensure_active()?;
+                return self.bind_and_run(&ast);
+            }
+
+            let _statement = self.ctx.catalog().lock_for_write();
+            self.ctx.ensure_active()?;
+            let savepoint = self.ctx.undo().len();
+            let result = Self::catch_panic(|| self.bind_and_run(&ast));
+            if result.is_err() {
+                self.ctx.take_index_updates();
+                self.ctx.rollback_to(savepoint, &self.logger)?;
+            }
+            result
+        };
+        Self::catch_panic(run)
     }
 
     pub(crate) fn prepare_and_explain(&self, sql: &str) -> QueryRunnerResult<String> {
-        let bound = self.prepare(sql)?;
-        self.explain(bound)
+        Self::catch_panic(|| {
+            let _statement = self.ctx.catalog().lock_for_read();
+            let bound = self.prepare(sql)?;
+            self.explain(bound)
+        })
+    }
+
+    fn bind_and_run(&self, ast: &Statement) -> QueryRunnerResult<QueryResult> {
+        let builder = self.ctx.tree_builder();
+        let bound = bind(ast, self.ctx.catalog(), &builder, self.snapshot())?;
+        self.execute_statement(bound)
+    }
+
+    /// A bug triggered by a statement must not take down the thread that runs it.
+    fn catch_panic<T>(run: impl FnOnce() -> QueryRunnerResult<T>) -> QueryRunnerResult<T> {
+        catch_unwind(AssertUnwindSafe(run)).unwrap_or_else(|panic| {
+            let message = panic
+                .downcast_ref::<String>()
+                .map(String::as_str)
+                .or_else(|| panic.downcast_ref::<&str>().copied())
+                .unwrap_or("unknown panic");
+            Err(RuntimeError::Other(message.to_string()).into())
+        })
     }
 
     pub(crate) fn explain(&self, stmt: BoundStatement) -> QueryRunnerResult<String> {
@@ -489,6 +533,9 @@ impl QueryRunner {
         let rows = collect_rows(&mut executor)?;
 
         if is_dml {
+            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+            dml.apply_index_updates()?;
+
             let affected = extract_affected_count(&rows);
 
             Ok(QueryResult::RowsAffected(affected))
diff --git a/crates/axmos-db/src/runtime/ops/delete.rs b/crates/axmos-db/src/runtime/ops/delete.rs
index 1741f53..e2f2415 100644
--- a/crates/axmos-db/src/runtime/ops/delete.rs
+++ b/crates/axmos-db/src/runtime/ops/delete.rs
@@ -63,13 +63,18 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Process all rows from child. The rows have to be collected first, as the child is reading
+        // the same table.
+        let mut row_ids = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            row_ids.push(*extract_row_id(&row)?);
+        }
+        self.child.close()?;
 
-            let row_id = extract_row_id(&row)?;
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            let result = dml.delete(self.table_id, row_id)?;
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        for row_id in row_ids {
+            let result = dml.delete(self.table_id, &row_id)?;
 
             if result.deleted {
                 self.stats.rows_produced += 1;
diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 157dd6c..53d36e1 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -64,13 +64,18 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Process all rows from child. The rows have to be collected first, as the child could be
+        // reading the same table.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
+        self.child.close()?;
 
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        for row in rows {
             dml.insert(self.table_id, &self.columns, &row)?;
-
             self.stats.rows_produced += 1;
         }
 
diff --git a/crates/axmos-db/src/runtime/ops/update.rs b/crates/axmos-db/src/runtime/ops/update.rs
index 283ac98..6614c6a 100644
--- a/crates/axmos-db/src/runtime/ops/update.rs
+++ b/crates/axmos-db/src/runtime/ops/update.rs
@@ -51,28 +51,6 @@ where
     pub fn stats(&self) -> &ExecutionStats {
         &self.stats
     }
-
-    /// Evaluates assignments and performs the update for a single row.
-    fn update_row(&mut self, row: &Row) -> RuntimeResult<bool> {
-        // Get the schema to evaluate assignments
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(self.table_id, &tree_builder, &snapshot)?;
-        let schema = relation.schema().clone();
-
-        // Extract row ID and evaluate assignments
-        let row_id = extract_row_id(row)?;
-        let assignments = evaluate_assignments(self.assignments.iter(), row, &schema)?;
-
-        // Delegate to DML executor
-        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-        let result = dml.update(self.table_id, row_id, assignments)?;
-
-        Ok(result.updated)
-    }
 }
 
 impl<Child> Executor for Update<Child>
@@ -89,14 +67,27 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        let tree_builder = self.ctx.tree_builder();
+        let relation = self.ctx.catalog().get_relation(
+            self.table_id,
+            &tree_builder,
+            self.ctx.snapshot(),
+        )?;
+
+        // Process all rows from child. The rows have to be collected first, as the child is reading
+        // the same table.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
-
-            if self.update_row(&row)? {
-                self.stats.rows_produced += 1;
-            }
+            let row_id = *extract_row_id(&row)?;
+            let assignments =
+                evaluate_assignments(self.assignments.iter(), &row, relation.schema())?;
+            rows.push((row_id, assignments));
         }
+        self.child.close()?;
+
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        self.stats.rows_produced = dml.update_rows(self.table_id, rows)?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 0e1a0c3..8f3fc67 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -291,31 +291,4 @@ impl<'a> ConstraintValidator<'a> {
 
         Ok(false)
     }
-
-    /// Validates UNIQUE constraints by checking indexes.
-    pub(crate) fn validate_unique_constraints(
-        &self,
-        values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: HashSet<RowId>,
-    ) -> ValidationResult<()> {
-        let indexes = self.schema.get_indexes();
-
-        // For each of the indexes, check if we can build a new entry with the
-        for index in indexes {
-            let is_conflict = self.search_index(&index, values, skip_nulls, &excluded_set)?;
-            if is_conflict {
-                let col_names: Vec<&str> = index
-                    .indexed_column_ids()
-                    .iter()
-                    .filter_map(|&idx| self.schema.column(idx).map(|c| c.name()))
-                    .collect();
-                return Err(ValidationError::UniqueConstraintViolated(
-                    DatabaseItem::Column(col_names.join(","), self.table_name.to_string()),
-                ));
-            }
-        }
-
-        Ok(())
-    }
 }
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a8c994e..4a11e19 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -166,10 +166,12 @@ impl Schema {
     /// Collect all the index information from this schema.
     pub(crate) fn get_indexes(&self) -> Vec<IndexHandle> {
         if let Some(indexes) = &self.table_indexes {
-            indexes
+            let mut handles: Vec<IndexHandle> = indexes
                 .iter()
                 .map(|(id, col_info)| IndexHandle::new(*id, col_info.clone()))
-                .collect()
+                .collect();
+            handles.sort_unstable_by_key(|handle| handle.id());
+            handles
         } else {
             Vec::new()
         }
@@ -419,18 +421,11 @@ impl Schema {
     ///
     /// Useful for DELETE ... CASCADE operations.
     pub(crate) fn get_dependants(&self) -> Vec<ObjectId> {
-        let mut deps = Vec::new();
-        if self.is_index() {
-            return deps;
+        let mut deps: Vec<ObjectId> = match self.table_indexes.as_ref() {
+            Some(indexes) if !self.is_index() => indexes.keys().copied().collect(),
+            _ => Vec::new(),
         };
-
-        for ct in self.table_constraints.as_ref().unwrap() {
-            if let TableConstraint::ForeignKey { info, .. } = ct {
-                deps.push(info.ref_table);
-            };
-        }
-
-        deps.extend(self.table_indexes.as_ref().unwrap().keys());
+        deps.sort_unstable();
         deps
     }
 
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index f4b02d5..26cd815 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -3,15 +3,18 @@ use crate::{
     core::SerializableType,
     io::pager::{BtreeBuilder, SharedPager},
     make_shared_readonly,
-    multithreading::coordinator::Snapshot,
+    multithreading::coordinator::{
+        Snapshot, TransactionCoordinator, TransactionError, TransactionState,
+    },
     runtime::{RuntimeError, context::TransactionLogger},
     schema::{Schema, base::SchemaError},
-    storage::tuple::{Tuple, TupleBuilder, TupleError, TupleReader,Row,  TupleRef},
+    storage::tuple::{Tuple, TupleBuilder, TupleError, TupleReader, TupleRef},
     tree::{
         accessor::BtreePagePosition,
         bplustree::{BtreeError, SearchResult},
+        undo::{UndoEntry, UndoLog},
     },
-    types::{Blob, DataType, DataTypeRef, PageId},
+    types::{Blob, DataType, DataTypeRef, LogicalId, PageId},
 };
 
 use super::{
@@ -23,7 +26,7 @@ use super::{
 
 use std::collections::HashSet;
 use std::fmt::{Display, Formatter, Result as FmtResult};
-use crate::sync::SystemTime;
+use crate::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard, SystemTime};
 use std::time::UNIX_EPOCH;
 
 #[derive(Debug)]
@@ -34,6 +37,7 @@ pub enum CatalogError {
     TupleError(TupleError),
     Serialization(SerializationError),
     Schema(SchemaError),
+    Transaction(TransactionError),
     Other(String),
 }
 
@@ -46,6 +50,7 @@ impl Display for CatalogError {
             Self::TupleError(err) => write!(f, "Tuple error {err}"),
             Self::Serialization(err) => write!(f, "serialization error {err}"),
             Self::Schema(err) => write!(f, "schema error {err}"),
+            Self::Transaction(err) => write!(f, "transaction management error {err}"),
             Self::Other(string) => write!(f, "{string}"),
         }
     }
@@ -117,6 +122,8 @@ pub struct Catalog {
     meta_table: PageId,
     meta_index: PageId,
     pager: SharedPager,
+    /// Statements that only read hold it for reading, and everything else for writing.
+    statements: RwLock<()>,
 }
 
 impl Catalog {
@@ -125,7 +132,58 @@ impl Catalog {
             meta_table,
             meta_index,
             pager,
+            statements: RwLock::new(()),
+        }
+    }
+
+    /// Waits until there are no statements that write.
+    pub(crate) fn lock_for_read(&self) -> RwLockReadGuard<'_, ()> {
+        self.statements.read()
+    }
+
+    /// Waits until there are no other statements.
+    pub(crate) fn lock_for_write(&self) -> RwLockWriteGuard<'_, ()> {
+        self.statements.write()
+    }
+
+    /// Whether any of the changes of a transaction affects the catalog.
+    pub(crate) fn is_changed_by(&self, undo: &UndoLog) -> bool {
+        undo.has_changed(self.meta_table)
+    }
+
+    /// Takes back a change made by a transaction, freeing the relations it had created.
+    pub(crate) fn undo(&self, entry: &UndoEntry, builder: &BtreeBuilder) -> CatalogResult<()> {
+        let created = if entry.root() == self.meta_table && entry.previous().is_none() {
+            entry.written()
+        } else {
+            None
+        };
+
+        if let Some(tuple) = created {
+            let schema = meta_table_schema();
+            let tuple = Tuple::from_slice_unchecked(tuple)?;
+            let row = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+            let relation = Relation::from_meta_table_row(row);
+            builder.build_tree_mut(relation.root()).dealloc()?;
+        }
+
+        entry.apply(builder)?;
+        Ok(())
+    }
+
+    /// Takes back the changes made by a transaction that satisfy a condition.
+    pub(crate) fn undo_all(
+        &self,
+        undo: &UndoLog,
+        builder: &BtreeBuilder,
+        condition: impl Fn(&UndoEntry) -> bool,
+    ) -> CatalogResult<()> {
+        while let Some(entry) = undo.pop_after(0) {
+            if condition(&entry) {
+                self.undo(&entry, builder)?;
+            }
         }
+        Ok(())
     }
 
     /// Converts a relation into a meta table tuple for storage.
@@ -314,7 +372,12 @@ impl Catalog {
                 continue;
             };
 
-            self.update_relation(id, None, None, Some(stats), &builder, &snapshot)?;
+            match self.update_relation(id, None, None, Some(stats), &builder, &snapshot) {
+                // Another transaction is changing the relation, so its statistics are about to
+                // become obsolete.
+                Err(CatalogError::Transaction(_)) => continue,
+                other => other?,
+            }
         }
 
         Ok(())
@@ -423,13 +486,21 @@ impl Catalog {
                         let mut tuple = Tuple::from_slice_unchecked(bytes)?;
                         let xmin = tuple.xmin();
 
+                        // The transaction that deleted it may have been rolled back.
+                        let undeleted = tuple
+                            .xmax()
+                            .is_some_and(|xmax| snapshot.is_transaction_aborted(xmax));
+                        if undeleted {
+                            tuple.undelete();
+                        }
+
                         let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
                             let freed = tuple.full_data().len();
                             tuples_to_remove.push(tuple);
                             freed
                         } else {
                             let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
-                            if freed > 0 {
+                            if freed > 0 || undeleted {
                                 tuples_to_vaccum.push(tuple);
                             };
                             freed
@@ -465,6 +536,9 @@ impl Catalog {
         self.get_relation(id, builder, snapshot)
     }
     /// Updates the metadata of a given relation using the provided RcPageAccessor.
+    ///
+    /// The next row id does not belong to any transaction: whatever happens to the one that took a
+    /// row id, it is never given again.
     pub(crate) fn update_relation(
         &self,
         relation_id: ObjectId,
@@ -475,13 +549,18 @@ impl Catalog {
         snapshot: &Snapshot,
     ) -> CatalogResult<()> {
         let schema = meta_table_schema();
-        let mut meta_table = builder.build_tree_mut(self.meta_table);
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
         let mut changes = std::collections::HashMap::new();
 
+        let Some(mut tuple) = self.visible_meta_tuple(relation_id, builder, snapshot)? else {
+            return Ok(());
+        };
+
         if let Some(id) = new_row_id {
             let col_id = schema.bind_value("next_row_id")?;
-            changes.insert(col_id, DataType::BigUInt(UInt64::from(id)));
+            let value = DataType::BigUInt(UInt64::from(id));
+            tuple.overwrite_value_with(col_id, &value, &schema)?;
+            let mut meta_table = builder.without_undo().build_tree_mut(self.meta_table);
+            meta_table.update(self.meta_table, tuple.clone(), &schema)?;
         }
 
         if let Some(table_schema) = new_schema {
@@ -494,30 +573,107 @@ impl Catalog {
             changes.insert(col_id, DataType::Blob(table_stats.to_blob()?));
         }
 
-        let position = match meta_table.search(&relation_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(()),
-        };
+        if !changes.is_empty() {
+            Self::check_not_concurrent(&tuple, relation_id, &schema, snapshot)?;
+            tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+            let mut meta_table = builder.build_tree_mut(self.meta_table);
+            meta_table.update(self.meta_table, tuple, &schema)?;
+        }
 
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = meta_table.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
+        Ok(())
+    }
 
-        let Some(mut tuple) = existing_tuple else {
+    /// Fails if the schema of the relation a transaction sees is not the latest one.
+    pub(crate) fn check_schema_is_current(
+        &self,
+        relation: &Relation,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let id = relation.object_id();
+        let schema = meta_table_schema();
+        let Some(tuple) = self.visible_meta_tuple(id, builder, snapshot)? else {
             return Ok(());
         };
 
-        tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
-        let result = meta_table.update(self.meta_table, tuple, &schema)?;
+        if Self::check_not_concurrent(&tuple, id, &schema, snapshot).is_ok() {
+            return Ok(());
+        }
+
+        // The statistics may change at any moment.
+        let latest = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+        let latest = Relation::from_meta_table_row(latest);
+        let is_same = !tuple.is_deleted()
+            && latest.schema() == relation.schema();
+        if is_same {
+            return Ok(());
+        }
+
+        Self::check_not_concurrent(&tuple, id, &schema, snapshot)
+    }
 
+    /// Fails if an entry of the catalog has been changed by a transaction that is not visible.
+    fn check_not_concurrent(
+        tuple: &Tuple,
+        id: ObjectId,
+        schema: &Schema,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let writers = [
+            Some(tuple.xmin()),
+            tuple.xmax(),
+            Some(tuple.last_writer_with(schema)?),
+        ];
+        if writers
+            .into_iter()
+            .flatten()
+            .any(|writer| snapshot.is_concurrent(writer))
+        {
+            return Err(CatalogError::Transaction(
+                TransactionError::WriteWriteConflict(snapshot.xid(), LogicalId::new(id, 0)),
+            ));
+        }
         Ok(())
     }
 
-    /// Removes a given relation using the provided
-    /// Cascades the removal if required.
+    /// Entry of a relation in the meta table, if the relation is visible.
+    fn visible_meta_tuple(
+        &self,
+        relation_id: ObjectId,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<Option<Tuple>> {
+        let schema = meta_table_schema();
+        let key = UInt64(relation_id).serialize()?;
+        Self::visible_tuple(self.meta_table, &key, &schema, builder, snapshot)
+    }
+
+    fn visible_tuple(
+        root: PageId,
+        key: &[u8],
+        schema: &Schema,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<Option<Tuple>> {
+        let mut tree = builder.build_tree(root);
+        let position = match tree.search(key, schema)? {
+            SearchResult::Found(pos) => pos,
+            SearchResult::NotFound(_) => return Ok(None),
+        };
+
+        let reader = TupleReader::from_schema(schema);
+        let tuple = tree.with_cell_at(position, |bytes| {
+            match reader.parse_for_snapshot(bytes, snapshot)? {
+                Some(_) => Tuple::from_slice_unchecked(bytes).map(Some),
+                None => Ok(None),
+            }
+        })??;
+        Ok(tuple)
+    }
+
+    /// Removes a given relation, along with the indexes that belong to it.
+    ///
+    /// The relation is not freed until no transaction can see it. See [`Self::reclaim`].
     pub(crate) fn remove_relation(
         &self,
         rel: Relation,
@@ -525,102 +681,84 @@ impl Catalog {
         snapshot: &Snapshot,
         cascade: bool,
     ) -> CatalogResult<()> {
-        if cascade {
-            let schema = rel.schema();
-            let dependants = schema.get_dependants();
-
-            // Recursively remove object dependants
-            for dep in dependants {
-                let relation = self.get_relation(dep, builder, snapshot)?;
-                self.remove_relation(relation, builder, snapshot, cascade)?;
-            }
-        };
-
-        // First, deallocate the relation.
-        // Deallocate the relation.
-      {
-            let mut tree = builder.build_tree_mut(rel.root());
-            tree.dealloc()?;
+        // Recursively remove object dependants
+        for dep in rel.schema().get_dependants() {
+            let relation = self.get_relation(dep, builder, snapshot)?;
+            self.remove_relation(relation, builder, snapshot, cascade)?;
         }
 
-        // Obtain the relation metadata
-        let relation_id = rel.object_id();
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let relation_name_bytes = Blob::from(rel.name()).serialize()?;
-
         // First remove the relation from the meta table
+        let relation_id = rel.object_id();
         let schema = meta_table_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
-
-            let mut meta_table = builder.build_tree(self.meta_table);
-
-            let position = match meta_table.search(&relation_id_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
+        let Some(mut tuple) = self.visible_meta_tuple(relation_id, builder, snapshot)? else {
+            return Ok(());
+        };
+        Self::check_not_concurrent(&tuple, relation_id, &schema, snapshot)?;
+        tuple.delete(snapshot.xid())?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+        meta_table.update(self.meta_table, tuple, &schema)?;
 
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_table.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
+        // Now do the same with the meta index.
+        let schema = meta_index_schema();
+        let name = Blob::from(rel.name());
+        let Some(mut tuple) =
+            Self::visible_tuple(self.meta_index, name.as_ref(), &schema, builder, snapshot)?
         else {
-            return Ok(())
+            return Ok(());
         };
+        Self::check_not_concurrent(&tuple, relation_id, &schema, snapshot)?;
+        tuple.delete(snapshot.xid())?;
+        let mut meta_index = builder.build_tree_mut(self.meta_index);
+        meta_index.update(self.meta_index, tuple, &schema)?;
 
+        Ok(())
+    }
 
-        existing_tuple.delete(snapshot.xid())?;
+    /// Frees the relations that have been removed. There must be no transactions that see them.
+    pub(crate) fn reclaim(
+        &self,
+        builder: &BtreeBuilder,
+        coordinator: &TransactionCoordinator,
+    ) -> CatalogResult<()> {
+        let is_dead = |tuple: &Tuple| {
+            tuple
+                .xmax()
+                .is_some_and(|xmax| coordinator.state(xmax) != Some(TransactionState::Aborted))
+        };
 
-        {
-            let mut meta_table = builder.build_tree_mut(self.meta_table);
-            meta_table.update(self.meta_table, existing_tuple, &schema)?;
+        let schema = meta_table_schema();
+        for tuple in Self::collect_tuples(self.meta_table, builder)? {
+            if is_dead(&tuple) {
+                let row = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+                let relation = Relation::from_meta_table_row(row);
+                builder.build_tree_mut(relation.root()).dealloc()?;
+                let mut meta_table = builder.build_tree_mut(self.meta_table);
+                meta_table.remove_tuple(self.meta_table, &tuple, &schema)?;
+            }
         }
 
-        // Now do the same with the meta index.
         let schema = meta_index_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
-
-            let mut meta_index = builder.build_tree(self.meta_index);
-
-            let position = match meta_index.search(&relation_name_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
-
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_index.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
-        };
-
+        for tuple in Self::collect_tuples(self.meta_index, builder)? {
+            if is_dead(&tuple) {
+                let mut meta_index = builder.build_tree_mut(self.meta_index);
+                meta_index.remove_tuple(self.meta_index, &tuple, &schema)?;
+            }
+        }
 
-        existing_tuple.delete(snapshot.xid())?;
+        Ok(())
+    }
 
-        {
-            let mut meta_index = builder.build_tree_mut(self.meta_index);
-            meta_index.update(self.meta_index, existing_tuple, &schema)?;
+    fn collect_tuples(root: PageId, builder: &BtreeBuilder) -> CatalogResult<Vec<Tuple>> {
+        let mut tree = builder.build_tree(root);
+        if tree.is_empty()? {
+            return Ok(Vec::new());
         }
 
-        Ok(())
+        let mut tuples = Vec::new();
+        for position in tree.iter_forward()? {
+            tuples.push(tree.with_cell_at(position?, Tuple::from_slice_unchecked)??);
+        }
+        Ok(tuples)
     }
 
     /// Removes a given relation using the provided id
@@ -651,9 +789,24 @@ impl Catalog {
         let mut tree = builder.build_tree_mut(self.meta_index);
 
         let tuple = Self::relation_as_meta_index_tuple(&relation, transaction_id)?;
+        let name = Blob::from(relation.name());
 
-        // Will replace existing relation if it exists.
-        tree.upsert(self.meta_index, tuple, &schema)?;
+        let existing = match tree.search(name.as_ref(), &schema)? {
+            SearchResult::Found(pos) => Some(tree.get_tuple_at_unchecked(pos, &schema)?),
+            SearchResult::NotFound(_) => None,
+        };
+
+        match existing {
+            // The name belonged to a relation which has been removed.
+            Some(mut existing) if existing.is_deleted() => {
+                let value = DataType::BigUInt(UInt64(relation.object_id()));
+                let changes = std::collections::HashMap::from([(0, value)]);
+                existing.add_version_with(&changes, transaction_id, &schema)?;
+                tree.update(self.meta_index, existing, &schema)?;
+            }
+            // Will replace existing relation if it exists.
+            _ => tree.upsert(self.meta_index, tuple, &schema)?,
+        }
 
         let schema = meta_table_schema();
         let object_id = relation.object_id();
@@ -668,6 +821,22 @@ impl Catalog {
         Ok(())
     }
 
+    /// Fails if the name of a relation is being used by a transaction that is not visible.
+    pub(crate) fn check_name_is_free(
+        &self,
+        name: &str,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let schema = meta_index_schema();
+        let mut meta_index = builder.build_tree(self.meta_index);
+        if let SearchResult::Found(pos) = meta_index.search(Blob::from(name).as_ref(), &schema)? {
+            let tuple = meta_index.get_tuple_at_unchecked(pos, &schema)?;
+            Self::check_not_concurrent(&tuple, 0, &schema, snapshot)?;
+        }
+        Ok(())
+    }
+
     /// Gets a relation id from the meta index, looking up by name
     pub(crate) fn bind_relation(
         &self,
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 58b92cb..51849b8 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1299,6 +1299,38 @@ impl Tuple {
         Ok(cursor)
     }
 
+    /// Overwrites a fixed size value of the tuple, without adding a version: all the snapshots see
+    /// the new value. The value must not be null, and must have never been modified by a version.
+    pub(crate) fn overwrite_value_with(
+        &mut self,
+        index: usize,
+        value: &DataType,
+        schema: &Schema,
+    ) -> TupleResult<()> {
+        let layout = TupleReader::from_schema(schema).parse_last_version(self.effective_data())?;
+        let offset = *layout
+            .value_offsets
+            .get(index)
+            .ok_or(TupleError::ValueError(index))?;
+        let column = schema.value(index).ok_or(TupleError::ValueError(index))?;
+
+        let is_null = self.as_tuple_ref_with(schema).is_null_with(index, schema);
+        if is_null || column.datatype().fixed_size().is_none() || column.datatype() != value.kind() {
+            return Err(TupleError::DataTypeMismatch((index, column.datatype())));
+        }
+
+        value.write_to(self.effective_data_mut(), offset)?;
+        Ok(())
+    }
+
+    /// Takes back the deletion of the tuple.
+    pub(crate) fn undelete(&mut self) {
+        let buffer = self.data.effective_data_mut();
+        let (mut header, _) = TupleHeader::read_from(buffer, 0);
+        header.xmax = -1;
+        header.write_to(buffer, 0);
+    }
+
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index aea1a6b..b713165 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -40,7 +40,7 @@ impl Session {
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
         self.check_open()?;
         self.finished = true;
-        self.ctx.abort_and_log(&self.logger)?;
+        self.ctx.rollback_session_and_log(&self.logger)?;
         Ok(())
     }
 
@@ -81,7 +81,7 @@ unsafe impl Sync for Session {}
 impl Drop for Session {
     fn drop(&mut self) {
         if !self.finished {
-            let _ = self.abort_transaction();
+            let _ = self.ctx.rollback_and_log(&self.logger);
         }
     }
 }
diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 8563faf..395bc02 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -17,6 +17,7 @@ use crate::{
 use super::{
     accessor::Position,
     cell_ops::{CellBuilder, CellComparator, CellDeallocator, Reassembler},
+    undo::UndoLog,
 };
 
 use std::{
@@ -110,6 +111,7 @@ where
     pub(crate) min_keys: usize,
     pub(crate) num_siblings_per_side: usize,
     accessor: Option<Acc>, // Lazy initialization for the accessor.
+    undo: Option<UndoLog>, // Where the changes to the tree are recorded.
 }
 
 impl<Acc> Btree<Acc>
@@ -138,8 +140,8 @@ where
             pager,
             min_keys,
             num_siblings_per_side,
-
             accessor: None,
+            undo: None,
         }
     }
 
@@ -148,6 +150,12 @@ where
         self
     }
 
+    /// Sets the log where the previous contents of the entries that change are recorded.
+    pub(crate) fn with_undo(mut self, undo: Option<UndoLog>) -> Self {
+        self.undo = undo;
+        self
+    }
+
     pub(crate) fn root_pos(&self) -> BtreePagePosition {
         Position::start_pos(self.root)
     }
@@ -710,6 +718,24 @@ where
             .ok_or_else(|| BtreeError::BtreePageNotFound(id))
     }
 
+    /// Records in the undo log that an entry is about to change.
+    fn record_undo(
+        &mut self,
+        position: Option<BtreePagePosition>,
+        written: Option<&Tuple>,
+        schema: &Schema,
+    ) -> BtreeResult<()> {
+        let Some(undo) = self.undo.clone() else {
+            return Ok(());
+        };
+        let previous = match position {
+            Some(position) => Some(self.get_tuple_at_unchecked(position, schema)?),
+            None => None,
+        };
+        undo.record(self.get_root(), schema, written, previous);
+        Ok(())
+    }
+
     /// Inserts a key at the corresponding position in the Btree.
     /// Returns an [BtreeError] if the key already exists.
     pub(crate) fn insert(
@@ -734,6 +760,7 @@ where
 
             SearchResult::NotFound(pos) => {
                 let page_id = pos.entry();
+                self.record_undo(None, Some(&data), schema)?;
                 self.insert_cell(page_id, data, target_cursor, schema)?;
                 Ok(())
             }
@@ -833,9 +860,13 @@ where
         )?;
 
         match search_result {
-            SearchResult::Found(pos) => self.update_cell(pos, data, schema)?, // This logic is similar to [self.insert]
+            SearchResult::Found(pos) => {
+                self.record_undo(Some(pos), Some(&data), schema)?;
+                self.update_cell(pos, data, schema)? // This logic is similar to [self.insert]
+            }
             SearchResult::NotFound(pos) => {
                 let page_id = pos.entry();
+                self.record_undo(None, Some(&data), schema)?;
                 self.insert_cell(page_id, data, target_cursor, schema)?;
             }
         };
@@ -862,7 +893,10 @@ where
         )?;
 
         match search_result {
-            SearchResult::Found(pos) => self.update_cell(pos, data, schema),
+            SearchResult::Found(pos) => {
+                self.record_undo(Some(pos), Some(&data), schema)?;
+                self.update_cell(pos, data, schema)
+            }
             SearchResult::NotFound(_) => Err(BtreeError::NonExistentKey),
         }?;
 
@@ -890,6 +924,7 @@ where
         match search_result {
             SearchResult::NotFound(_) => Err(BtreeError::NonExistentKey),
             SearchResult::Found(pos) => {
+                self.record_undo(Some(pos), None, schema)?;
                 let page_id = pos.entry();
                 let slot = pos.slot();
                 let page = self.get_page_mut(page_id)?;
@@ -923,6 +958,7 @@ where
         match search {
             SearchResult::NotFound(_) => Err(BtreeError::NonExistentKey),
             SearchResult::Found(pos) => {
+                self.record_undo(Some(pos), None, schema)?;
                 let page_id = pos.entry();
                 let slot = pos.slot();
                 let page = self.get_page_mut(page_id)?;
diff --git a/crates/axmos-db/src/tree/mod.rs b/crates/axmos-db/src/tree/mod.rs
index 35505a9..bc904f2 100644
--- a/crates/axmos-db/src/tree/mod.rs
+++ b/crates/axmos-db/src/tree/mod.rs
@@ -1,6 +1,7 @@
 pub mod accessor;
 pub mod bplustree;
 pub mod cell_ops;
+pub mod undo;
 
 #[cfg(not(miri))]
 #[cfg(test)]
diff --git a/crates/axmos-db/src/tree/undo.rs b/crates/axmos-db/src/tree/undo.rs
new file mode 100644
index 0000000..a29564b
--- /dev/null
+++ b/crates/axmos-db/src/tree/undo.rs
@@ -0,0 +1,142 @@
+//! Undo log of a transaction: what the trees it has changed held before each of its changes.
+
+use std::{
+    fmt::{Debug, Formatter, Result as FmtResult},
+    sync::Arc,
+};
+
+use crate::{
+    io::pager::BtreeBuilder,
+    schema::Schema,
+    storage::tuple::Tuple,
+    sync::Mutex,
+    tree::bplustree::BtreeResult,
+    types::{ObjectId, PageId, RowId},
+};
+
+/// Change made to the entry of a tree.
+pub(crate) struct UndoEntry {
+    root: PageId,
+    schema: Schema,
+    /// What the change wrote. Only kept if there was no entry before.
+    written: Option<Box<[u8]>>,
+    /// What the entry held before the change, if it existed.
+    previous: Option<Box<[u8]>>,
+    /// Row the entry belongs to, if the change has been written to the log.
+    row: Option<(ObjectId, RowId)>,
+    /// Whether the change comes from an UPDATE.
+    is_update: bool,
+}
+
+impl UndoEntry {
+    pub(crate) fn root(&self) -> PageId {
+        self.root
+    }
+
+    pub(crate) fn written(&self) -> Option<&[u8]> {
+        self.written.as_deref()
+    }
+
+    pub(crate) fn previous(&self) -> Option<&[u8]> {
+        self.previous.as_deref()
+    }
+
+    pub(crate) fn row(&self) -> Option<(ObjectId, RowId)> {
+        self.row
+    }
+
+    pub(crate) fn is_update(&self) -> bool {
+        self.is_update
+    }
+
+    /// Puts the entry back as it was before the change.
+    pub(crate) fn apply(&self, builder: &BtreeBuilder) -> BtreeResult<()> {
+        let mut tree = builder.build_tree_mut(self.root);
+        match (&self.previous, &self.written) {
+            (Some(previous), _) => {
+                let tuple = Tuple::from_slice_unchecked(previous)?;
+                tree.upsert(self.root, tuple, &self.schema)
+            }
+            (None, Some(written)) => {
+                let mut tuple = Tuple::from_slice_unchecked(written)?;
+                if self.row.is_none() {
+                    return tree.remove_tuple(self.root, &tuple, &self.schema);
+                }
+                // The row is left for VACUUM, deleted by the transaction that had inserted it.
+                let deleted_by = tuple.xmin();
+                tuple.delete(deleted_by)?;
+                tree.update(self.root, tuple, &self.schema)
+            }
+            (None, None) => Ok(()),
+        }
+    }
+}
+
+/// Changes made to the trees by a transaction, in the order in which they were made.
+#[derive(Clone, Default)]
+pub(crate) struct UndoLog(Arc<Mutex<Vec<UndoEntry>>>);
+
+impl Debug for UndoLog {
+    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
+        f.debug_struct("UndoLog").field("len", &self.len()).finish()
+    }
+}
+
+impl UndoLog {
+    /// Records that an entry of a tree is about to change.
+    pub(crate) fn record(
+        &self,
+        root: PageId,
+        schema: &Schema,
+        written: Option<&Tuple>,
+        previous: Option<Tuple>,
+    ) {
+        let written = written.filter(|_| previous.is_none()).map(Box::from);
+        let previous = previous.as_ref().map(Box::from);
+        self.0.lock().push(UndoEntry {
+            root,
+            schema: schema.clone(),
+            written,
+            previous,
+            row: None,
+            is_update: false,
+        });
+    }
+
+    /// Marks the last change as the change to a row which has been written to the log.
+    pub(crate) fn set_last_row(&self, object: ObjectId, row: RowId) {
+        if let Some(last) = self.0.lock().last_mut() {
+            last.row = Some((object, row));
+        }
+    }
+
+    /// Marks the changes made after the given point as the changes of an UPDATE.
+    pub(crate) fn mark_as_update(&self, savepoint: usize) {
+        for entry in self.0.lock().iter_mut().skip(savepoint) {
+            entry.is_update = true;
+        }
+    }
+
+    pub(crate) fn len(&self) -> usize {
+        self.0.lock().len()
+    }
+
+    /// Whether the transaction has changed the tree with the given root.
+    pub(crate) fn has_changed(&self, root: PageId) -> bool {
+        self.0.lock().iter().any(|entry| entry.root == root)
+    }
+
+    /// Takes out of the log the last change made after the given point.
+    pub(crate) fn pop_after(&self, savepoint: usize) -> Option<UndoEntry> {
+        let mut entries = self.0.lock();
+        if entries.len() > savepoint {
+            entries.pop()
+        } else {
+            None
+        }
+    }
+
+    pub(crate) fn clear(&self) {
+        self.0.lock().clear();
+    }
+}
-- 
2.43.0


From e6d27c87e239d10fe18e89ceafcdb7b5676bf6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 19/40] fix: schema changes keep constraints, rows and names
 coherent, and can be rolled back

---
 crates/axmos-db/src/runtime/context.rs |   3 +-
 crates/axmos-db/src/runtime/ddl.rs     | 404 +++++++++++++++++--------
 crates/axmos-db/src/runtime/dml.rs     |  14 +-
 crates/axmos-db/src/schema/base.rs     |  57 ++++
 crates/axmos-db/src/schema/catalog.rs  | 111 +++++--
 5 files changed, 436 insertions(+), 153 deletions(-)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index ab92691..5e8191b 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -406,11 +406,10 @@ impl TransactionContext {
         }
 
         // Nothing can be taken back anymore.
-        let changes_catalog = self.catalog.is_changed_by(self.handle.read().undo());
         self.handle.read().undo().clear();
         logger.log_end()?;
 
-        if changes_catalog {
+        if self.catalog.has_garbage() {
             self.reclaim_relations()?;
         }
         Ok(())
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..0a36386 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -12,12 +12,14 @@ use crate::{
     runtime::{
         RuntimeError, RuntimeResult,
         context::{ThreadContext, TransactionLogger},
+        dml::{DmlExecutor, extract_row_id},
         eval::eval_literal_expr,
+        validator::ValidationError,
     },
     schema::{
         DatabaseItem,
         base::{
-            Column, ForeignKeyInfo, Relation, Schema, SchemaError, SchemaResult, TableConstraint,
+            Column, ForeignKeyInfo, IndexHandle, Relation, Schema, SchemaError, SchemaResult, TableConstraint,
         },
         catalog::CatalogError,
     },
@@ -36,7 +38,10 @@ use rkyv::{
     util::AlignedVec,
 };
 
-use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::{
+    collections::HashSet,
+    fmt::{Display, Formatter, Result as FmtResult},
+};
 
 #[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
 pub(crate) enum DdlInstruction {
@@ -577,8 +582,14 @@ impl DdlExecutor {
 
                 let action = match action_type {
                     BoundAlterColumnAction::SetDefault(expr) => {
-                        let new_default =
-                            eval_literal_expr(expr).and_then(|dt| dt.serialize().ok());
+                        let new_default = match eval_literal_expr(expr) {
+                            Some(value) => value.try_cast(column.datatype())?,
+                            None => DataType::Null,
+                        };
+                        let new_default = match new_default {
+                            DataType::Null => None,
+                            value => Some(value.serialize()?),
+                        };
                         AlterColumnActionInstr::SetDefault {
                             old_default: column.default.clone(),
                             new_default,
@@ -623,6 +634,8 @@ impl DdlExecutor {
             )));
         }
 
+        self.check_name_is_free(&instr.table_name)?;
+
         let mut columns: Vec<Column> = Vec::with_capacity(instr.columns.len() + 1);
         columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
         columns.extend(instr.columns.iter().cloned());
@@ -648,6 +661,17 @@ impl DdlExecutor {
             self.add_constraint(&mut relation, constraint)?;
         }
 
+        if !instr.constraints.is_empty() {
+            self.ctx.catalog().update_relation(
+                object_id,
+                None,
+                Some(relation.into_schema()),
+                None,
+                &tree_builder,
+                &snapshot,
+            )?;
+        }
+
         let redo_bytes = instr.to_bytes()?;
         let undo_instr = instr.inverse(object_id);
         let undo_bytes = undo_instr.to_bytes()?;
@@ -713,10 +737,24 @@ impl DdlExecutor {
             ));
         }
 
+        let snapshot = self.ctx.snapshot();
+        let tree_builder = self.ctx.tree_builder();
+        let mut relation =
+            self.ctx
+                .catalog()
+                .get_relation(instr.table_id, &tree_builder, &snapshot)?;
+
         let index_id =
-            self.create_unique_index(instr.table_id, &instr.index_name, &instr.columns)?;
+            self.create_unique_index(&mut relation, &instr.index_name, &instr.columns)?;
 
-        println!("INdice creado con id {index_id}");
+        self.ctx.catalog().update_relation(
+            instr.table_id,
+            None,
+            Some(relation.into_schema()),
+            None,
+            &tree_builder,
+            &snapshot,
+        )?;
 
         let redo_bytes = instr.to_bytes()?;
         let undo_instr = instr.inverse(index_id);
@@ -775,18 +813,35 @@ impl DdlExecutor {
             )));
         }
 
-        let undo_instr = instr.try_inverse_with(relation.schema())?;
+        let catalog = self.ctx.catalog().clone();
+        catalog.check_schema_is_current(&relation, &tree_builder, snapshot)?;
+
+        let root = relation.root();
+        let previous = relation.schema().clone();
         let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
+        // A column which has been added only exists afterwards.
+        let undo_instr = instr
+            .try_inverse_with(&previous)
+            .or_else(|_| instr.try_inverse_with(relation.schema()))?;
 
         let id = relation.object_id();
-        self.ctx.catalog().update_relation(
-            id,
-            None,
-            Some(relation.into_schema()),
-            None,
-            &tree_builder,
-            self.ctx.snapshot(),
-        )?;
+        if relation.root() == root {
+            catalog.update_relation(
+                id,
+                None,
+                Some(relation.into_schema()),
+                None,
+                &tree_builder,
+                snapshot,
+            )?;
+        } else {
+            let new_root = relation.root();
+            if let Err(err) = catalog.replace_relation(relation, &tree_builder, snapshot) {
+                let mut tree = tree_builder.without_undo().build_tree_mut(new_root);
+                tree.dealloc()?;
+                return Err(err.into());
+            }
+        }
 
         let redo_bytes = instr.to_bytes()?;
         let undo_bytes = undo_instr.to_bytes()?;
@@ -801,17 +856,27 @@ impl DdlExecutor {
     }
 
     fn apply_alter_action(
-        &mut self,
+        &self,
         relation: &mut Relation,
         action: &AlterActionInstr,
     ) -> RuntimeResult<String> {
         match action {
             AlterActionInstr::AddColumn { column } => {
                 let name = column.name().to_string();
+                let value = column.default_value()?;
+                let previous = relation.schema().clone();
                 relation.add_column(column.clone())?;
+                self.copy_rows(relation, &previous, |row| {
+                    if column.is_non_null && value.is_null() {
+                        return Err(self.not_null_error(&name));
+                    }
+                    row.push(value.clone());
+                    Ok(())
+                })?;
                 Ok(format!("ADD COLUMN {}", name))
             }
             AlterActionInstr::DropColumn { column_idx } => {
+                let previous = relation.schema().clone();
                 let schema = relation.schema_mut();
                 if *column_idx < schema.num_keys() {
                     return Err(RuntimeError::CannotUpdateKeyColumn);
@@ -822,7 +887,14 @@ impl DdlExecutor {
                     .ok_or(SchemaError::ColumnIndexOutOfBounds(*column_idx))?
                     .name()
                     .to_string();
+                if schema.is_constrained(*column_idx) {
+                    return Err(self.constrained_error(&name));
+                }
                 schema.remove_column_unchecked(*column_idx);
+                self.copy_rows(relation, &previous, |row| {
+                    row.remove(*column_idx);
+                    Ok(())
+                })?;
                 Ok(format!("DROP COLUMN {}", name))
             }
             AlterActionInstr::AlterColumn { column_idx, action } => {
@@ -840,6 +912,12 @@ impl DdlExecutor {
         column_idx: usize,
         action: &AlterColumnActionInstr,
     ) -> RuntimeResult<String> {
+        let previous = relation.schema().clone();
+        let is_constrained = previous.is_constrained(column_idx);
+        if column_idx < previous.num_keys() {
+            return Err(RuntimeError::CannotUpdateKeyColumn);
+        }
+
         let schema = relation.schema_mut();
         let column = schema
             .columns
@@ -857,12 +935,33 @@ impl DdlExecutor {
             }
             AlterColumnActionInstr::SetNotNull { .. } => {
                 column.is_non_null = true;
+                for row in self.read_rows(relation, &previous)? {
+                    if row[column_idx].is_null() {
+                        return Err(self.not_null_error(&column_name));
+                    }
+                }
             }
             AlterColumnActionInstr::DropNotNull { .. } => {
+                if previous.is_in_primary_key(column_idx) {
+                    return Err(self.constrained_error(&column_name));
+                }
                 column.is_non_null = false;
             }
             AlterColumnActionInstr::SetDataType { new_type, .. } => {
+                if is_constrained {
+                    return Err(self.constrained_error(&column_name));
+                }
+                let default = column.default_value()?;
                 column.dtype = *new_type;
+                let datatype = column.datatype();
+                column.default = match default.try_cast(datatype)? {
+                    DataType::Null => None,
+                    value => Some(value.serialize()?),
+                };
+                self.copy_rows(relation, &previous, |row| {
+                    row[column_idx] = row[column_idx].try_cast(datatype)?;
+                    Ok(())
+                })?;
             }
         }
 
@@ -870,7 +969,7 @@ impl DdlExecutor {
     }
 
     fn add_constraint(
-        &mut self,
+        &self,
         relation: &mut Relation,
         constraint: &TableConstraint,
     ) -> RuntimeResult<String> {
@@ -894,13 +993,20 @@ impl DdlExecutor {
                     }
                 }
 
+                let schema = relation.schema().clone();
+                for row in self.read_rows(relation, &schema)? {
+                    if let Some(&idx) = col_indices.iter().find(|&&idx| row[idx].is_null()) {
+                        let name = schema.column(idx).map(|c| c.name()).unwrap_or_default();
+                        return Err(self.not_null_error(name));
+                    }
+                }
+
                 let col_names: Vec<String> = col_indices
                     .iter()
                     .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
                     .collect();
 
-                let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+                self.create_constraint_index(relation, &col_names, col_indices)?;
 
                 Ok(format!(
                     "ADDED PRIMARY KEY CONSTRAINT ON COLUMNS: {}",
@@ -917,8 +1023,7 @@ impl DdlExecutor {
                     .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
                     .collect();
 
-                let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+                self.create_constraint_index(relation, &col_names, col_indices)?;
 
                 Ok(format!(
                     "ADDED UNIQUE CONSTRAINT ON COLUMNS: {}",
@@ -949,149 +1054,188 @@ impl DdlExecutor {
         }
     }
 
+    /// Creates the index that enforces a constraint, if there is not any yet.
+    fn create_constraint_index(
+        &self,
+        relation: &mut Relation,
+        col_names: &[String],
+        columns: &[usize],
+    ) -> RuntimeResult<()> {
+        let is_indexed = relation
+            .get_indexes()
+            .iter()
+            .any(|index| index.indexed_column_ids() == columns);
+        if is_indexed {
+            return Ok(());
+        }
+
+        let name = index_name(col_names, relation.name());
+        if self.relation_exists(&name) {
+            return Err(RuntimeError::AlreadyExists(DatabaseItem::Index(name)));
+        }
+        self.create_unique_index(relation, &name, columns)?;
+        Ok(())
+    }
+
+    /// Creates an unique index, adding it to the schema of the table.
     fn create_unique_index(
-        &mut self,
-        table_id: ObjectId,
+        &self,
+        table: &mut Relation,
         index_name: &str,
         indexed_column_ids: &[usize],
     ) -> RuntimeResult<ObjectId> {
         let num_keys = indexed_column_ids.len();
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
+        let catalog = self.ctx.catalog();
 
-        let mut table_relation =
-            self.ctx
-                .catalog()
-                .get_relation(table_id, &tree_builder, &snapshot)?;
-
-        let table_root = table_relation.root();
+        self.check_name_is_free(index_name)?;
+        catalog.check_schema_is_current(table, &tree_builder, snapshot)?;
 
+        let schema = table.schema().clone();
         let mut index_columns: Vec<Column> = Vec::with_capacity(indexed_column_ids.len() + 1);
-
-        {
-            let table_schema = table_relation.schema();
-            for idx in indexed_column_ids {
-                if let Some(column) = table_schema.column(*idx) {
-                    index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
-                }
-            }
+        for idx in indexed_column_ids {
+            let column = schema
+                .column(*idx)
+                .ok_or(SchemaError::ColumnIndexOutOfBounds(*idx))?;
+            index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
         }
-
         index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
 
-        let object_id = self.ctx.catalog().get_next_object_id();
-        let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
-
-        let index_relation =
-            Relation::index(object_id, index_name, root_page, index_columns, num_keys);
-
-        let index_root = index_relation.root();
-        let index_schema = index_relation.schema().clone();
-
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        self.ctx
-            .catalog()
-            .store_relation(index_relation, &tree_builder, snapshot.xid())?;
+        let object_id = catalog.get_next_object_id();
+        let entries = self.index_entries(table, &schema, object_id, indexed_column_ids)?;
 
-        {
-            let table_schema = table_relation.schema_mut();
+        let root = self.ctx.pager().write().allocate_page::<BtreePage>()?;
+        let index = Relation::index(object_id, index_name, root, index_columns, num_keys);
+        let index_schema = index.schema().clone();
+        catalog.store_relation(index, &tree_builder, snapshot.xid())?;
 
-            if let Some(constraints) = table_schema.table_constraints.as_mut() {
-                let already_exists = constraints.iter().any(
-                    |c| matches!(c, TableConstraint::Unique(cols) if cols == indexed_column_ids),
-                );
-                if !already_exists {
-                    constraints.push(TableConstraint::Unique(indexed_column_ids.to_vec()));
-                }
-            }
+        // If the index has to be removed, its entries do not matter.
+        let mut index_btree = tree_builder.without_undo().build_tree_mut(root);
+        for entry in entries {
+            let tuple = TupleBuilder::from_schema(&index_schema).build(&entry, snapshot.xid())?;
+            index_btree.insert(root, tuple, &index_schema)?;
+        }
 
-            if let Some(indexes) = table_schema.table_indexes.as_mut() {
-                indexes.insert(object_id, indexed_column_ids.to_vec());
+        let table_schema = table.schema_mut();
+        if let Some(constraints) = table_schema.table_constraints.as_mut() {
+            let already_exists = constraints.iter().any(
+                |c| matches!(c, TableConstraint::Unique(cols) if cols == indexed_column_ids),
+            );
+            if !already_exists {
+                constraints.push(TableConstraint::Unique(indexed_column_ids.to_vec()));
             }
         }
 
-        self.ctx.catalog().update_relation(
-            table_id,
-            None,
-            Some(table_relation.schema().clone()),
-            None,
-            &tree_builder,
-            &snapshot,
-        )?;
-
-        self.populate_index(
-            table_root,
-            table_relation.schema(),
-            index_root,
-            &index_schema,
-            indexed_column_ids,
-        )?;
+        if let Some(indexes) = table_schema.table_indexes.as_mut() {
+            indexes.insert(object_id, indexed_column_ids.to_vec());
+        }
 
         Ok(object_id)
     }
 
-    fn populate_index(
-        &mut self,
-        table_root: PageId,
-        table_schema: &Schema,
-        index_root: PageId,
-        index_schema: &Schema,
-        indexed_column_ids: &[usize],
-    ) -> RuntimeResult<()> {
-        let snapshot = self.ctx.snapshot();
-        let tid = snapshot.xid();
-
-        let mut index_entries: Vec<Row> = Vec::new();
-
-        {
-            let mut table_btree = self.ctx.build_tree(table_root);
-
-            if table_btree.is_empty()? {
-                return Ok(());
+    /// Entries that a new index has to have.
+    fn index_entries(
+        &self,
+        table: &Relation,
+        schema: &Schema,
+        index_id: ObjectId,
+        columns: &[usize],
+    ) -> RuntimeResult<Vec<Row>> {
+        let index = IndexHandle::new(index_id, columns.to_vec());
+        let mut keys = HashSet::new();
+        let mut entries = Vec::new();
+        for row in self.read_rows(table, schema)? {
+            let Some(key) = DmlExecutor::index_key(&index, &row)? else {
+                continue;
+            };
+            if !keys.insert(key) {
+                let columns: Vec<&str> = columns
+                    .iter()
+                    .filter_map(|&idx| schema.column(idx).map(|c| c.name()))
+                    .collect();
+                return Err(ValidationError::UniqueConstraintViolated(DatabaseItem::Column(
+                    columns.join(","),
+                    table.name().to_string(),
+                ))
+                .into());
             }
+            let row_id = extract_row_id(&row)?.value();
+            entries.push(DmlExecutor::index_entry(&index, &row, row_id));
+        }
+        Ok(entries)
+    }
 
-            let positions: Vec<crate::tree::accessor::BtreePagePosition> = table_btree
-                .iter_forward()?
-                .filter(|p| p.is_ok())
-                .map(|f| f.unwrap())
-                .collect();
-
-            for pos in positions {
-                let row = table_btree.get_row_at(pos, table_schema, &snapshot)?;
-
-                let Some(row) = row else { continue };
-
-                let row_id = row.first();
-                let Some(DataType::BigUInt(UInt64(value))) = row_id else {
-                    return Err(RuntimeError::Other(
-                        "Tables should have row id type for the first column!".to_string(),
-                    ));
-                };
-
-                let mut entry_values: Vec<DataType> =
-                    Vec::with_capacity(indexed_column_ids.len() + 1);
-                for &col_idx in indexed_column_ids {
-                    if col_idx < row.len() {
-                        entry_values.push(row[col_idx].clone());
-                    }
-                }
-                entry_values.push(DataType::BigUInt(UInt64(*value)));
+    /// Gets all the rows of a table.
+    ///
+    /// Fails if a transaction which is not visible to this one has modified any of them.
+    fn read_rows(&self, table: &Relation, schema: &Schema) -> RuntimeResult<Vec<Row>> {
+        let snapshot = self.ctx.snapshot();
+        let dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        let mut btree = self.ctx.build_tree(table.root());
+        if btree.is_empty()? {
+            return Ok(Vec::new());
+        }
 
-                index_entries.push(Row::new(entry_values.into_boxed_slice()));
+        let positions = btree.iter_forward()?.collect::<Result<Vec<_>, _>>()?;
+        let mut rows = Vec::with_capacity(positions.len());
+        for position in positions {
+            let tuple = btree.get_tuple_at_unchecked(position, schema)?;
+            if dml.is_written_concurrently(&tuple, schema)? {
+                return Err(dml.conflict(table, 0));
+            }
+            if let Some(row) = btree.get_row_at(position, schema, snapshot)? {
+                rows.push(row);
             }
         }
+        Ok(rows)
+    }
 
-        let mut index_btree = self.ctx.build_tree_mut(index_root);
-        for entry in index_entries {
-            let tuple = TupleBuilder::from_schema(index_schema).build(&entry, tid)?;
-            index_btree.insert(index_root, tuple, index_schema)?;
+    /// Moves the rows of a table to a new tree, as the schema of the table has changed.
+    fn copy_rows(
+        &self,
+        table: &mut Relation,
+        previous: &Schema,
+        change: impl Fn(&mut Vec<DataType>) -> RuntimeResult<()>,
+    ) -> RuntimeResult<()> {
+        let tid = self.ctx.tid();
+        let mut tuples = Vec::new();
+        for row in self.read_rows(table, previous)? {
+            let mut values = row.as_slice().to_vec();
+            change(&mut values)?;
+            tuples.push(TupleBuilder::from_schema(table.schema()).build(&Row::from(values), tid)?);
         }
 
+        let root = self.ctx.pager().write().allocate_page::<BtreePage>()?;
+        let mut tree = self.ctx.tree_builder().without_undo().build_tree_mut(root);
+        for tuple in tuples {
+            if let Err(err) = tree.insert(root, tuple, table.schema()) {
+                tree.dealloc()?;
+                return Err(err.into());
+            }
+        }
+        table.set_root_page(root);
         Ok(())
     }
 
+    fn check_name_is_free(&self, name: &str) -> RuntimeResult<()> {
+        let tree_builder = self.ctx.tree_builder();
+        let catalog = self.ctx.catalog();
+        Ok(catalog.check_name_is_free(name, &tree_builder, self.ctx.snapshot())?)
+    }
+
+    fn not_null_error(&self, column: &str) -> RuntimeError {
+        RuntimeError::Schema(SchemaError::ConstraintViolation(format!(
+            "column {column} would contain NULL values"
+        )))
+    }
+
+    fn constrained_error(&self, column: &str) -> RuntimeError {
+        RuntimeError::Schema(SchemaError::ConstraintViolation(format!(
+            "column {column} is part of a constraint or an index"
+        )))
+    }
+
     fn relation_exists(&self, name: &str) -> bool {
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 3f9405a..f4d4e2a 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -127,7 +127,7 @@ impl DmlExecutor {
         Ok(Some((tuple, row)))
     }
 
-    fn is_written_concurrently(&self, tuple: &Tuple, schema: &Schema) -> RuntimeResult<bool> {
+    pub(crate) fn is_written_concurrently(&self, tuple: &Tuple, schema: &Schema) -> RuntimeResult<bool> {
         let writers = [
             Some(tuple.xmin()),
             tuple.xmax(),
@@ -139,7 +139,7 @@ impl DmlExecutor {
             .any(|writer| self.ctx.is_concurrent(writer)))
     }
 
-    fn conflict(&self, relation: &Relation, row_id: RowId) -> RuntimeError {
+    pub(crate) fn conflict(&self, relation: &Relation, row_id: RowId) -> RuntimeError {
         let logical_id = LogicalId::new(relation.object_id(), row_id);
         TransactionError::WriteWriteConflict(self.ctx.tid(), logical_id).into()
     }
@@ -368,13 +368,19 @@ impl DmlExecutor {
         row_id: UInt64,
     ) -> RuntimeResult<Row> {
         let num_cols = schema.num_columns();
-        let mut full_values: Vec<DataType> = vec![DataType::Null; num_cols];
+        let mut full_values = Vec::with_capacity(num_cols);
+        for column in schema.iter_columns() {
+            full_values.push(column.default_value()?);
+        }
 
         // First column is always the row ID (primary key)
         full_values[0] = DataType::BigUInt(row_id);
 
         // Map input columns to schema positions with type casting
         for (input_idx, &schema_col_idx) in columns.iter().enumerate() {
+            if schema_col_idx == 0 {
+                return Err(RuntimeError::CannotUpdateKeyColumn);
+            }
             if input_idx < values.len() && schema_col_idx < num_cols {
                 let expected_type = schema
                     .column(schema_col_idx)
@@ -390,7 +396,7 @@ impl DmlExecutor {
 
     /// Serialized values of the columns of an index. Rows where any of them is NULL are not part of
     /// the index.
-    fn index_key(index: &IndexHandle, row: &Row) -> RuntimeResult<Option<Vec<Box<[u8]>>>> {
+    pub(crate) fn index_key(index: &IndexHandle, row: &Row) -> RuntimeResult<Option<Vec<Box<[u8]>>>> {
         let mut key = Vec::with_capacity(index.indexed_column_ids().len());
         for &idx in index.indexed_column_ids() {
             let value = row
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index 4a11e19..6bd1428 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -83,6 +83,8 @@ impl From<&BoundColumnDef> for Column {
             .default
             .as_ref()
             .and_then(|expr| eval_literal_expr(expr))
+            .and_then(|dt: DataType| dt.try_cast(value.data_type).ok())
+            .filter(|dt| !dt.is_null())
             .and_then(|dt: DataType| dt.serialize().ok());
 
         col
@@ -157,6 +159,23 @@ impl Schema {
         // Remove from columns vector
         self.columns.remove(index);
         self.reindex();
+
+        // The columns that came after it have moved.
+        let shift = |columns: &mut Vec<usize>| {
+            for column in columns.iter_mut().filter(|column| **column > index) {
+                *column -= 1;
+            }
+        };
+        for columns in self.table_indexes.iter_mut().flat_map(|i| i.values_mut()) {
+            shift(columns);
+        }
+        for constraint in self.table_constraints.iter_mut().flatten() {
+            match constraint {
+                TableConstraint::PrimaryKey(columns)
+                | TableConstraint::Unique(columns)
+                | TableConstraint::ForeignKey { columns, .. } => shift(columns),
+            }
+        }
     }
 
     pub(crate) fn new_empty() -> Self {
@@ -177,6 +196,33 @@ impl Schema {
         }
     }
 
+    /// Whether any constraint or index involves the column.
+    pub(crate) fn is_constrained(&self, column: usize) -> bool {
+        let in_index = self
+            .table_indexes
+            .iter()
+            .flat_map(|indexes| indexes.values())
+            .any(|columns| columns.contains(&column));
+        let in_constraint = self
+            .table_constraints
+            .iter()
+            .flatten()
+            .any(|constraint| match constraint {
+                TableConstraint::PrimaryKey(columns)
+                | TableConstraint::Unique(columns)
+                | TableConstraint::ForeignKey { columns, .. } => columns.contains(&column),
+            });
+        in_index || in_constraint
+    }
+
+    /// Whether the column is part of the primary key.
+    pub(crate) fn is_in_primary_key(&self, column: usize) -> bool {
+        self.table_constraints
+            .iter()
+            .flatten()
+            .any(|c| matches!(c, TableConstraint::PrimaryKey(cols) if cols.contains(&column)))
+    }
+
     pub(crate) fn has_primary_key(&self) -> bool {
         self.table_constraints.as_ref().is_some_and(|v| {
             v.iter()
@@ -605,6 +651,17 @@ impl Column {
         Ok(self)
     }
 
+    /// Value that the column takes when no value is given for it.
+    pub(crate) fn default_value(&self) -> SerializationResult<DataType> {
+        let Some(default) = &self.default else {
+            return Ok(DataType::Null);
+        };
+        let mut aligned = AlignedVec::<16>::new();
+        aligned.extend_from_slice(default);
+        let (value, _) = self.datatype().deserialize(&aligned, 0)?;
+        Ok(value.to_owned().unwrap_or(DataType::Null))
+    }
+
     /// Add a non null constraint to the column
     pub(crate) fn with_non_null_constraint(mut self) -> Self {
         self.is_non_null = true;
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 26cd815..bb6135f 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -26,7 +26,8 @@ use super::{
 
 use std::collections::HashSet;
 use std::fmt::{Display, Formatter, Result as FmtResult};
-use crate::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard, SystemTime};
+use crate::sync::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard, SystemTime};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::UNIX_EPOCH;
 
 #[derive(Debug)]
@@ -124,6 +125,10 @@ pub struct Catalog {
     pager: SharedPager,
     /// Statements that only read hold it for reading, and everything else for writing.
     statements: RwLock<()>,
+    /// Trees that tables had before being altered, with the transaction that altered them.
+    replaced: Mutex<Vec<(TransactionId, PageId)>>,
+    /// Whether there may be anything to reclaim.
+    has_garbage: AtomicBool,
 }
 
 impl Catalog {
@@ -133,6 +138,8 @@ impl Catalog {
             meta_index,
             pager,
             statements: RwLock::new(()),
+            replaced: Mutex::new(Vec::new()),
+            has_garbage: AtomicBool::new(false),
         }
     }
 
@@ -146,28 +153,54 @@ impl Catalog {
         self.statements.write()
     }
 
-    /// Whether any of the changes of a transaction affects the catalog.
-    pub(crate) fn is_changed_by(&self, undo: &UndoLog) -> bool {
-        undo.has_changed(self.meta_table)
+    /// Whether there may be relations to free. See [`Self::reclaim`].
+    pub(crate) fn has_garbage(&self) -> bool {
+        self.has_garbage.load(Ordering::Acquire)
     }
 
-    /// Takes back a change made by a transaction, freeing the relations it had created.
+    /// Takes back a change made by a transaction, freeing the trees it had created.
     pub(crate) fn undo(&self, entry: &UndoEntry, builder: &BtreeBuilder) -> CatalogResult<()> {
-        let created = if entry.root() == self.meta_table && entry.previous().is_none() {
-            entry.written()
+        if entry.root() == self.meta_table {
+            self.undo_relation(entry, builder)?;
         } else {
-            None
-        };
+            entry.apply(builder)?;
+        }
+        Ok(())
+    }
 
-        if let Some(tuple) = created {
-            let schema = meta_table_schema();
-            let tuple = Tuple::from_slice_unchecked(tuple)?;
+    fn undo_relation(&self, entry: &UndoEntry, builder: &BtreeBuilder) -> CatalogResult<()> {
+        let schema = meta_table_schema();
+        let read = |tuple: &Tuple| -> CatalogResult<Relation> {
             let row = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
-            let relation = Relation::from_meta_table_row(row);
-            builder.build_tree_mut(relation.root()).dealloc()?;
-        }
+            Ok(Relation::from_meta_table_row(row))
+        };
+
+        let Some(previous) = entry.previous() else {
+            if let Some(written) = entry.written() {
+                let created = read(&Tuple::from_slice_unchecked(written)?)?;
+                builder.build_tree_mut(created.root()).dealloc()?;
+            }
+            entry.apply(builder)?;
+            return Ok(());
+        };
 
-        entry.apply(builder)?;
+        let mut previous = Tuple::from_slice_unchecked(previous)?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+        if let SearchResult::Found(pos) = meta_table.search_tuple(&previous, &schema)? {
+            let current = read(&meta_table.get_tuple_at_unchecked(pos, &schema)?)?;
+            let root = read(&previous)?.root();
+            if current.root() != root {
+                builder.build_tree_mut(current.root()).dealloc()?;
+                self.replaced.lock().retain(|(_, replaced)| *replaced != root);
+            }
+            // Row ids which have been given are not taken back.
+            if current.is_table() {
+                let value = DataType::BigUInt(current.next_row_id());
+                let value_id = schema.bind_value("next_row_id")?;
+                previous.overwrite_value_with(value_id, &value, &schema)?;
+            }
+        }
+        meta_table.upsert(self.meta_table, previous, &schema)?;
         Ok(())
     }
 
@@ -583,6 +616,41 @@ impl Catalog {
         Ok(())
     }
 
+    /// Updates the schema of a relation whose rows have been copied to a new tree.
+    ///
+    /// The previous tree is not freed until no transaction can see it. See [`Self::reclaim`].
+    pub(crate) fn replace_relation(
+        &self,
+        relation: Relation,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let id = relation.object_id();
+        let schema = meta_table_schema();
+        let mut tuple = self
+            .visible_meta_tuple(id, builder, snapshot)?
+            .ok_or(CatalogError::TableNotFound(id))?;
+        Self::check_not_concurrent(&tuple, id, &schema, snapshot)?;
+
+        let previous = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+        let previous = Relation::from_meta_table_row(previous).root();
+        let root = DataType::BigUInt(UInt64(relation.root()));
+        let table_schema = DataType::Blob(relation.schema().to_blob()?);
+        let changes = std::collections::HashMap::from([
+            (schema.bind_value("root_page")?, root),
+            (schema.bind_value("schema")?, table_schema),
+            // The statistics are about the previous columns.
+            (schema.bind_value("stats")?, DataType::Null),
+        ]);
+        tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+        meta_table.update(self.meta_table, tuple, &schema)?;
+
+        self.replaced.lock().push((snapshot.xid(), previous));
+        self.has_garbage.store(true, Ordering::Release);
+        Ok(())
+    }
+
     /// Fails if the schema of the relation a transaction sees is not the latest one.
     pub(crate) fn check_schema_is_current(
         &self,
@@ -613,7 +681,7 @@ impl Catalog {
     }
 
     /// Fails if an entry of the catalog has been changed by a transaction that is not visible.
-    fn check_not_concurrent(
+    pub(crate) fn check_not_concurrent(
         tuple: &Tuple,
         id: ObjectId,
         schema: &Schema,
@@ -694,6 +762,7 @@ impl Catalog {
             return Ok(());
         };
         Self::check_not_concurrent(&tuple, relation_id, &schema, snapshot)?;
+        self.has_garbage.store(true, Ordering::Release);
         tuple.delete(snapshot.xid())?;
         let mut meta_table = builder.build_tree_mut(self.meta_table);
         meta_table.update(self.meta_table, tuple, &schema)?;
@@ -726,6 +795,14 @@ impl Catalog {
                 .is_some_and(|xmax| coordinator.state(xmax) != Some(TransactionState::Aborted))
         };
 
+        let replaced = std::mem::take(&mut *self.replaced.lock());
+        for (altered_by, root) in replaced {
+            if coordinator.state(altered_by) != Some(TransactionState::Aborted) {
+                builder.build_tree_mut(root).dealloc()?;
+            }
+        }
+        self.has_garbage.store(false, Ordering::Release);
+
         let schema = meta_table_schema();
         for tuple in Self::collect_tuples(self.meta_table, builder)? {
             if is_dead(&tuple) {
-- 
2.43.0


From 9202a12ba25a2712ffbc5ad7a8c9e3c54370626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 20/40] fix: errors while evaluating predicates and panics of
 tasks are reported, and indexes of nullable columns do not lose rows

---
 .../axmos-db/src/multithreading/threadpool.rs |  4 ++-
 crates/axmos-db/src/runtime/eval.rs           | 16 ++++++++---
 crates/axmos-db/src/runtime/ops/index_scan.rs | 28 +++++++------------
 crates/axmos-db/src/runtime/ops/seq_scan.rs   | 14 ++++------
 crates/axmos-db/src/schema/stats.rs           |  4 +--
 crates/axmos-db/src/sql/planner/rules.rs      | 10 +++++++
 6 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index a4bf5c9..361271d 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{AssertUnwindSafe, catch_unwind},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -128,7 +129,8 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A task that panics must not take the worker down with it.
+                        let _ = catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..6941294 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -142,7 +142,9 @@ impl<'a> ExpressionEvaluator<'a> {
                 ))])
             }
             BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subquery evaluation is not yet implemented".to_string(),
+                ))
             }
             BoundExpression::InList {
                 expr,
@@ -168,14 +170,18 @@ impl<'a> ExpressionEvaluator<'a> {
                 ))])
             }
             BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subquery evaluation is not yet implemented".to_string(),
+                ))
             }
             BoundExpression::InSubquery {
                 expr,
                 query,
                 negated,
             } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subquery evaluation is not yet implemented".to_string(),
+                ))
             }
             BoundExpression::Function {
                 func,
@@ -269,7 +275,9 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            _ => Err(EvaluationError::InvalidExpression(
+                "the expression cannot be evaluated here".to_string(),
+            )),
         }
     }
 
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index db3974c..eea213d 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,18 +163,13 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.index_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_index_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(found_row) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
+                continue;
+            };
+            if !self.evaluate_index_predicate(&found_row)? {
                 continue;
             }
 
-            let found_row = maybe_row.unwrap();
             let row_key_bytes = self.get_row_id_checked(&found_row)?.serialize()?;
 
             // Build the table tree
@@ -183,19 +178,16 @@ impl Executor for IndexScan {
                 table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?;
 
             if let SearchResult::Found(found_pos) = actual_row_result {
-                let actual_row = tree
-                    .get_row_at(found_pos, &self.table_schema, &snapshot)?
-                    .filter(|r| {
-                        self.evaluate_residual_predicate(r)
-                            .expect("Predicate evaluation failed")
-                    });
-
-                if actual_row.is_none() {
+                let row = tree.get_row_at(found_pos, &self.table_schema, &snapshot)?;
+                let Some(row) = row else {
+                    continue;
+                };
+                if !self.evaluate_residual_predicate(&row)? {
                     continue;
                 }
 
                 self.stats.rows_produced += 1;
-                return Ok(Some(actual_row.unwrap()));
+                return Ok(Some(row));
             } else {
                 continue;
             }
diff --git a/crates/axmos-db/src/runtime/ops/seq_scan.rs b/crates/axmos-db/src/runtime/ops/seq_scan.rs
index 6d9f9f5..cbc25d5 100644
--- a/crates/axmos-db/src/runtime/ops/seq_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/seq_scan.rs
@@ -98,19 +98,15 @@ impl Executor for SeqScan {
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
 
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.output_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(row) = tree.get_row_at(next_pos, &self.output_schema, &snapshot)? else {
+                continue;
+            };
+            if !self.evaluate_predicate(&row)? {
                 continue;
             }
 
             self.stats.rows_produced += 1;
-            return Ok(Some(maybe_row.unwrap()));
+            return Ok(Some(row));
         }
     }
 
diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..bf1334b 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..ffcfafa 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1436,6 +1436,16 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // The index does not have the rows where any of its columns is NULL.
+        let bounds = || range_start.iter().chain(range_end.iter()).flatten();
+        let has_all_rows = indexed_columns.iter().enumerate().all(|(position, column)| {
+            bounds().any(|bound| bound.col_idx == position)
+                || scan.schema.column(*column).is_some_and(|c| c.is_non_null)
+        });
+        if !has_all_rows {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
-- 
2.43.0


From 41282031d8e54deed8cfc5597b81221c72555219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 21/40] fix: merge joins skip rows with NULL keys, and NOT
 binds tighter than AND

---
 crates/axmos-db/src/runtime/ops/join.rs | 10 +++++++---
 crates/axmos-db/src/sql/parser/mod.rs   |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..991b631 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -573,11 +573,15 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
         &self.stats
     }
 
+    /// Rows with a NULL in their key match nothing, and are skipped wherever they come in the order.
     fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
+        if left_keys.iter().any(|l| matches!(l, DataType::Null)) {
+            return Ordering::Less;
+        }
+        if right_keys.iter().any(|r| matches!(r, DataType::Null)) {
+            return Ordering::Greater;
+        }
         for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
-                return Ordering::Greater;
-            }
             match l.partial_cmp(r) {
                 Some(Ordering::Equal) => continue,
                 Some(ord) => return ord,
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..979dc8b 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -249,12 +249,12 @@ impl Parser {
             // Token::Or => Some((1, 2)),
             // Token::And => Some((3, 4)),
             // ´´´
-            // By giving here the NOT operator a precedence of three, we are making sur it binds tighter than  AND & OR,
+            // By giving here the NOT operator a precedence of four (that of AND to its left is three), we are making sur it binds tighter than  AND & OR,
             // but looselier than +, - , * an unary operators.
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(4)?; // NOT precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
-- 
2.43.0


From a1eee8cc193a7046b068072b900e3bcca6efb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 22/40] fix: optimizer rewrites keep predicates, columns and
 the groups of different filters apart

Commuting a join swapped its columns, associativity dropped predicates, and
the memo merged filters which only differ in their predicates.
---
 crates/axmos-db/src/sql/planner/logical.rs |   3 +
 crates/axmos-db/src/sql/planner/memo.rs    |  31 +-
 crates/axmos-db/src/sql/planner/rules.rs   | 603 +++++++++++----------
 3 files changed, 335 insertions(+), 302 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..be44bab 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -268,6 +268,8 @@ pub struct JoinOp {
     pub left_schema: Schema,
     pub right_schema: Schema,
     pub output_schema: Schema,
+    /// Whether it comes from swapping the inputs of another join.
+    pub swapped: bool,
 }
 
 impl JoinOp {
@@ -284,6 +286,7 @@ impl JoinOp {
             left_schema,
             right_schema,
             output_schema,
+            swapped: false,
         }
     }
 
diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..400b7a2 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -213,6 +213,11 @@ impl Memo {
         hasher.finish()
     }
 
+    /// Hashes the whole structure of the expressions of an operator.
+    fn hash_structure(value: &impl std::fmt::Debug, hasher: &mut DefaultHasher) {
+        format!("{value:?}").hash(hasher);
+    }
+
     /// Hashes operator-specific data for deduplication.
     fn hash_operator(&self, op: &LogicalOperator, hasher: &mut DefaultHasher) {
         match op {
@@ -220,26 +225,31 @@ impl Memo {
                 scan.table_id.hash(hasher);
                 scan.table_name.hash(hasher);
                 scan.columns.hash(hasher);
-                // Note: predicate not hashed (structural comparison would be complex)
+                Self::hash_structure(&scan.predicate, hasher);
             }
             LogicalOperator::IndexScan(scan) => {
                 scan.table_id.hash(hasher);
                 scan.index_id.hash(hasher);
                 scan.index_columns.hash(hasher);
+                Self::hash_structure(&scan.range_start, hasher);
+                Self::hash_structure(&scan.range_end, hasher);
+                Self::hash_structure(&scan.residual_predicate, hasher);
             }
             LogicalOperator::Project(proj) => {
-                proj.expressions.len().hash(hasher);
+                Self::hash_structure(&proj.expressions, hasher);
                 proj.output_schema.num_columns().hash(hasher);
             }
             LogicalOperator::Join(join) => {
                 std::mem::discriminant(&join.join_type).hash(hasher);
+                Self::hash_structure(&join.condition, hasher);
+                join.swapped.hash(hasher);
             }
             LogicalOperator::Aggregate(agg) => {
-                agg.group_by.len().hash(hasher);
-                agg.aggregates.len().hash(hasher);
+                Self::hash_structure(&agg.group_by, hasher);
+                Self::hash_structure(&agg.aggregates, hasher);
             }
             LogicalOperator::Sort(sort) => {
-                sort.order_by.len().hash(hasher);
+                Self::hash_structure(&sort.order_by, hasher);
             }
             LogicalOperator::Limit(limit) => {
                 limit.limit.hash(hasher);
@@ -251,20 +261,19 @@ impl Memo {
             }
             LogicalOperator::Update(upd) => {
                 upd.table_id.hash(hasher);
-                upd.assignments.len().hash(hasher);
+                Self::hash_structure(&upd.assignments, hasher);
             }
             LogicalOperator::Delete(del) => {
                 del.table_id.hash(hasher);
             }
             LogicalOperator::Values(vals) => {
-                vals.rows.len().hash(hasher);
-                if let Some(first) = vals.rows.first() {
-                    first.len().hash(hasher);
-                }
+                Self::hash_structure(&vals.rows, hasher);
+            }
+            LogicalOperator::Filter(filter) => {
+                Self::hash_structure(&filter.predicate, hasher);
             }
             LogicalOperator::Empty(_)
             | LogicalOperator::Distinct(_)
-            | LogicalOperator::Filter(_)
             | LogicalOperator::Materialize(_) => {
                 // These are determined by their children
             }
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index ffcfafa..ed3b9b8 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -14,9 +14,16 @@ use crate::{
 };
 
 use super::{
-    PlannerError, PlannerResult, logical::*, memo::Memo, physical::*, prop::RequiredProperties,
+    PlannerError, PlannerResult,
+    logical::*,
+    memo::{GroupId, Memo},
+    physical::*,
+    prop::{LogicalProperties, RequiredProperties},
 };
 
+/// Selectivity rules assume for the predicates they move.
+const RULE_SELECTIVITY: f64 = 0.3;
+
 /// Base trait for all rules.
 pub trait Rule {
     fn name(&self) -> &'static str;
@@ -77,119 +84,173 @@ pub fn implementation_rules() -> Vec<Box<dyn ImplementationRule>> {
 
 // Helper functions
 
-/// Swaps left/right in a join condition.
-fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
-    match cond {
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => {
-            let swapped_op = match op {
-                BinaryOperator::Eq => BinaryOperator::Eq,
-                BinaryOperator::Lt => BinaryOperator::Gt,
-                BinaryOperator::Gt => BinaryOperator::Lt,
-                BinaryOperator::Le => BinaryOperator::Ge,
-                BinaryOperator::Ge => BinaryOperator::Le,
-                BinaryOperator::And => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::And,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                BinaryOperator::Or => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::Or,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                _ => *op,
-            };
-            BoundExpression::BinaryOp {
-                left: right.clone(),
-                op: swapped_op,
-                right: left.clone(),
-                result_type: *result_type,
-            }
+/// Expressions an expression is made of, or [None] if it has a query of its own, whose references
+/// to outer columns are not known here.
+fn operands(expr: &BoundExpression) -> Option<Vec<&BoundExpression>> {
+    Some(match expr {
+        BoundExpression::ColumnBinding(_)
+        | BoundExpression::Literal { .. }
+        | BoundExpression::Star => vec![],
+        BoundExpression::BinaryOp { left, right, .. } => vec![left.as_ref(), right.as_ref()],
+        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
+            vec![expr.as_ref()]
         }
-        _ => cond.clone(),
+        BoundExpression::Function { args, .. } => args.iter().collect(),
+        BoundExpression::Aggregate { arg, .. } => arg.iter().map(|a| a.as_ref()).collect(),
+        BoundExpression::Case {
+            operand,
+            when_then,
+            else_expr,
+            ..
+        } => operand
+            .iter()
+            .chain(else_expr.iter())
+            .map(|e| e.as_ref())
+            .chain(when_then.iter().flat_map(|(when, then)| [when, then]))
+            .collect(),
+        BoundExpression::InList { expr, list, .. } => {
+            std::iter::once(expr.as_ref()).chain(list.iter()).collect()
+        }
+        BoundExpression::Between {
+            expr, low, high, ..
+        } => vec![expr.as_ref(), low.as_ref(), high.as_ref()],
+        BoundExpression::Subquery { .. }
+        | BoundExpression::Exists { .. }
+        | BoundExpression::InSubquery { .. } => return None,
+    })
+}
+
+/// Collects the columns an expression refers to. Returns false if they are not known.
+fn collect_columns(expr: &BoundExpression, out: &mut Vec<usize>) -> bool {
+    if let BoundExpression::ColumnBinding(c) = expr {
+        out.push(c.column_idx);
     }
+    operands(expr).is_some_and(|list| list.into_iter().all(|e| collect_columns(e, out)))
 }
 
-/// Shifts column indices by offset.
-fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
+/// Columns an expression refers to, or [None] if they are not known.
+fn columns_of(expr: &BoundExpression) -> Option<Vec<usize>> {
+    let mut columns = Vec::new();
+    collect_columns(expr, &mut columns).then_some(columns)
+}
+
+/// Rewrites every column reference of an expression. Returns [None] if one of them cannot be.
+fn map_columns(
+    expr: &BoundExpression,
+    map: &impl Fn(usize) -> Option<usize>,
+) -> Option<BoundExpression> {
+    let boxed = |e: &BoundExpression| map_columns(e, map).map(Box::new);
+    let list = |l: &[BoundExpression]| -> Option<Vec<BoundExpression>> {
+        l.iter().map(|e| map_columns(e, map)).collect()
+    };
+    let optional = |e: &Option<Box<BoundExpression>>| -> Option<Option<Box<BoundExpression>>> {
+        match e {
+            Some(e) => boxed(e).map(Some),
+            None => Some(None),
         }
+    };
+
+    Some(match expr {
+        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
+            column_idx: map(c.column_idx)?,
+            ..*c
+        }),
+        BoundExpression::Literal { .. } | BoundExpression::Star => expr.clone(),
         BoundExpression::BinaryOp {
             left,
             op,
             right,
             result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
+        } => BoundExpression::BinaryOp {
+            left: boxed(left)?,
             op: *op,
-            right: Box::new(shift_columns(right, offset)?),
+            right: boxed(right)?,
             result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
-    }
-}
-
-/// Checks if all columns in expr have index >= min.
-fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
-    }
-}
-
-/// Checks if any column in expr is in range [start, end).
-fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
-        }
-        _ => false,
-    }
+        },
+        BoundExpression::UnaryOp {
+            op,
+            expr,
+            result_type,
+        } => BoundExpression::UnaryOp {
+            op: *op,
+            expr: boxed(expr)?,
+            result_type: *result_type,
+        },
+        BoundExpression::Function {
+            func,
+            args,
+            distinct,
+            return_type,
+        } => BoundExpression::Function {
+            func: func.clone(),
+            args: list(args)?,
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        BoundExpression::Aggregate {
+            func,
+            arg,
+            distinct,
+            return_type,
+        } => BoundExpression::Aggregate {
+            func: func.clone(),
+            arg: optional(arg)?,
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        BoundExpression::Case {
+            operand,
+            when_then,
+            else_expr,
+            result_type,
+        } => BoundExpression::Case {
+            operand: optional(operand)?,
+            when_then: when_then
+                .iter()
+                .map(|(when, then)| Some((map_columns(when, map)?, map_columns(then, map)?)))
+                .collect::<Option<_>>()?,
+            else_expr: optional(else_expr)?,
+            result_type: *result_type,
+        },
+        BoundExpression::InList {
+            expr,
+            list: items,
+            negated,
+        } => BoundExpression::InList {
+            expr: boxed(expr)?,
+            list: list(items)?,
+            negated: *negated,
+        },
+        BoundExpression::Between {
+            expr,
+            low,
+            high,
+            negated,
+        } => BoundExpression::Between {
+            expr: boxed(expr)?,
+            low: boxed(low)?,
+            high: boxed(high)?,
+            negated: *negated,
+        },
+        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
+            expr: boxed(expr)?,
+            negated: *negated,
+        },
+        BoundExpression::Subquery { .. }
+        | BoundExpression::Exists { .. }
+        | BoundExpression::InSubquery { .. } => return None,
+    })
 }
 
-/// Combines predicates with AND.
-fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
-    preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
-        left: Box::new(a),
-        op: BinaryOperator::And,
-        right: Box::new(b),
-        result_type: DataTypeKind::Bool,
+/// Shifts column indices by offset.
+fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
+    map_columns(expr, &|column| {
+        usize::try_from(column as i64 + offset as i64).ok()
     })
 }
 
-/// Collects predicates for columns >= offset.
-fn collect_predicates_for_range(
-    expr: &BoundExpression,
-    offset: usize,
-    out: &mut Vec<BoundExpression>,
-) {
+/// Splits a predicate in the parts that are joined by AND.
+fn split_conjunction<'a>(expr: &'a BoundExpression, out: &mut Vec<&'a BoundExpression>) {
     match expr {
         BoundExpression::BinaryOp {
             op: BinaryOperator::And,
@@ -197,77 +258,47 @@ fn collect_predicates_for_range(
             right,
             ..
         } => {
-            collect_predicates_for_range(left, offset, out);
-            collect_predicates_for_range(right, offset, out);
-        }
-        _ => {
-            if all_columns_ge(expr, offset) {
-                if let Some(s) = shift_columns(expr, -(offset as i32)) {
-                    out.push(s);
-                }
-            }
+            split_conjunction(left, out);
+            split_conjunction(right, out);
         }
+        _ => out.push(expr),
     }
 }
 
-/// Collects predicates involving columns in range [start, end).
-fn collect_predicates_involving_range(
-    expr: &BoundExpression,
-    start: usize,
-    end: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_involving_range(left, start, end, out);
-            collect_predicates_involving_range(right, start, end, out);
-        }
-        _ => {
-            if any_column_in_range(expr, start, end) {
-                out.push(expr.clone());
-            }
-        }
-    }
+/// Properties of the rows of a group that satisfy a predicate.
+fn filtered_properties(memo: &Memo, group: GroupId) -> LogicalProperties {
+    let mut props = memo
+        .get_group(group)
+        .map(|g| g.logical_props.clone())
+        .unwrap_or_default();
+    props.cardinality = (props.cardinality * RULE_SELECTIVITY).max(1.0);
+    props
 }
 
-/// Extracts the B⋈C condition for associativity transform.
-fn extract_bc_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-    b_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = outer {
-        collect_predicates_for_range(c, a_cols, &mut preds);
-    }
-    if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
-    }
-    combine_predicates(preds)
+/// Properties of the rows of a join of two groups.
+fn joined_properties(
+    join: &JoinOp,
+    left: &LogicalProperties,
+    right: &LogicalProperties,
+) -> LogicalProperties {
+    let selectivity = if join.condition.is_some() {
+        RULE_SELECTIVITY
+    } else {
+        1.0
+    };
+    LogicalProperties::new(join.output_schema.clone())
+        .with_cardinality((left.cardinality * right.cardinality * selectivity).max(1.0))
+        .with_avg_row_size(left.avg_row_size + right.avg_row_size)
 }
 
-/// Extracts the A condition for associativity transform.
-fn extract_a_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = inner {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    if let Some(c) = outer {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    combine_predicates(preds)
+/// Combines predicates with AND.
+fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
+    preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
+        left: Box::new(a),
+        op: BinaryOperator::And,
+        right: Box::new(b),
+        result_type: DataTypeKind::Bool,
+    })
 }
 
 /// Classifies a predicate into left-only, right-only, or join predicates.
@@ -278,100 +309,19 @@ fn classify_predicates(
     right: &mut Vec<BoundExpression>,
     join: &mut Vec<BoundExpression>,
 ) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left: l,
-            right: r,
-            ..
-        } => {
-            classify_predicates(l, left_cols, left, right, join);
-            classify_predicates(r, left_cols, left, right, join);
-        }
-        _ => {
-            let (ul, ur) = check_column_usage(expr, left_cols);
-            if ul && !ur {
-                left.push(expr.clone());
-            } else if ur && !ul {
-                right.push(expr.clone());
-            } else {
-                join.push(expr.clone());
-            }
-        }
-    }
-}
-
-/// Checks if expression uses left/right columns.
-fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
+    let mut parts = Vec::new();
+    split_conjunction(expr, &mut parts);
+    for part in parts {
+        let columns = columns_of(part).unwrap_or_default();
+        let uses_left = columns.iter().any(|c| *c < left_cols);
+        let uses_right = columns.iter().any(|c| *c >= left_cols);
+        if uses_left && !uses_right {
+            left.push(part.clone());
+        } else if uses_right && !uses_left {
+            right.push(part.clone());
+        } else {
+            join.push(part.clone());
         }
-        _ => (false, false),
-    }
-}
-
-/// Rewrites column references using a mapping.
-fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
     }
 }
 
@@ -409,11 +359,12 @@ impl TransformationRule for JoinCommutativityRule {
     fn matches(&self, expr: &LogicalExpr, _memo: &Memo) -> bool {
         matches!(
             &expr.op,
-            LogicalOperator::Join(j) if j.join_type == JoinType::Inner || j.join_type == JoinType::Cross
+            LogicalOperator::Join(j) if !j.swapped
+                && (j.join_type == JoinType::Inner || j.join_type == JoinType::Cross)
         )
     }
 
-    fn apply(&self, expr: &LogicalExpr, _memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
+    fn apply(&self, expr: &LogicalExpr, memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
         let LogicalOperator::Join(join) = &expr.op else {
             return Ok(vec![]);
         };
@@ -421,20 +372,63 @@ impl TransformationRule for JoinCommutativityRule {
             return Ok(vec![]);
         }
 
-        let swapped_cond = join.condition.as_ref().map(swap_join_condition);
-        let new_join = JoinOp::new(
+        let left_cols = join.left_schema.num_columns();
+        let right_cols = join.right_schema.num_columns();
+
+        // Place of each column in the rows of the swapped join.
+        let place = |column: usize| {
+            if column < left_cols {
+                column + right_cols
+            } else {
+                column - left_cols
+            }
+        };
+
+        let swapped_cond = match &join.condition {
+            Some(cond) => match map_columns(cond, &|column| Some(place(column))) {
+                Some(cond) => Some(cond),
+                None => return Ok(vec![]),
+            },
+            None => None,
+        };
+        let mut new_join = JoinOp::new(
             join.join_type,
             swapped_cond,
             join.right_schema.clone(),
             join.left_schema.clone(),
         );
+        new_join.swapped = true;
+
+        let swapped_schema = new_join.output_schema.clone();
+        let swapped_group = {
+            let mut props = expr.properties.clone();
+            props.schema = swapped_schema.clone();
+            props.unique_columns = None;
+            props.not_null_columns.clear();
+            memo.insert_logical_expr(
+                LogicalExpr::new(
+                    LogicalOperator::Join(new_join),
+                    vec![expr.children[1], expr.children[0]],
+                )
+                .with_properties(props),
+            )
+        };
+
+        // The rows have to come with their columns in the original order.
+        let project = ProjectOp::new(
+            (0..left_cols + right_cols)
+                .map(|column| ProjectExpr {
+                    expr: create_column_ref(place(column), &swapped_schema),
+                    alias: None,
+                })
+                .collect(),
+            swapped_schema,
+            join.output_schema.clone(),
+        );
 
         Ok(vec![
-            LogicalExpr::new(
-                LogicalOperator::Join(new_join),
-                vec![expr.children[1], expr.children[0]],
-            )
-            .with_properties(expr.properties.clone()),
+            LogicalExpr::new(LogicalOperator::Project(project), vec![swapped_group])
+                .with_properties(expr.properties.clone()),
         ])
     }
 }
@@ -510,22 +504,35 @@ impl TransformationRule for JoinAssociativityRule {
             .unwrap_or_default();
 
         let a_cols = a_props.schema.num_columns();
-        let b_cols = b_props.schema.num_columns();
+
+        // A predicate without columns of A belongs to B⋈C, the rest to A⋈(B⋈C).
+        let mut parts = Vec::new();
+        for cond in inner.condition.iter().chain(outer.condition.iter()) {
+            split_conjunction(cond, &mut parts);
+        }
+        let mut a_preds = Vec::new();
+        let mut bc_preds = Vec::new();
+        for part in parts {
+            match shift_columns(part, -(a_cols as i32)) {
+                Some(shifted) => bc_preds.push(shifted),
+                None => a_preds.push(part.clone()),
+            }
+        }
+        let a_cond = combine_predicates(a_preds);
 
         // Build B⋈C
         let bc_expr = {
-            let bc_cond = extract_bc_condition(&outer.condition, &inner.condition, a_cols, b_cols);
             let bc_join = JoinOp::new(
                 JoinType::Inner,
-                bc_cond,
+                combine_predicates(bc_preds),
                 b_props.schema.clone(),
                 c_props.schema.clone(),
             );
+            let props = joined_properties(&bc_join, &b_props, &c_props);
             LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
+                .with_properties(props)
         };
 
-        let a_cond = extract_a_condition(&outer.condition, &inner.condition, a_cols);
-
         let bc_group = memo.insert_logical_expr(bc_expr);
 
         // Build A⋈(B⋈C)
@@ -684,29 +691,29 @@ impl TransformationRule for FilterPushdownJoinRule {
         let new_left = if !left_preds.is_empty() {
             let pred = combine_predicates(left_preds).unwrap();
             let f = FilterOp::new(pred, left_schema.clone());
-            memo.insert_logical_expr(LogicalExpr::new(
-                LogicalOperator::Filter(f),
-                vec![left_group],
-            ))
+            let props = filtered_properties(memo, left_group);
+            memo.insert_logical_expr(
+                LogicalExpr::new(LogicalOperator::Filter(f), vec![left_group])
+                    .with_properties(props),
+            )
         } else {
             left_group
         };
 
         // Push right predicates (shift indices)
         let new_right = if !right_preds.is_empty() {
-            let shifted: Vec<_> = right_preds
-                .into_iter()
-                .filter_map(|p| shift_columns(&p, -(left_cols as i32)))
-                .collect();
-            if let Some(pred) = combine_predicates(shifted) {
-                let f = FilterOp::new(pred, right_schema.clone());
-                memo.insert_logical_expr(LogicalExpr::new(
-                    LogicalOperator::Filter(f),
-                    vec![right_group],
-                ))
-            } else {
-                right_group
-            }
+            let shifted = right_preds
+                .iter()
+                .map(|p| shift_columns(p, -(left_cols as i32)))
+                .collect::<Option<Vec<_>>>()
+                .ok_or(PlannerError::InvalidState)?;
+            let pred = combine_predicates(shifted).ok_or(PlannerError::InvalidState)?;
+            let f = FilterOp::new(pred, right_schema.clone());
+            let props = filtered_properties(memo, right_group);
+            memo.insert_logical_expr(
+                LogicalExpr::new(LogicalOperator::Filter(f), vec![right_group])
+                    .with_properties(props),
+            )
         } else {
             right_group
         };
@@ -785,13 +792,18 @@ impl TransformationRule for FilterPushdownProjectRule {
             }
         }
 
-        let new_pred = rewrite_with_mapping(&filter.predicate, &mapping);
+        let Some(new_pred) = map_columns(&filter.predicate, &|c| mapping.get(c).copied()) else {
+            return Ok(vec![]);
+        };
         let new_filter = FilterOp::new(new_pred, project_input_schema.clone());
 
-        let filter_group = memo.insert_logical_expr(LogicalExpr::new(
-            LogicalOperator::Filter(new_filter),
-            child_expr.children.clone(),
-        ));
+        let input_groups = child_expr.children.clone();
+        let input_group = *input_groups.first().ok_or(PlannerError::InvalidState)?;
+        let props = filtered_properties(memo, input_group);
+        let filter_group = memo.insert_logical_expr(
+            LogicalExpr::new(LogicalOperator::Filter(new_filter), input_groups)
+                .with_properties(props),
+        );
 
         // Build the new project operator with the pushed down filter
         let new_project =
@@ -969,9 +981,18 @@ impl ImplementationRule for JoinRule {
 
         // Hash join and Merge join are available for equi-joins
         if join.is_equi_join() {
-            let keys = join.extract_equi_keys();
+            let left_cols = join.left_schema.num_columns();
+            // Any side of an equality may refer to the left input, but only one of them
+            let keys: Option<Vec<_>> = join
+                .extract_equi_keys()
+                .into_iter()
+                .map(|(l, r)| {
+                    let (l, r) = (l.min(r), l.max(r));
+                    (l < left_cols && r >= left_cols).then_some((l, r))
+                })
+                .collect();
+            let keys = keys.unwrap_or_default();
             if !keys.is_empty() {
-                let left_cols = join.left_schema.num_columns();
 
                 // Create key expressions for left and right sides
                 // Note: extract_equi_keys returns indices in the combined output schema
-- 
2.43.0


From a46ed5444104ef47e88fa7f2ce62ebfc33589250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 23/40] fix: DROP TABLE IF EXISTS of a missing table does
 nothing, and own deleted rows are not read by schema changes

---
 crates/axmos-db/src/runtime/ddl.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 0a36386..a5f9c4b 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -8,7 +8,6 @@
 //! stored in the WAL for crash recovery.
 
 use crate::{
-    PageId,
     runtime::{
         RuntimeError, RuntimeResult,
         context::{ThreadContext, TransactionLogger},
@@ -29,7 +28,7 @@ use crate::{
         tuple::{Row, TupleBuilder},
     },
     types::{
-        Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult, UInt64,
+        Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult,
     },
 };
 
@@ -515,6 +514,10 @@ impl DdlExecutor {
                 self.execute_alter_table(&instr)
             }
             BoundStatement::DropTable(drop) => {
+                // The binder found no table with the name
+                if drop.table_id.is_none() && drop.if_exists {
+                    return Ok(DdlResult::NoOp);
+                }
                 let instr = DropTableInstr::from(drop);
                 self.execute_drop_table(&instr)
             }
@@ -1181,6 +1184,10 @@ impl DdlExecutor {
         let mut rows = Vec::with_capacity(positions.len());
         for position in positions {
             let tuple = btree.get_tuple_at_unchecked(position, schema)?;
+            // Nobody else has ever seen a row removed by the transaction that inserted it
+            if tuple.xmax() == Some(tuple.xmin()) {
+                continue;
+            }
             if dml.is_written_concurrently(&tuple, schema)? {
                 return Err(dml.conflict(table, 0));
             }
-- 
2.43.0


From 1d327689b9cb8ee1da25aeab424ad3305da681e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 24/40] fix: overflow chains store the data of a tuple without
 its padding

---
 crates/axmos-db/src/storage/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 51849b8..df9f14d 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1513,7 +1513,7 @@ impl Tuple {
 
 impl From<&Tuple> for Box<[u8]> {
     fn from(value: &Tuple) -> Self {
-        Box::from(value.full_data())
+        Box::from(value.effective_data())
     }
 }
 pub struct DisplayWith<'a, T> {
-- 
2.43.0


From 9c1f50d5db4f22b1fa22badbfa3ee7fa38f9a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 25/40] fix: replaced relations are reclaimed after aborts too

---
 crates/axmos-db/src/runtime/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 5e8191b..1ba1245 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -410,14 +410,15 @@ impl TransactionContext {
         logger.log_end()?;
 
         if self.catalog.has_garbage() {
+            let _statement = self.catalog.lock_for_write();
             self.reclaim_relations()?;
         }
         Ok(())
     }
 
     /// Frees the relations that nobody can see anymore, if there are no transactions running.
+    /// The statement lock must be held.
     fn reclaim_relations(&self) -> RuntimeResult<()> {
-        let _statement = self.catalog.lock_for_write();
         let coordinator = self.handle.read().coordinator().cloned();
         if let Some(coordinator) = coordinator
             && !coordinator.has_other_active(self.tid())
@@ -454,7 +455,12 @@ impl TransactionContext {
     pub(crate) fn abort_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
         self.abort_transaction()?;
         logger.log_abort()?;
-        logger.log_end()
+        logger.log_end()?;
+
+        if self.catalog.has_garbage() {
+            self.reclaim_relations()?;
+        }
+        Ok(())
     }
 
     /// Aborts the transaction: log commit, commit handle, end.
-- 
2.43.0


From e1395a2465c6669447f5a5f94795b7e73b4be56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 26/40] fix: deeply nested statements are rejected instead of
 overflowing the stack

---
 crates/axmos-db/src/sql/parser/mod.rs | 44 +++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 979dc8b..7dfd72f 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -34,11 +34,20 @@ impl Display for ParserError {
 impl Error for ParserError {}
 pub type ParseResult<T> = Result<T, ParserError>;
 
+/// Levels of expressions and queries that a statement may have.
+const MAX_DEPTH: usize = 200;
+
 /// Main parser implementation.
 /// Uses a pratt parsing approach to parse sql expressions into AST nodes.
 pub struct Parser {
     lexer: Lexer,
     current_token: Token,
+
+    /// Expressions and queries that are being parsed, one inside another.
+    depth: usize,
+
+    /// Height of the highest of the expressions parsed inside of the current one.
+    height: usize,
 }
 
 impl Parser {
@@ -48,6 +57,8 @@ impl Parser {
         Parser {
             lexer,
             current_token,
+            depth: 0,
+            height: 0,
         }
     }
 
@@ -88,6 +99,10 @@ impl Parser {
     /// Obtains the expression binding power using a Pratt Parsing approach.
     /// I recommend this read on Pratt Parsing: https://matklad.github.io/2020/04/13/simple-but-powerful-pratt-parsing.html
     fn parse_expr_bp(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        self.nested(|parser| parser.parse_operators(min_bp))
+    }
+
+    fn parse_operators(&mut self, min_bp: u8) -> ParseResult<Expr> {
         let mut lhs = self.parse_prefix()?;
 
         while let Some((l_bp, r_bp)) = self.infix_binding_power() {
@@ -96,11 +111,36 @@ impl Parser {
             }
 
             lhs = self.parse_infix(lhs, r_bp)?;
+            // The left operand is now one level deeper
+            self.height += 1;
+            Self::check_depth(self.height)?;
         }
 
         Ok(lhs)
     }
 
+    /// Parses something that may contain others of its kind. The whole tree is visited recursively
+    /// later, so that its height must be bounded as much as the depth of the recursion here.
+    fn nested<T>(&mut self, parse: impl FnOnce(&mut Self) -> ParseResult<T>) -> ParseResult<T> {
+        let siblings = std::mem::replace(&mut self.height, 0);
+        self.depth += 1;
+        Self::check_depth(self.depth)?;
+        let parsed = parse(self);
+        self.depth -= 1;
+        self.height = siblings.max(self.height + 1);
+        Self::check_depth(self.height)?;
+        parsed
+    }
+
+    fn check_depth(depth: usize) -> ParseResult<()> {
+        if depth > MAX_DEPTH {
+            return Err(ParserError::InvalidExpression(format!(
+                "more than {MAX_DEPTH} expressions one inside another"
+            )));
+        }
+        Ok(())
+    }
+
     /// Given the current token, obtains the parsed prefix of the expression.
     fn parse_prefix(&mut self) -> ParseResult<Expr> {
         match &self.current_token {
@@ -1172,6 +1212,10 @@ impl Parser {
     /// LIMIT n;
     /// ```
     fn parse_select_statement(&mut self) -> ParseResult<SelectStatement> {
+        self.nested(|parser| parser.parse_query())
+    }
+
+    fn parse_query(&mut self) -> ParseResult<SelectStatement> {
         self.expect(Token::Select)?;
 
         let distinct = self.consume_if(&Token::Distinct);
-- 
2.43.0


From 5c2313c495dcf5fa1ed7396191892bcaac78fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 27/40] fix: cells with overflow pages store the data of a
 tuple without its padding

---
 crates/axmos-db/src/tree/cell_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index 5c0e73f..bdb1a9b 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -289,7 +289,7 @@ impl CellBuilder {
         }
 
         // At this point we have to split the payload.
-        let payload = data.full_data();
+        let payload = data.effective_data();
 
         let mut overflow_page_number = self.pager.write().allocate_page::<OverflowPage>()?;
 
-- 
2.43.0


From 6634d67b281465e23ceeffe067122da8b9a8da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 28/40] fix: taking over an index entry keeps the removal of
 its former row visible to other snapshots

---
 crates/axmos-db/src/runtime/dml.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index f4d4e2a..7838f0c 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -501,8 +501,13 @@ impl DmlExecutor {
         if self.ctx.is_aborted(existing.xmin()) {
             tree.update(root, entry, schema)?;
         } else {
-            let changes = HashMap::from([(0, DataType::BigUInt(UInt64(row_id)))]);
-            existing.add_version_with(&changes, self.ctx.tid(), schema)?;
+            let owned_by = |owner| HashMap::from([(0, DataType::BigUInt(UInt64(owner)))]);
+            // The new version takes the place of the removal, which has to remain visible for
+            // those that do not see the new version.
+            if let Some(removed_by) = existing.xmax() {
+                existing.add_version_with(&owned_by(NO_OWNER), removed_by, schema)?;
+            }
+            existing.add_version_with(&owned_by(row_id), self.ctx.tid(), schema)?;
             tree.update(root, existing, schema)?;
         }
         Ok(())
@@ -556,6 +561,9 @@ impl DmlExecutor {
     }
 }
 
+/// Owner of the index entries that do not belong to any row.
+const NO_OWNER: RowId = RowId::MAX;
+
 /// Extracts the row ID from a row, assuming it's in the first column.
 pub(crate) fn extract_row_id(row: &Row) -> RuntimeResult<&UInt64> {
     row[0]
-- 
2.43.0


From 0fb4074e0686588f9328d3c98e4b0f034d20b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 29/40] fix: NULLIF, integer overflows and divisions by zero
 are errors, not panics

---
 crates/axmos-db/src/runtime/eval.rs         | 22 ++++-
 crates/axmos-db/src/types/core.rs           | 89 ++++++++++++++++-----
 crates/axmos-db/src/types/macros/numeric.rs | 76 +++++++++---------
 crates/axmos-db/src/types/mod.rs            |  2 +
 4 files changed, 130 insertions(+), 59 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 6941294..dc342da 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -519,8 +519,16 @@ impl<'a> ExpressionEvaluator<'a> {
                 )),
             },
             UnaryOperator::Minus => match operand {
-                DataType::BigInt(i) => Ok(DataType::BigInt((-i.0).into())),
-                DataType::Int(i) => Ok(DataType::Int((-i.0).into())),
+                DataType::BigInt(i) => i
+                    .0
+                    .checked_neg()
+                    .map(|v| DataType::BigInt(v.into()))
+                    .ok_or(EvaluationError::TypeError(TypeSystemError::ArithmeticError)),
+                DataType::Int(i) => i
+                    .0
+                    .checked_neg()
+                    .map(|v| DataType::Int(v.into()))
+                    .ok_or(EvaluationError::TypeError(TypeSystemError::ArithmeticError)),
                 DataType::Double(f) => Ok(DataType::Double((-f.0).into())),
                 DataType::Float(f) => Ok(DataType::Float((-f.0).into())),
                 _ => Err(EvaluationError::TypeError(
@@ -545,6 +553,14 @@ impl Callable for Abs {
         };
 
         let first = &args[0];
+        let has_abs = match first {
+            DataType::Int(i) => i.0.checked_abs().is_some(),
+            DataType::BigInt(i) => i.0.checked_abs().is_some(),
+            _ => true,
+        };
+        if !has_abs {
+            return Err(EvaluationError::TypeError(TypeSystemError::ArithmeticError));
+        }
         Ok(first.abs())
     }
 }
@@ -652,7 +668,7 @@ struct NullIf;
 
 impl Callable for NullIf {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !matches!(args[1], DataType::Bool(_)) {
+        if args.len() != 2 || !matches!(args[1], DataType::Bool(_)) {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::NullIf));
         };
 
diff --git a/crates/axmos-db/src/types/core.rs b/crates/axmos-db/src/types/core.rs
index 2c31f95..52ff6ec 100644
--- a/crates/axmos-db/src/types/core.rs
+++ b/crates/axmos-db/src/types/core.rs
@@ -106,13 +106,62 @@ pub trait SignedIntOps: NumericOps<Primitive = i64> {}
 pub trait UnsignedIntOps: NumericOps<Primitive = u64> {}
 pub trait FloatOps: NumericOps<Primitive = f64> {}
 
+/// Arithmetic that gives nothing if the result does not exist in the type, which is the case on
+/// integer overflows and divisions by zero.
+pub trait TryArithmetic: Sized {
+    fn try_add(self, rhs: Self) -> Option<Self>;
+    fn try_sub(self, rhs: Self) -> Option<Self>;
+    fn try_mul(self, rhs: Self) -> Option<Self>;
+    fn try_div(self, rhs: Self) -> Option<Self>;
+    fn try_rem(self, rhs: Self) -> Option<Self>;
+}
+
+macro_rules! try_arithmetic_int {
+    ($type:ty) => {
+        impl TryArithmetic for $type {
+            fn try_add(self, rhs: Self) -> Option<Self> {
+                self.checked_add(rhs)
+            }
+            fn try_sub(self, rhs: Self) -> Option<Self> {
+                self.checked_sub(rhs)
+            }
+            fn try_mul(self, rhs: Self) -> Option<Self> {
+                self.checked_mul(rhs)
+            }
+            fn try_div(self, rhs: Self) -> Option<Self> {
+                self.checked_div(rhs)
+            }
+            fn try_rem(self, rhs: Self) -> Option<Self> {
+                self.checked_rem(rhs)
+            }
+        }
+    };
+}
+
+try_arithmetic_int!(i64);
+try_arithmetic_int!(u64);
+
+impl TryArithmetic for f64 {
+    fn try_add(self, rhs: Self) -> Option<Self> {
+        Some(self + rhs)
+    }
+    fn try_sub(self, rhs: Self) -> Option<Self> {
+        Some(self - rhs)
+    }
+    fn try_mul(self, rhs: Self) -> Option<Self> {
+        Some(self * rhs)
+    }
+    fn try_div(self, rhs: Self) -> Option<Self> {
+        Some(self / rhs)
+    }
+    fn try_rem(self, rhs: Self) -> Option<Self> {
+        Some(self % rhs)
+    }
+}
+
 /// Trait to generate promotion tables for numeric types.
 pub trait Promote<Rhs>: NumericOps {
-    type Output: Add<Output = Self::Output>
-        + Sub<Output = Self::Output>
-        + Mul<Output = Self::Output>
-        + Div<Output = Self::Output>
-        + Rem<Output = Self::Output>
+    type Output: TryArithmetic
         + Copy;
 
     fn promote_lhs(self) -> Self::Output;
@@ -122,27 +171,27 @@ pub trait Promote<Rhs>: NumericOps {
 /// Arithmetic operations over the promoted types.
 pub trait PromotedAdd<Rhs = Self> {
     type Output;
-    fn promoted_add(self, rhs: Rhs) -> Self::Output;
+    fn promoted_add(self, rhs: Rhs) -> Option<Self::Output>;
 }
 
 pub trait PromotedSub<Rhs = Self> {
     type Output;
-    fn promoted_sub(self, rhs: Rhs) -> Self::Output;
+    fn promoted_sub(self, rhs: Rhs) -> Option<Self::Output>;
 }
 
 pub trait PromotedMul<Rhs = Self> {
     type Output;
-    fn promoted_mul(self, rhs: Rhs) -> Self::Output;
+    fn promoted_mul(self, rhs: Rhs) -> Option<Self::Output>;
 }
 
 pub trait PromotedDiv<Rhs = Self> {
     type Output;
-    fn promoted_div(self, rhs: Rhs) -> Self::Output;
+    fn promoted_div(self, rhs: Rhs) -> Option<Self::Output>;
 }
 
 pub trait PromotedRem<Rhs = Self> {
     type Output;
-    fn promoted_rem(self, rhs: Rhs) -> Self::Output;
+    fn promoted_rem(self, rhs: Rhs) -> Option<Self::Output>;
 }
 
 // Blanket impls for promoted operations.
@@ -151,8 +200,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_add(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) + L::promote_rhs(rhs)
+    fn promoted_add(self, rhs: R) -> Option<Self::Output> {
+        L::promote_lhs(self).try_add(L::promote_rhs(rhs))
     }
 }
 
@@ -161,8 +210,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_sub(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) - L::promote_rhs(rhs)
+    fn promoted_sub(self, rhs: R) -> Option<Self::Output> {
+        L::promote_lhs(self).try_sub(L::promote_rhs(rhs))
     }
 }
 
@@ -171,8 +220,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_mul(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) * L::promote_rhs(rhs)
+    fn promoted_mul(self, rhs: R) -> Option<Self::Output> {
+        L::promote_lhs(self).try_mul(L::promote_rhs(rhs))
     }
 }
 
@@ -181,8 +230,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_div(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) / L::promote_rhs(rhs)
+    fn promoted_div(self, rhs: R) -> Option<Self::Output> {
+        L::promote_lhs(self).try_div(L::promote_rhs(rhs))
     }
 }
 
@@ -191,8 +240,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_rem(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) % L::promote_rhs(rhs)
+    fn promoted_rem(self, rhs: R) -> Option<Self::Output> {
+        L::promote_lhs(self).try_rem(L::promote_rhs(rhs))
     }
 }
 
diff --git a/crates/axmos-db/src/types/macros/numeric.rs b/crates/axmos-db/src/types/macros/numeric.rs
index c64b163..600fe62 100644
--- a/crates/axmos-db/src/types/macros/numeric.rs
+++ b/crates/axmos-db/src/types/macros/numeric.rs
@@ -137,123 +137,127 @@ macro_rules! arithmetic_op {
         pub fn $method(&self, other: &DataType) -> TypeSystemResult<DataType> {
             use crate::types::core::*;
 
+            fn checked<T>(result: Option<T>) -> TypeSystemResult<T> {
+                result.ok_or(TypeSystemError::ArithmeticError)
+            }
+
             match (self, other) {
                 // Double combinations
                 (DataType::Double(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Double(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Float(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Double(a), DataType::BigInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigInt(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Double(a), DataType::Int(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Int(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Double(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigUInt(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Double(a), DataType::UInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::UInt(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
 
                 // Float combinations
                 (DataType::Float(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Float(a), DataType::BigInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigInt(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Float(a), DataType::Int(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Int(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Float(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigUInt(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Float(a), DataType::UInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::UInt(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(checked(a.$trait_method(*b))?)))
                 }
 
                 // Signed int combinations
                 (DataType::BigInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Int(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Int(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
 
                 // Signed + Unsigned
                 (DataType::BigInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::UInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigUInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Int(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::UInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::Int(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigUInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(checked(a.$trait_method(*b))?)))
                 }
 
                 // Unsigned combinations
                 (DataType::BigUInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::BigUInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::UInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(checked(a.$trait_method(*b))?)))
                 }
                 (DataType::UInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(checked(a.$trait_method(*b))?)))
                 }
 
                 // Non-numeric
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index d41262f..07f0a64 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -78,6 +78,7 @@ pub enum TypeSystemError {
     Utf8Error(Utf8Error),
     UnexpectedDataType(DataTypeKind),
     SerializationError(SerializationError),
+    ArithmeticError,
 }
 
 impl Error for TypeSystemError {}
@@ -88,6 +89,7 @@ impl Display for TypeSystemError {
             Self::Utf8Error(e) => write!(f, "utf8 error: {e}"),
             Self::SerializationError(e) => write!(f, "deserialization error: {e}"),
             Self::UnexpectedDataType(dt) => write!(f, "unexpected data type: {dt}"),
+            Self::ArithmeticError => write!(f, "integer overflow or division by zero"),
         }
     }
 }
-- 
2.43.0


From 5557fc21dec139c2231d9c569bd294c08fa19b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 30/40] fix: a statement compiled against a table tree that was
 replaced since fails as stale

---
 crates/axmos-db/src/schema/catalog.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index bb6135f..9db2525 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -672,6 +672,7 @@ impl Catalog {
         let latest = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
         let latest = Relation::from_meta_table_row(latest);
         let is_same = !tuple.is_deleted()
+            && latest.root() == relation.root()
             && latest.schema() == relation.schema();
         if is_same {
             return Ok(());
-- 
2.43.0


From 046910861c0f095208edb1e3605f8e8652232211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 31/40] fix: removing a cell with slack from a page frees all
 of its bytes

---
 crates/axmos-db/src/storage/core/buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 2af56d4..662f3cf 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -856,6 +856,8 @@ where
             ));
         };
 
+        // The owned copy drops any slack the cell has in this page.
+        let freed_bytes = self.cell(index).storage_size();
         let cell = self.owned_cell(index);
 
         // Remove the index as if we removed from a Vec.
@@ -866,7 +868,7 @@ where
         // Cannot put more free space here as it would cause a misalignment.
         // Must correct later through defragmentation.
         // Thanks [miri]
-        self.add_free_space(cell.storage_size() as u32);
+        self.add_free_space(freed_bytes as u32);
 
         // Decrease length.
         self.remove_slots(1);
-- 
2.43.0


From 61114262818a856d63701c835478a588b4b277b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 32/40] fix: frames that are not valid messages are rejected
 without unbounded allocations, and answered

---
 crates/axmos-db/src/bin/axmos_server.rs | 12 ++++-
 crates/axmos-db/src/tcp/mod.rs          | 68 +++++++++++++++----------
 2 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/crates/axmos-db/src/bin/axmos_server.rs b/crates/axmos-db/src/bin/axmos_server.rs
index db28659..31828f0 100644
--- a/crates/axmos-db/src/bin/axmos_server.rs
+++ b/crates/axmos-db/src/bin/axmos_server.rs
@@ -305,6 +305,10 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             Err(TcpError::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
             Err(e) => {
                 eprintln!("Request error: {}", e);
+                // The stream may be out of step from here on, so this is the last answer.
+                if !matches!(e, TcpError::Io(_)) {
+                    send_response(&mut writer, &Response::Error(e.to_string()))?;
+                }
                 break;
             }
         };
@@ -316,7 +320,13 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             break;
         }
 
-        send_response(&mut writer, &response)?;
+        match send_response(&mut writer, &response) {
+            // Nothing of it was sent.
+            Err(e @ TcpError::MessageTooLarge(_)) => {
+                send_response(&mut writer, &Response::Error(e.to_string()))?
+            }
+            sent => sent?,
+        }
     }
 
     if let Some(mut session) = ctx.session.take() {
diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..b80d1f9 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -125,9 +125,7 @@ impl Request {
                 Ok(Self::Explain(sql))
             }
             0x05 => {
-                if payload.len() < 16 {
-                    return Err(TcpError::InvalidMessage("Analyze payload too short".into()));
-                }
+                expect_len(payload, 16)?;
                 let sample_rate = f64::from_le_bytes(payload[0..8].try_into().unwrap());
                 let max_sample_rows =
                     u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
@@ -136,13 +134,13 @@ impl Request {
                     max_sample_rows,
                 })
             }
-            0x06 => Ok(Self::Close),
-            0x07 => Ok(Self::Ping),
-            0x09 => Ok(Self::Vacuum),
-            0x0A => Ok(Self::Begin),
-            0x0B => Ok(Self::Commit),
-            0x0C => Ok(Self::Rollback),
-            0xFF => Ok(Self::Shutdown),
+            0x06 => expect_len(payload, 0).map(|_| Self::Close),
+            0x07 => expect_len(payload, 0).map(|_| Self::Ping),
+            0x09 => expect_len(payload, 0).map(|_| Self::Vacuum),
+            0x0A => expect_len(payload, 0).map(|_| Self::Begin),
+            0x0B => expect_len(payload, 0).map(|_| Self::Commit),
+            0x0C => expect_len(payload, 0).map(|_| Self::Rollback),
+            0xFF => expect_len(payload, 0).map(|_| Self::Shutdown),
             _ => Err(TcpError::UnknownCommand(cmd)),
         }
     }
@@ -313,7 +311,9 @@ impl Response {
                 let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut columns = Vec::with_capacity(col_count);
+                // Counts come from the peer: more values than the payload can hold are not
+                // worth reserving memory for.
+                let mut columns = Vec::with_capacity(col_count.min(payload.len() / 4));
 
                 for _ in 0..col_count {
                     let (col, len) = read_string_with_len(&payload[offset..])?;
@@ -328,7 +328,11 @@ impl Response {
                     u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut data = Vec::with_capacity(row_count);
+                if col_count == 0 && row_count > 0 {
+                    return Err(TcpError::InvalidMessage("Rows without columns".into()));
+                }
+
+                let mut data = Vec::with_capacity(row_count.min(payload.len() / 4));
                 for _ in 0..row_count {
                     let mut row = Vec::with_capacity(col_count);
                     for _ in 0..col_count {
@@ -338,13 +342,12 @@ impl Response {
                     }
                     data.push(row);
                 }
+                expect_len(&payload[offset..], 0)?;
 
                 Ok(Self::Rows { columns, data })
             }
             StatusCode::RowsAffected => {
-                if payload.len() < 8 {
-                    return Err(TcpError::InvalidMessage("Missing count".into()));
-                }
+                expect_len(payload, 8)?;
                 let count = u64::from_le_bytes(payload[0..8].try_into().unwrap());
                 Ok(Self::RowsAffected(count))
             }
@@ -357,9 +360,7 @@ impl Response {
                 Ok(Self::Explain(plan))
             }
             StatusCode::VacuumComplete => {
-                if payload.len() < 24 {
-                    return Err(TcpError::InvalidMessage("Vacuum payload too short".into()));
-                }
+                expect_len(payload, 24)?;
                 let tables_vacuumed =
                     u64::from_le_bytes(payload[0..8].try_into().unwrap()) as usize;
                 let bytes_freed = u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
@@ -371,11 +372,11 @@ impl Response {
                     transactions_cleaned,
                 })
             }
-            StatusCode::Pong => Ok(Self::Pong),
-            StatusCode::Goodbye => Ok(Self::Goodbye),
-            StatusCode::ShuttingDown => Ok(Self::ShuttingDown),
-            StatusCode::Begin => Ok(Self::SessionStarted),
-            StatusCode::End => Ok(Self::SessionEnd),
+            StatusCode::Pong => expect_len(payload, 0).map(|_| Self::Pong),
+            StatusCode::Goodbye => expect_len(payload, 0).map(|_| Self::Goodbye),
+            StatusCode::ShuttingDown => expect_len(payload, 0).map(|_| Self::ShuttingDown),
+            StatusCode::Begin => expect_len(payload, 0).map(|_| Self::SessionStarted),
+            StatusCode::End => expect_len(payload, 0).map(|_| Self::SessionEnd),
         }
     }
 
@@ -435,8 +436,22 @@ fn write_string(buf: &mut Vec<u8>, s: &str) {
     buf.extend_from_slice(bytes);
 }
 
+/// Fails unless the payload has exactly the given length.
+fn expect_len(payload: &[u8], len: usize) -> Result<(), TcpError> {
+    if payload.len() == len {
+        return Ok(());
+    }
+    Err(TcpError::InvalidMessage(format!(
+        "Payload of {} bytes, expected {}",
+        payload.len(),
+        len
+    )))
+}
+
+/// Reads the string that takes up all of the payload.
 fn read_string(data: &[u8]) -> Result<String, TcpError> {
-    let (s, _) = read_string_with_len(data)?;
+    let (s, len) = read_string_with_len(data)?;
+    expect_len(&data[len..], 0)?;
     Ok(s)
 }
 
@@ -455,8 +470,9 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
         )));
     }
 
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
-    Ok((s, 4 + len))
+    let s = std::str::from_utf8(&data[4..4 + len])
+        .map_err(|e| TcpError::InvalidMessage(format!("String is not UTF-8: {e}")))?;
+    Ok((s.to_owned(), 4 + len))
 }
 
 pub fn read_message<R: Read>(reader: &mut R) -> Result<Vec<u8>, TcpError> {
-- 
2.43.0


From 496cc2bce216994fd2007cec5980a912d3d3dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 33/40] verif: expose column defaults

---
 crates/axmos-db/src/verif/facade.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/axmos-db/src/verif/facade.rs b/crates/axmos-db/src/verif/facade.rs
index 21a3fb9..46d1c33 100644
--- a/crates/axmos-db/src/verif/facade.rs
+++ b/crates/axmos-db/src/verif/facade.rs
@@ -497,6 +497,7 @@ pub struct RelationInfo {
     pub xmax: Option<u64>,
     pub next_row_id: Option<u64>,
     pub columns: Vec<(String, String, bool)>,
+    pub defaults: Vec<DataType>,
     pub num_keys: usize,
     pub indexes: Vec<(u64, Vec<usize>)>,
     pub tree: Tree,
@@ -569,6 +570,11 @@ pub fn catalog(db: &Database, limit: usize) -> Res<CatalogInfo> {
                     )
                 })
                 .collect(),
+            defaults: schema
+                .iter_columns()
+                .map(|c| c.default_value())
+                .collect::<Result<_, _>>()
+                .map_err(s)?,
             num_keys: schema.num_keys(),
             indexes: schema
                 .get_indexes()
-- 
2.43.0


From b11b0b6554b006bf41b80d065ab16f0fb7f6c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 34/40] fix: recover the last checkpoint and replay the
 committed transactions after it

The database file held whatever pages had been evicted or freed when the process
died, and recovery applied undo and redo of logical records to that. Pages of the
last checkpoint are now saved in a rollback journal before they are overwritten,
so that recovery starts from a consistent file: it has no effect of a transaction
that had not committed, and the log has everything that has committed since.
Recovery replays those transactions in log order, keeps the object and row ids
they had, and ends in a checkpoint.
---
 crates/axmos-db/src/io/cache.rs               |  17 +
 crates/axmos-db/src/io/journal.rs             | 196 +++++++
 crates/axmos-db/src/io/mod.rs                 |   1 +
 crates/axmos-db/src/io/pager.rs               |  85 ++-
 crates/axmos-db/src/io/recovery.rs            | 527 ++++++------------
 crates/axmos-db/src/io/wal.rs                 |  11 +-
 crates/axmos-db/src/lib.rs                    |  89 +--
 .../src/multithreading/coordinator.rs         |  10 +
 crates/axmos-db/src/multithreading/frames.rs  |  13 +
 crates/axmos-db/src/runtime/context.rs        |   1 +
 crates/axmos-db/src/runtime/ddl.rs            |  20 +-
 crates/axmos-db/src/runtime/dml.rs            |  98 +++-
 crates/axmos-db/src/schema/catalog.rs         |  24 +
 crates/axmos-db/src/storage/page.rs           |   5 +-
 14 files changed, 666 insertions(+), 431 deletions(-)
 create mode 100644 crates/axmos-db/src/io/journal.rs

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index 096dc59..377a048 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -162,6 +162,23 @@ impl PageCache {
         None
     }
 
+    /// Puts back a frame that could not be evicted, whatever the capacity of the cache is.
+    pub(crate) fn put_back(&mut self, frame: MemFrame) {
+        self.frames.insert(frame.page_number(), frame);
+    }
+
+    /// Frames whose contents have not been written to the disk, sorted by page.
+    pub(crate) fn dirty_frames(&self) -> Vec<MemFrame> {
+        let mut frames: Vec<MemFrame> = self
+            .frames
+            .values()
+            .filter(|frame| frame.is_dirty())
+            .cloned()
+            .collect();
+        frames.sort_by_key(|frame| frame.page_number());
+        frames
+    }
+
     /// Drains all frames from the cache, returning an iterator over the frames.
     ///
     /// Unlike `clear`, this does not allocate a `Vec` and allows the caller
diff --git a/crates/axmos-db/src/io/journal.rs b/crates/axmos-db/src/io/journal.rs
new file mode 100644
index 0000000..c8ef330
--- /dev/null
+++ b/crates/axmos-db/src/io/journal.rs
@@ -0,0 +1,196 @@
+//! # Rollback journal
+//!
+//! The database file only changes from one checkpoint to the next one. Pages can be written to it
+//! at any moment in between, so what they held at the last checkpoint is saved to the journal
+//! before they are overwritten. If the process dies, the contents of the journal are put back when
+//! the database is opened, and the log is replayed over them.
+use crate::{
+    PAGE_ALIGNMENT,
+    io::disk::{DBFile, FileOperations},
+    storage::core::buffer::MemBlock,
+    types::PageId,
+};
+
+use std::{
+    collections::HashSet,
+    io::{self, ErrorKind, Read, Seek, SeekFrom, Write},
+    path::Path,
+};
+
+/// Name of the file of the journal, which is in the same directory as the database.
+pub(crate) const JOURNAL_FILE: &str = "axmos.jnl";
+
+const JOURNAL_MAGIC: u64 = 0x4c4e_4a53_4f4d_5841;
+
+/// Size of the header of the journal and of the header of each saved page.
+const JOURNAL_BLOCK: usize = PAGE_ALIGNMENT;
+
+type Block = MemBlock<u64>;
+
+fn checksum(words: &[u64], bytes: &[u8]) -> u64 {
+    let mut hash = 0xcbf2_9ce4_8422_2325u64;
+    let mut mix = |word: u64| {
+        hash ^= word;
+        hash = hash.wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29);
+    };
+    words.iter().copied().for_each(&mut mix);
+    for chunk in bytes.chunks(size_of::<u64>()) {
+        let mut word = [0u8; size_of::<u64>()];
+        word[..chunk.len()].copy_from_slice(chunk);
+        mix(u64::from_le_bytes(word));
+    }
+    hash
+}
+
+fn put_words(block: &mut Block, words: &[u64]) {
+    for (bytes, word) in block.as_mut().chunks_exact_mut(8).zip(words) {
+        bytes.copy_from_slice(&word.to_le_bytes());
+    }
+}
+
+fn get_words<const N: usize>(block: &Block) -> [u64; N] {
+    let mut words = [0; N];
+    for (word, bytes) in words.iter_mut().zip(block.as_ref().chunks_exact(8)) {
+        *word = u64::from_le_bytes(bytes.try_into().unwrap_or_default());
+    }
+    words
+}
+
+/// Reads as many bytes as the file has, up to the size of the buffer.
+fn read_up_to(file: &mut DBFile, offset: u64, buffer: &mut [u8]) -> io::Result<usize> {
+    file.seek(SeekFrom::Start(offset))?;
+    let mut total = 0;
+    while total < buffer.len() {
+        match file.read(&mut buffer[total..]) {
+            Ok(0) => break,
+            Ok(read) => total += read,
+            Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+            Err(err) => return Err(err),
+        }
+    }
+    Ok(total)
+}
+
+#[derive(Debug)]
+pub(crate) struct Journal {
+    file: DBFile,
+    /// Pages which have been saved since the last checkpoint.
+    saved: HashSet<PageId>,
+    /// Bytes of the file that are in use.
+    len: u64,
+}
+
+impl Journal {
+    /// Creates an empty journal.
+    pub(crate) fn create(path: impl AsRef<Path>) -> io::Result<Self> {
+        Ok(Self {
+            file: DBFile::create(path)?,
+            saved: HashSet::new(),
+            len: 0,
+        })
+    }
+
+    /// Opens the journal of a database, putting back the pages it holds.
+    pub(crate) fn open(path: impl AsRef<Path>, database: &mut DBFile) -> io::Result<Self> {
+        let file = match DBFile::open(&path) {
+            Err(err) if err.kind() == ErrorKind::NotFound => return Self::create(path),
+            file => file?,
+        };
+        let mut journal = Self {
+            file,
+            saved: HashSet::new(),
+            len: 0,
+        };
+        journal.restore(database)?;
+        Ok(journal)
+    }
+
+    pub(crate) fn remove(path: impl AsRef<Path>) -> io::Result<()> {
+        match DBFile::remove(path) {
+            Err(err) if err.kind() == ErrorKind::NotFound => Ok(()),
+            result => result,
+        }
+    }
+
+    pub(crate) fn sync_all(&self) -> io::Result<()> {
+        self.file.sync_all()
+    }
+
+    /// Puts back the pages that were saved. Nothing has been overwritten if the journal is not
+    /// complete, as it is forced to the disk first.
+    fn restore(&mut self, database: &mut DBFile) -> io::Result<()> {
+        if self.file.seek(SeekFrom::End(0))? == 0 {
+            return Ok(());
+        }
+
+        let mut header = Block::new(JOURNAL_BLOCK);
+        let read = read_up_to(&mut self.file, 0, header.as_mut())?;
+        let [magic, page_size, sum] = get_words(&header);
+        if read == JOURNAL_BLOCK && magic == JOURNAL_MAGIC && sum == checksum(&[page_size], &[]) {
+            let page_size = page_size as usize;
+            let mut offset = JOURNAL_BLOCK as u64;
+            let mut entry = Block::new(JOURNAL_BLOCK + page_size);
+            let mut page = Block::new(page_size);
+            while read_up_to(&mut self.file, offset, entry.as_mut())? == JOURNAL_BLOCK + page_size {
+                let [id, sum] = get_words(&entry);
+                page.as_mut().copy_from_slice(&entry.as_ref()[JOURNAL_BLOCK..]);
+                if sum != checksum(&[id], page.as_ref()) {
+                    break;
+                }
+                database.seek(SeekFrom::Start(id * page_size as u64))?;
+                database.write_all(page.as_ref())?;
+                offset += (JOURNAL_BLOCK + page_size) as u64;
+            }
+            database.sync_all()?;
+        }
+
+        self.clear()
+    }
+
+    pub(crate) fn is_saved(&self, id: PageId) -> bool {
+        self.saved.contains(&id)
+    }
+
+    /// Saves what the given pages hold in the database, which can be overwritten afterwards.
+    pub(crate) fn save(
+        &mut self,
+        database: &mut DBFile,
+        pages: &[PageId],
+        page_size: usize,
+    ) -> io::Result<()> {
+        let mut len = self.len;
+        if len == 0 {
+            let mut header = Block::new(JOURNAL_BLOCK);
+            let size = page_size as u64;
+            put_words(&mut header, &[JOURNAL_MAGIC, size, checksum(&[size], &[])]);
+            self.file.seek(SeekFrom::Start(0))?;
+            self.file.write_all(header.as_ref())?;
+            len = JOURNAL_BLOCK as u64;
+        }
+
+        for &id in pages {
+            let mut page = Block::new(page_size);
+            read_up_to(database, id * page_size as u64, page.as_mut())?;
+
+            let mut entry = Block::new(JOURNAL_BLOCK + page_size);
+            put_words(&mut entry, &[id, checksum(&[id], page.as_ref())]);
+            entry.as_mut()[JOURNAL_BLOCK..].copy_from_slice(page.as_ref());
+            self.file.seek(SeekFrom::Start(len))?;
+            self.file.write_all(entry.as_ref())?;
+            len += entry.as_ref().len() as u64;
+        }
+
+        self.file.sync_all()?;
+        self.len = len;
+        self.saved.extend(pages);
+        Ok(())
+    }
+
+    /// Forgets the saved pages: what the database holds is a checkpoint.
+    pub(crate) fn clear(&mut self) -> io::Result<()> {
+        self.file.truncate()?;
+        self.saved.clear();
+        self.len = 0;
+        self.file.sync_all()
+    }
+}
diff --git a/crates/axmos-db/src/io/mod.rs b/crates/axmos-db/src/io/mod.rs
index 1c0e0a3..244f4ec 100644
--- a/crates/axmos-db/src/io/mod.rs
+++ b/crates/axmos-db/src/io/mod.rs
@@ -4,6 +4,7 @@
 //! from disk, as well as caching frequently accessed data in memory to improve performance.
 pub mod cache;
 pub mod disk;
+pub(crate) mod journal;
 pub mod logger;
 pub mod recovery;
 
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 944bb96..ced36b0 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -4,6 +4,7 @@ use crate::{
     io::{
         cache::PageCache,
         disk::{DBFile, FileOperations, FileSystem, FileSystemBlockSize},
+        journal::{JOURNAL_FILE, Journal},
         logger::Operation,
         wal::{AnalysisResult, WriteAheadLog},
     },
@@ -30,7 +31,10 @@ use std::{
 pub struct Pager {
     file: DBFile,
     wal: WriteAheadLog,
+    journal: Journal,
     cache: PageCache,
+    /// Pages that the database had at the last checkpoint.
+    base_pages: u64,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
 }
 
@@ -43,12 +47,15 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         let wal = WriteAheadLog::create(wal_path)?;
+        let journal = Journal::create(dir.join(JOURNAL_FILE))?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE as usize);
 
         Ok(Self {
             file,
             cache,
             wal,
+            journal,
+            base_pages: 0,
             db_header: None,
         })
     }
@@ -57,10 +64,11 @@ impl<'a> FileOperations for Pager {
     where
         Self: Sized,
     {
-        let file = DBFile::open(&path)?;
+        let mut file = DBFile::open(&path)?;
         let block_size = FileSystem::block_size(&path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE);
         let dir = path.as_ref().parent().expect("Not a directory");
+        let journal = Journal::open(dir.join(JOURNAL_FILE), &mut file)?;
         let wal_path = dir.join("axmos.log");
         let wal = WriteAheadLog::open(wal_path)?;
 
@@ -68,11 +76,14 @@ impl<'a> FileOperations for Pager {
             file,
             cache,
             wal,
+            journal,
+            base_pages: 0,
             db_header: None,
         };
 
         let page_zero = pager.load_page_zero(block_size)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.base_pages = pager.total_allocated_pages();
 
         Ok(pager)
     }
@@ -82,11 +93,13 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         WriteAheadLog::remove(&wal_path)?;
+        Journal::remove(dir.join(JOURNAL_FILE))?;
         Ok(())
     }
 
     fn sync_all(&self) -> io::Result<()> {
         self.wal.sync_all()?;
+        self.journal.sync_all()?;
         self.file.sync_all()?;
         Ok(())
     }
@@ -94,6 +107,7 @@ impl<'a> FileOperations for Pager {
     fn truncate(&mut self) -> io::Result<()> {
         self.file.truncate()?;
         self.cache.clear();
+        self.journal.clear()?;
         self.wal.truncate()?;
         Ok(())
     }
@@ -119,7 +133,9 @@ impl Pager {
     pub(crate) fn from_config(config: DBConfig, path: impl AsRef<Path>) -> io::Result<Self> {
         let mut pager = Pager::create(path)?;
         let page_zero = pager.alloc_page_zero(config)?;
+        pager.file.sync_all()?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.base_pages = pager.total_allocated_pages();
         Ok(pager)
     }
 
@@ -154,12 +170,18 @@ impl Pager {
         tid: TransactionId,
         prev_lsn: Option<Lsn>,
     ) -> io::Result<Lsn> {
-        let lsn = self.wal.last_lsn().map(|l| l + 1).unwrap_or(0);
+        let lsn = self.next_lsn();
         let record = operation.into_record(lsn, tid, prev_lsn);
         self.wal.push(record)?;
         Ok(lsn)
     }
 
+    /// LSN of the next record of the log. It keeps growing when the log is truncated.
+    fn next_lsn(&self) -> Lsn {
+        let next = self.wal.last_lsn().map(|lsn| lsn + 1).unwrap_or(0);
+        next.max(self.header_unchecked().next_lsn)
+    }
+
     /// Load block zero from disk
     fn load_page_zero(&mut self, block_size: usize) -> io::Result<PageZero> {
         let mut block: MemBlock<PageZeroHeader> = MemBlock::new(block_size);
@@ -343,6 +365,12 @@ impl Pager {
         Self::validate_alignment_of(content.as_ptr() as usize, PAGE_ALIGNMENT as usize)?;
         Self::validate_alignment_of(content.len() as usize, PAGE_ALIGNMENT as usize)?;
 
+        // What the page held at the last checkpoint has to be kept until the next one.
+        if start_page_number < self.base_pages && !self.journal.is_saved(start_page_number) {
+            self.journal
+                .save(&mut self.file, &[start_page_number], block_size)?;
+        }
+
         // Seek in the file to the targete offset and write the content
         self.file.seek(SeekFrom::Start(offset))?;
         self.file.write_all(content)?;
@@ -420,7 +448,13 @@ impl Pager {
 
             if evicted.is_dirty() {
                 let page_size = self.page_size();
-                evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
+                let written =
+                    evicted.with_bytes(|bytes| self.write_block(evicted_id, bytes, page_size));
+                // The changes made to the page are nowhere else.
+                if let Err(err) = written {
+                    self.cache.put_back(evicted);
+                    return Err(err);
+                }
             };
         };
         Ok(id)
@@ -510,13 +544,11 @@ impl Pager {
 
         // We need to ensure that the frame is free
         if let Some(mem_page) = self.cache.remove(id) {
-            let page_size = self.page_size();
-
             // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
             let deallocated_page = mem_page.dealloc();
 
-            // Here the write needs to write as an overflow page , regardless of the value of [P]
-            deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
+            // It will be written as an overflow page, regardless of the value of [P]
+            deallocated_page.mark_dirty();
             self.cache_frame(deallocated_page)?;
         };
 
@@ -524,7 +556,8 @@ impl Pager {
     }
 
     pub fn run_analysis(&mut self) -> io::Result<AnalysisResult> {
-        self.wal.run_analysis()
+        let next_lsn = self.header_unchecked().next_lsn;
+        self.wal.run_analysis_from(next_lsn)
     }
 
     pub fn truncate_wal(&mut self) -> io::Result<()> {
@@ -544,19 +577,39 @@ impl Write for Pager {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        let block_size = self.page_size();
         self.wal.flush()?;
-        let pages = self.cache.clear();
-        for page in pages {
-            let page_number = page.page_number();
-            if page.is_dirty() {
-                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
-            };
+
+        // Until the journal is cleared, the last checkpoint can be put back.
+        let block_size = self.page_size();
+        let frames = self.cache.dirty_frames();
+        let to_save: Vec<PageId> = std::iter::once(PAGE_ZERO)
+            .chain(frames.iter().map(|frame| frame.page_number()))
+            .filter(|&id| id < self.base_pages && !self.journal.is_saved(id))
+            .collect();
+        self.journal.save(&mut self.file, &to_save, block_size)?;
+
+        for frame in frames {
+            let page_number = frame.page_number();
+            frame.mark_clean();
+            let written =
+                frame.with_bytes(|bytes| self.write_block(page_number, bytes, block_size));
+            if let Err(err) = written {
+                frame.mark_dirty();
+                return Err(err);
+            }
         }
 
+        self.header_unchecked_mut().next_lsn = self.next_lsn();
         self.sync_header()?;
+        self.file.sync_all()?;
+
+        let cleared = self.journal.clear();
+        if !self.journal.is_saved(PAGE_ZERO) {
+            self.base_pages = self.total_allocated_pages();
+        }
+        cleared?;
 
-        self.file.flush()?;
+        // The log is not needed anymore.
         self.wal.truncate()?;
         self.wal.flush()?;
         Ok(())
diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index e1638f6..f1a3ed1 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -1,426 +1,217 @@
+//! # Recovery
+//!
+//! The database file always holds the last checkpoint (see [`crate::io::journal`]), which does not
+//! have changes of transactions that had not committed yet. Recovery makes the changes of the
+//! transactions that have committed since then again, in the order they were made the first time.
+//! There is nothing to undo.
 use crate::{
     UInt64,
     io::{
-        logger::{Alter, Create, Delete, DropOp, Insert, Operation, Update},
+        logger::Operation,
         wal::AnalysisResult,
     },
     runtime::{
-        RuntimeResult,
+        RuntimeError, RuntimeResult,
         context::{ThreadContext, TransactionLogger},
-        ddl::{
-            AlterTableInstr, CreateIndexInstr, CreateTableInstr, DdlExecutor, DdlInstruction,
-            DropIndexInstr, DropTableInstr,
-        },
+        ddl::{DdlExecutor, DdlInstruction},
         dml::DmlExecutor,
     },
-    storage::tuple::Row,
+    schema::{base::Relation, catalog::CatalogError},
+    storage::tuple::{Row, Tuple},
+    types::{Lsn, ObjectId, RowId},
 };
 
-use std::io::{Error as IoError, ErrorKind};
+use std::{
+    collections::{BTreeMap, BTreeSet, HashMap},
+    io::{Error as IoError, ErrorKind},
+};
 
 pub struct WalRecuperator {
+    ctx: ThreadContext,
     dml_executor: DmlExecutor,
     ddl_executor: DdlExecutor,
+    /// Tables whose rows are being recovered.
+    tables: HashMap<ObjectId, Option<Relation>>,
+    /// Rows that have been recovered and what they contained before, by table. Their entries in the
+    /// indexes are brought up to date later: a statement that failed may have given a row the key
+    /// of another one for a while.
+    restored: BTreeMap<ObjectId, BTreeMap<RowId, Option<Row>>>,
+    /// First row id that has not been given yet, for the tables where rows have been inserted.
+    next_row_ids: BTreeMap<ObjectId, RowId>,
 }
 
 impl WalRecuperator {
     pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
         Self {
             dml_executor: DmlExecutor::new(ctx.clone(), logger.clone()),
-            ddl_executor: DdlExecutor::new(ctx, logger),
+            ddl_executor: DdlExecutor::new(ctx.clone(), logger),
+            ctx,
+            tables: HashMap::new(),
+            restored: BTreeMap::new(),
+            next_row_ids: BTreeMap::new(),
         }
     }
 
     /// Runs the recovery
     pub(crate) fn run_recovery(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        self.run_undo(&analysis)?;
-        self.run_redo(&analysis)?;
-
-        Ok(())
-    }
-
-    /// Run all the undo.
-    pub(crate) fn run_undo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_undo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.undo_delete(delete_operation)?;
-                }
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.undo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.undo_insert(insert_operation)?;
-                }
-
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.undo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.undo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.undo_drop(drop_operation)?;
-                }
-            }
-        }
-
-        Ok(())
+        self.run_redo(analysis)
     }
 
-    /// Run all the redo.
+    /// Makes the changes of the transactions that committed again.
     pub(crate) fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_redo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
+        let mut records: BTreeSet<Lsn> = BTreeSet::new();
+        for transaction in analysis.needs_redo.iter() {
+            records.extend(analysis.try_iter_lsn(transaction).ok_or(IoError::new(
                 ErrorKind::NotSeekable,
                 "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.redo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.redo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.redo_drop(drop_operation)?;
-                }
-
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.redo_delete(delete_operation)?;
-                }
-
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.redo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.redo_insert(insert_operation)?;
-                }
-            }
-        }
-
+            ))?);
+        }
+
+        self.reserve_object_ids(analysis)?;
+        for lsn in records {
+            self.redo_record(analysis, lsn)?;
+        }
+        self.restore_index_entries()?;
+        self.restore_row_ids()
+    }
+
+    fn redo_record(&mut self, analysis: &AnalysisResult, lsn: Lsn) -> RuntimeResult<()> {
+        if let Some(create) = analysis.create_ops.get(&lsn) {
+            self.redo_create(create)
+        } else if let Some(alter) = analysis.alter_ops.get(&lsn) {
+            self.redo_ddl(alter)
+        } else if let Some(drop) = analysis.drop_ops.get(&lsn) {
+            self.redo_ddl(drop)
+        } else if let Some(insert) = analysis.insert_ops.get(&lsn) {
+            self.redo_write(insert)
+        } else if let Some(update) = analysis.update_ops.get(&lsn) {
+            self.redo_write(update)
+        } else if let Some(delete) = analysis.delete_ops.get(&lsn) {
+            self.redo_delete(delete)
+        } else {
+            Ok(())
+        }
+    }
+
+    /// Makes sure that the objects whose ids are not in the log do not take the ids that are.
+    fn reserve_object_ids(&self, analysis: &AnalysisResult) -> RuntimeResult<()> {
+        let mut next_object = self.ctx.pager().read().get_last_stored_object();
+        for create in analysis.create_ops.values() {
+            // The indexes of the constraints of a table come right after it.
+            let constraints = match DdlInstruction::from_bytes(create.redo())? {
+                DdlInstruction::CreateTable(table) => table.constraints.len(),
+                _ => 0,
+            };
+            let last_object = create.row_id().unwrap_or_default() + constraints as ObjectId;
+            next_object = next_object.max(last_object + 1);
+        }
+        self.ctx.pager().write().set_last_stored_object(next_object);
         Ok(())
     }
 
-    /// Recovers a CREATE operation during redo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the redo
-    /// payload and executes it to recreate the table/index.
-    fn redo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Try to deserialize as CreateTableInstr first
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
+    /// Creates a table or an index again, with the id it had.
+    fn redo_create<O: Operation>(&mut self, create: &O) -> RuntimeResult<()> {
+        let next_object = self.ctx.pager().read().get_last_stored_object();
+        if let Some(id) = create.row_id() {
+            self.ctx.pager().write().set_last_stored_object(id);
         }
-
-        // Try CreateIndexInstr
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        // Fallback: try generic DdlInstruction
-        if let Ok(instruction) = DdlInstruction::from_bytes(redo_bytes) {
-            self.ddl_executor.execute_instruction(&instruction)?;
-        }
-
-        Ok(())
+        let result = self.redo_ddl(create);
+        self.ctx.pager().write().set_last_stored_object(next_object);
+        result
     }
 
-    /// Recovers a CREATE operation during undo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the undo
-    /// payload and executes it to remove the created table/index.
-    fn undo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let object_id = create_op
-            .row_id()
-            .expect("Object ID must be set for CREATE logs");
-
-        // The undo of CREATE is DROP
-        // We need to get the redo bytes to know what type of object was created
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Determine if it's a table or index and execute the inverse
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_table_instr.inverse(object_id);
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_index_instr.inverse(object_id);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
+    /// Executes a DDL statement again.
+    fn redo_ddl<O: Operation>(&mut self, operation: &O) -> RuntimeResult<()> {
+        self.restore_index_entries()?;
+        self.tables.clear();
+        let instruction = DdlInstruction::from_bytes(operation.redo())?;
+        self.ddl_executor.execute_instruction(&instruction)?;
         Ok(())
     }
 
-    /// Recovers a DROP operation during redo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the redo
-    /// payload and executes it to remove the table/index.
-    fn redo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let object_id = drop_op
-            .row_id()
-            .expect("Object ID must be set for DROP logs");
-
-        // The undo bytes contain the CreateTableInstr needed to restore
-        // But for redo, we just need to drop by object_id
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Get the table/index name from the undo instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropTableInstr::new(
-                create_table_instr.table_name,
-                object_id,
-                true,
-                true, // if_exists = true for recovery
-            );
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropIndexInstr::new(create_index_instr.index_name, object_id, true);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
+    /// Table with an id, or none if it is not there anymore.
+    fn table(&mut self, id: ObjectId) -> RuntimeResult<Option<Relation>> {
+        if let Some(table) = self.tables.get(&id) {
+            return Ok(table.clone());
         }
 
-        Ok(())
+        let builder = self.ctx.tree_builder();
+        let catalog = self.ctx.catalog();
+        let table = match catalog.get_relation(id, &builder, self.ctx.snapshot()) {
+            Ok(table) => Some(table),
+            Err(CatalogError::TableNotFound(_)) => None,
+            Err(err) => return Err(err.into()),
+        };
+        self.tables.insert(id, table.clone());
+        Ok(table)
     }
 
-    /// Recovers a DROP operation during undo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the undo
-    /// payload and executes it to restore the dropped table/index.
-    fn undo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // The undo of DROP is CREATE - restore from the saved instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
+    /// Gives a row the contents that an operation left it with.
+    fn redo_write<O: Operation>(&mut self, operation: &O) -> RuntimeResult<()> {
+        let id = operation.object_id().unwrap_or_default();
+        let row_id = operation.row_id().unwrap_or_default();
+        let next = self.next_row_ids.entry(id).or_default();
+        *next = (*next).max(row_id + 1);
+        let Some(table) = self.table(id)? else {
             return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers an ALTER operation during redo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the redo payload and applies
-    /// the alteration to the table.
-    fn redo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let redo_bytes = alter_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers an ALTER operation during undo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the undo payload (which contains
-    /// the inverse operation) and applies it to restore the previous state.
-    fn undo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let undo_bytes = alter_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    // DML Undo operations
-    fn undo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(delete_op.undo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
+        };
+
+        let tuple = Tuple::from_slice_unchecked(operation.redo())?;
+        let row: Option<Row> = if tuple.is_deleted() {
+            None
+        } else {
+            Some(tuple.as_tuple_ref_with(table.schema()).to_row_with(table.schema())?)
+        };
+        self.restore_row(id, &table, row_id, row)
+    }
+
+    fn redo_delete<O: Operation>(&mut self, operation: &O) -> RuntimeResult<()> {
+        let id = operation.object_id().unwrap_or_default();
+        let row_id = operation.row_id().unwrap_or_default();
+        match self.table(id)? {
+            Some(table) => self.restore_row(id, &table, row_id, None),
+            None => Ok(()),
+        }
+    }
+
+    fn restore_row(
+        &mut self,
+        id: ObjectId,
+        table: &Relation,
+        row_id: RowId,
+        row: Option<Row>,
+    ) -> RuntimeResult<()> {
+        let before = self.dml_executor.restore_row(table, &UInt64(row_id), row)?;
+        let rows = self.restored.entry(id).or_default();
+        rows.entry(row_id).or_insert(before);
         Ok(())
     }
 
-    fn undo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                self.dml_executor
-                    .update_row(table_id, &row_id, &redo_row, &undo_row)?;
+    /// Brings the indexes up to date with the rows recovered so far.
+    fn restore_index_entries(&mut self) -> RuntimeResult<()> {
+        for (id, rows) in std::mem::take(&mut self.restored) {
+            if let Some(table) = self.table(id)? {
+                self.dml_executor.restore_index_entries(&table, &rows)?;
             }
         }
         Ok(())
     }
 
-    fn undo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = insert_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
-    }
-
-    // DML Redo operations
-
-    fn redo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = delete_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
-    }
-
-    fn redo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                // Redo: apply new state
-                self.dml_executor
-                    .update_row(table_id, &row_id, &undo_row, &redo_row)?;
+    /// Row ids which have been given are never given again.
+    fn restore_row_ids(&self) -> RuntimeResult<()> {
+        let builder = self.ctx.tree_builder();
+        let snapshot = self.ctx.snapshot();
+        let catalog = self.ctx.catalog();
+        for (&id, &next_row_id) in &self.next_row_ids {
+            let table = match catalog.get_relation(id, &builder, snapshot) {
+                Ok(table) => table,
+                Err(CatalogError::TableNotFound(_)) => continue,
+                Err(err) => return Err(RuntimeError::from(err)),
+            };
+            if table.next_row_id().value() < next_row_id {
+                catalog.update_relation(id, Some(next_row_id), None, None, &builder, snapshot)?;
             }
         }
         Ok(())
     }
-
-    fn redo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(insert_op.redo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
-        Ok(())
-    }
 }
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 93667d3..dccf882 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -178,6 +178,11 @@ impl WriteAheadLog {
 
     /// Runs the analysis phase of the ARIES recovery protocol.
     pub(crate) fn run_analysis(&mut self) -> io::Result<AnalysisResult> {
+        self.run_analysis_from(0)
+    }
+
+    /// Runs the analysis phase on the records from the given LSN on.
+    pub(crate) fn run_analysis_from(&mut self, first_lsn: Lsn) -> io::Result<AnalysisResult> {
         let mut result = AnalysisResult::default();
 
         let total_blocks = self.header.metadata().wal_header.total_blocks;
@@ -196,6 +201,9 @@ impl WriteAheadLog {
             let tid = record.tid();
             let lsn = record.lsn();
             let record_type = record.log_type();
+            if lsn < first_lsn {
+                continue;
+            }
 
             // Track the last LSN for each transaction
             result
@@ -593,6 +601,7 @@ impl<'a> WalReader<'a> {
 
 impl Drop for WriteAheadLog {
     fn drop(&mut self) {
-        self.flush().unwrap(); // Force panic if we fail to flush
+        // What has to be durable was forced when it was requested.
+        let _ = self.flush();
     }
 }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index ff08a59..edfc361 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -49,10 +49,11 @@ static GLOBAL: Jemalloc = Jemalloc;
 use crate::{
 
     io::{
-        disk::FileOperations,
+        disk::{DBFile, FileOperations},
         logger::Begin,
         pager::{BtreeBuilder, Pager, SharedPager},
         recovery::WalRecuperator,
+        wal::AnalysisResult,
     },
     multithreading::{
         coordinator::{TransactionCoordinator, TransactionError},
@@ -70,7 +71,7 @@ use crate::{
 use std::{
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
-    io::{Error as IoError, Write},
+    io::Error as IoError,
     path::{Path, PathBuf},
 };
 
@@ -224,8 +225,21 @@ impl Database {
             return Err(DatabaseError::NotFound(path));
         }
 
-        // Open pager
-        let mut pager = Pager::open(&path)?;
+        // Open pager. Nothing was ever stored if the creation of the database did not get to write
+        // its header.
+        let mut pager = if DBFile::open(&path)?.metadata()?.len() == 0 {
+            Pager::from_config(config, &path)?
+        } else {
+            Pager::open(&path)?
+        };
+
+        // The ids of the transactions that are in the log have already been used
+        let analysis = pager.run_analysis()?;
+        if let Some(last) = analysis.lsn_chains.keys().next_back()
+            && pager.get_last_created_transaction() <= *last
+        {
+            pager.set_last_created_transaction(last + 1);
+        }
 
         let total_pages = pager.total_allocated_pages();
 
@@ -253,19 +267,19 @@ impl Database {
         let task_runner =
             SharedTaskRunner::new(config.pool_size, pager.clone(), coordinator.clone());
 
-        let db = Self {
+        // Run recovery
+        if !analysis.lsn_chains.is_empty() {
+            Self::run_recovery(analysis, &pager, &catalog, &coordinator, &task_runner)?;
+        }
+
+        Ok(Self {
             path,
             pager,
             catalog,
             coordinator,
             task_runner,
             config,
-        };
-
-        // Run recovery
-        db.run_recovery()?;
-
-        Ok(db)
+        })
     }
 
     pub(crate) fn begin_transaction(
@@ -308,31 +322,36 @@ impl Database {
     }
 
     /// Runs WAL recovery to restore database to consistent state.
-    fn run_recovery(&self) -> DatabaseResult<()> {
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-        let child = tx_ctx.create_child()?;
-        let pager = self.pager.clone();
-        // Begin a recovery transaction
-        self.task_runner.run(move |ctx| {
-            let mut recuperator = WalRecuperator::new(child, logger.clone());
-
-            // Run analysis INSIDE the closure using the cloned pager
-            let analysis = pager.write().run_analysis().map_err(box_err)?;
+    fn run_recovery(
+        analysis: AnalysisResult,
+        pager: &SharedPager,
+        catalog: &SharedCatalog,
+        coordinator: &TransactionCoordinator,
+        task_runner: &SharedTaskRunner,
+    ) -> DatabaseResult<()> {
+        let (pager, catalog, coordinator) = (pager.clone(), catalog.clone(), coordinator.clone());
+        task_runner.run(move |_ctx| {
+            let _statement = catalog.lock_for_write();
 
-            // Run recovery through recuperator
-            recuperator.run_recovery(&analysis).map_err(box_err)?;
+            if !analysis.needs_redo.is_empty() {
+                // Begin a recovery transaction
+                let (tx_ctx, logger) =
+                    Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
+                        .map_err(box_err)?;
+                let child = tx_ctx.create_child().map_err(box_err)?;
 
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
+                // Run recovery through recuperator
+                WalRecuperator::new(child, logger)
+                    .run_recovery(&analysis)
+                    .map_err(box_err)?;
 
-            // Commit recovery transaction
-            tx_ctx.commit_transaction().map_err(box_err)?;
+                // Commit recovery transaction. If the checkpoint does not get to the end, the
+                // next recovery will start again from the log.
+                tx_ctx.commit_transaction().map_err(box_err)?;
+            }
 
-            Ok(())
+            // Nothing of the log is needed anymore
+            catalog.checkpoint(&coordinator).map_err(box_err)
         })?;
 
         Ok(())
@@ -423,7 +442,9 @@ impl Database {
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
         let _statement = self.catalog.lock_for_write();
-        self.pager.write().flush()?;
+        self.catalog
+            .checkpoint(&self.coordinator)
+            .map_err(RuntimeError::from)?;
         Ok(())
     }
 
@@ -561,7 +582,7 @@ impl Database {
 
             // Flush everything to disk
             let _statement = catalog.lock_for_write();
-            pager.write().flush().map_err(box_err)?;
+            catalog.checkpoint(&coordinator).map_err(box_err)?;
 
             Ok(stats)
         })?;
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 1fcf483..2a257e4 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -480,6 +480,16 @@ impl TransactionCoordinator {
         })
     }
 
+    /// Whether any transaction is still running.
+    pub(crate) fn has_active(&self) -> bool {
+        self.transactions.read().values().any(|entry| {
+            matches!(
+                entry.state(),
+                TransactionState::Active | TransactionState::Committing
+            )
+        })
+    }
+
     /// Changes made by a transaction.
     pub(crate) fn undo_log(&self, txid: TransactionId) -> Option<UndoLog> {
         self.transactions
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index f34d185..623b23a 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -126,6 +126,10 @@ where
     pub(crate) fn mark_dirty(&self) {
         self.is_dirty.store(true, Ordering::SeqCst);
     }
+
+    pub(crate) fn mark_clean(&self) {
+        self.is_dirty.store(false, Ordering::SeqCst);
+    }
 }
 
 impl<P> Frame<P>
@@ -284,6 +288,15 @@ impl MemFrame {
         }
     }
 
+    #[inline]
+    pub(crate) fn mark_clean(&self) {
+        match self {
+            MemFrame::Btree(f) => f.mark_clean(),
+            MemFrame::Overflow(f) => f.mark_clean(),
+            MemFrame::Zero(f) => f.mark_clean(),
+        }
+    }
+
     /// Execute a callback on the raw bytes of the inner frame.
     ///
     /// Be aware that this function grabs the write lock inside of itself.
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 1ba1245..63d59e9 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -381,6 +381,7 @@ impl TransactionContext {
     pub(crate) fn commit_transaction(&self) -> RuntimeResult<()> {
         let mut h = self.handle.write();
         h.commit()?;
+        h.undo().clear();
         Ok(())
     }
 
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index a5f9c4b..74aa4d5 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -63,7 +63,7 @@ impl DdlInstruction {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instruction = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instruction)
@@ -104,7 +104,7 @@ impl CreateTableInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -164,7 +164,7 @@ impl DropTableInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -216,7 +216,7 @@ impl CreateIndexInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -269,7 +269,7 @@ impl DropIndexInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -303,7 +303,7 @@ impl AlterTableInstr {
                 "Cannot deserialize empty bytes".to_string(),
             ));
         }
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(bytes);
         let instr = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(instr)
@@ -675,7 +675,7 @@ impl DdlExecutor {
             )?;
         }
 
-        let redo_bytes = instr.to_bytes()?;
+        let redo_bytes = DdlInstruction::CreateTable(instr.clone()).to_bytes()?;
         let undo_instr = instr.inverse(object_id);
         let undo_bytes = undo_instr.to_bytes()?;
         self.logger.log_create(object_id, redo_bytes, undo_bytes)?;
@@ -718,7 +718,7 @@ impl DdlExecutor {
 
         let undo_bytes = undo_instr.to_bytes()?;
         let redo_instr = undo_instr.inverse(id);
-        let redo_bytes = redo_instr.to_bytes()?;
+        let redo_bytes = DdlInstruction::DropTable(redo_instr).to_bytes()?;
         self.logger.log_drop(id, redo_bytes, undo_bytes)?;
 
         Ok(DdlResult::TableDropped { name: table_name })
@@ -759,7 +759,7 @@ impl DdlExecutor {
             &snapshot,
         )?;
 
-        let redo_bytes = instr.to_bytes()?;
+        let redo_bytes = DdlInstruction::CreateIndex(instr.clone()).to_bytes()?;
         let undo_instr = instr.inverse(index_id);
         let undo_bytes = undo_instr.to_bytes()?;
 
@@ -846,7 +846,7 @@ impl DdlExecutor {
             }
         }
 
-        let redo_bytes = instr.to_bytes()?;
+        let redo_bytes = DdlInstruction::AlterTable(instr.clone()).to_bytes()?;
         let undo_bytes = undo_instr.to_bytes()?;
 
         self.logger
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 7838f0c..623685a 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -3,7 +3,7 @@
 //! This module provides a unified interface for Insert, Update, and Delete operations
 //! on individual rows, including automatic maintenance of secondary indexes.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::{
     core::SerializableType,
@@ -359,6 +359,102 @@ impl DmlExecutor {
         Ok(DeleteResult { deleted: true })
     }
 
+    /// Gives a row the contents it had when the changes of the log were made, or removes it.
+    ///
+    /// There must be no other transactions. The indexes are left as they are, see
+    /// [`Self::restore_index_entries`]. Returns what the row contained.
+    pub(crate) fn restore_row(
+        &mut self,
+        table: &Relation,
+        row_id: &UInt64,
+        row: Option<Row>,
+    ) -> RuntimeResult<Option<Row>> {
+        let schema = table.schema();
+        let root = table.root();
+        let tree_builder = self.ctx.tree_builder().without_undo();
+        let mut tree = tree_builder.build_tree_mut(root);
+
+        let current = match tree.search(&row_id.serialize()?, schema)? {
+            SearchResult::Found(pos) => Some(tree.get_tuple_at_unchecked(pos, schema)?),
+            SearchResult::NotFound(_) => None,
+        };
+        let current_row = match &current {
+            Some(tuple) => Some(tuple.as_tuple_ref_with(schema).to_row_with(schema)?),
+            None => None,
+        };
+
+        match (&row, &current) {
+            (Some(row), _) => {
+                let tuple = TupleBuilder::from_schema(schema).build(row, self.ctx.tid())?;
+                tree.upsert(root, tuple, schema)?;
+            }
+            (None, Some(tuple)) => tree.remove_tuple(root, tuple, schema)?,
+            (None, None) => {}
+        }
+        Ok(current_row)
+    }
+
+    /// Contents of a row of a table, if it is there.
+    fn stored_row(&self, table: &Relation, row_id: &UInt64) -> RuntimeResult<Option<Row>> {
+        let schema = table.schema();
+        let mut tree = self.ctx.tree_builder().build_tree(table.root());
+        match tree.search(&row_id.serialize()?, schema)? {
+            SearchResult::Found(pos) => {
+                let tuple = tree.get_tuple_at_unchecked(pos, schema)?;
+                Ok(Some(tuple.as_tuple_ref_with(schema).to_row_with(schema)?))
+            }
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
+    /// Brings the indexes of a table up to date with rows that have been restored, given what they
+    /// contained when the indexes last were.
+    pub(crate) fn restore_index_entries(
+        &mut self,
+        table: &Relation,
+        rows: &BTreeMap<RowId, Option<Row>>,
+    ) -> RuntimeResult<()> {
+        let tree_builder = self.ctx.tree_builder().without_undo();
+        for index in table.get_indexes() {
+            let index_relation =
+                self.ctx
+                    .catalog()
+                    .get_relation(index.id(), &tree_builder, self.ctx.snapshot())?;
+            let index_schema = index_relation.schema();
+            let index_root = index_relation.root();
+            let mut index_tree = tree_builder.build_tree_mut(index_root);
+            let entry_of = |row: &Row, row_id: RowId| -> RuntimeResult<Option<Tuple>> {
+                if Self::index_key(&index, row)?.is_none() {
+                    return Ok(None);
+                }
+                let entry = Self::index_entry(&index, row, row_id);
+                let builder = TupleBuilder::from_schema(index_schema);
+                Ok(Some(builder.build(&entry, self.ctx.tid())?))
+            };
+
+            for (row_id, before) in rows {
+                if let Some(before) = before
+                    && let Some(entry) = entry_of(before, *row_id)?
+                    && let SearchResult::Found(pos) =
+                        index_tree.search_tuple(&entry, index_schema)?
+                {
+                    let existing = index_tree.get_tuple_at_unchecked(pos, index_schema)?;
+                    if Self::entry_owner(&existing, index_schema)? == *row_id {
+                        index_tree.remove_tuple(index_root, &existing, index_schema)?;
+                    }
+                }
+            }
+            for row_id in rows.keys() {
+                if let Some(row) = self.stored_row(table, &UInt64(*row_id))?
+                    && let Some(entry) = entry_of(&row, *row_id)?
+                {
+                    index_tree.upsert(index_root, entry, index_schema)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Builds a full row with default values, mapping input columns to schema positions.
     fn build_full_row(
         &self,
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 9db2525..4e64b7d 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -26,6 +26,7 @@ use super::{
 
 use std::collections::HashSet;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::io::Write;
 use crate::sync::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard, SystemTime};
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::UNIX_EPOCH;
@@ -158,6 +159,29 @@ impl Catalog {
         self.has_garbage.load(Ordering::Acquire)
     }
 
+    /// Writes everything to the disk. What is in the log is not needed anymore.
+    ///
+    /// What is on the disk at a checkpoint cannot be taken back after a crash, so it only happens
+    /// if there are no transactions running. Otherwise just the log is written, which is enough to
+    /// make everything that has been committed durable. The statement lock must be held.
+    pub(crate) fn checkpoint(&self, coordinator: &TransactionCoordinator) -> CatalogResult<()> {
+        if coordinator.has_active() {
+            self.pager.write().flush_wal().map_err(BtreeError::from)?;
+            return Ok(());
+        }
+
+        if self.has_garbage() {
+            let builder = {
+                let pager = self.pager.read();
+                BtreeBuilder::new(pager.min_keys_per_page(), pager.num_siblings_per_side())
+            }
+            .with_pager(self.pager.clone());
+            self.reclaim(&builder, coordinator)?;
+        }
+        self.pager.write().flush().map_err(BtreeError::from)?;
+        Ok(())
+    }
+
     /// Takes back a change made by a transaction, freeing the trees it had created.
     pub(crate) fn undo(&self, entry: &UndoEntry, builder: &BtreeBuilder) -> CatalogResult<()> {
         if entry.root() == self.meta_table {
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 544012f..3109067 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -12,7 +12,7 @@ use crate::{
         cell::{CellHeader, Slot},
         core::{buffer::MemBlock, traits::ComposedMetadata},
     },
-    types::{PAGE_ZERO, PageId},
+    types::{Lsn, PAGE_ZERO, PageId},
 };
 
 pub(crate) const ABORTED_BITMAP_SIZE: usize = 1024;
@@ -79,6 +79,8 @@ pub(crate) struct PageZeroHeader {
     pub(crate) min_keys: u8,
     pub(crate) num_siblings_per_side: u8,
     pub(crate) aborted_txs_bitmap: [u8; ABORTED_BITMAP_SIZE],
+    /// The changes of the log records before this one are already in the database.
+    pub(crate) next_lsn: Lsn,
 }
 pub(crate) const PAGE_ZERO_HEADER_SIZE: usize = mem::size_of::<PageZeroHeader>();
 
@@ -121,6 +123,7 @@ impl PageZeroHeader {
             num_siblings_per_side,
             cache_size,
             aborted_txs_bitmap: [0u8; ABORTED_BITMAP_SIZE],
+            next_lsn: 0,
         }
     }
 
-- 
2.43.0


From acd1c7a3363568bdb6c53ae35eca33e1637ae1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 35/40] fix: VACUUM waits for commits in progress, frees what
 was dropped and is not aborted by another VACUUM

---
 crates/axmos-db/src/lib.rs                    | 24 +++++++++----------
 .../src/multithreading/coordinator.rs         | 13 +++++++++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index edfc361..7e32ebe 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -528,7 +528,8 @@ impl Database {
         let coordinator = self.coordinator.clone();
 
         let stats = self.task_runner.run_with_result(move |_ctx| {
-            let statement = catalog.lock_for_write();
+            let _statement = catalog.lock_for_write();
+            let commits = coordinator.hold_commits();
 
             // Abort all active transactions
             let aborted_txs = coordinator.abort_all();
@@ -551,19 +552,18 @@ impl Database {
             }
 
             // Create a vacuum transaction
-            let (tx_ctx, logger) =
+            let (tx_ctx, _logger) =
                 Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
                     .map_err(box_err)?;
 
             let tree_builder = tx_ctx.tree_builder().without_undo();
             let vacuum_snapshot = tx_ctx.snapshot();
 
-            // Free the relations that have been dropped
-            if !coordinator.has_other_active(tx_ctx.tid()) {
-                catalog
-                    .reclaim(&tree_builder, &coordinator)
-                    .map_err(box_err)?;
-            }
+            // Free the relations that have been dropped. Those that dropped them have committed, and
+            // whatever has begun since all transactions were aborted does not see them.
+            catalog
+                .reclaim(&tree_builder, &coordinator)
+                .map_err(box_err)?;
 
             let mut stats = catalog
                 .vacuum(&tree_builder, &vacuum_snapshot, oldest_active_xid)
@@ -575,13 +575,13 @@ impl Database {
             // Clear aborted transactions bitmap up to oldest_active_xid
             pager.write().clear_aborted_up_to(oldest_active_xid);
 
-            drop(statement);
+            drop(commits);
 
-            // Commit vacuum transaction
-            tx_ctx.commit_and_log(&logger).map_err(box_err)?;
+            // Commit vacuum transaction. It has changed nothing that the log has to know of, and
+            // must have ended before another VACUUM aborts whatever is active.
+            tx_ctx.commit_transaction().map_err(box_err)?;
 
             // Flush everything to disk
-            let _statement = catalog.lock_for_write();
             catalog.checkpoint(&coordinator).map_err(box_err)?;
 
             Ok(stats)
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 2a257e4..769a2dd 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -4,7 +4,7 @@ use crate::{
     tree::undo::UndoLog,
     types::{LogicalId, TransactionId},
 };
-use crate::sync::RwLock;
+use crate::sync::{RwLock, RwLockWriteGuard};
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
@@ -312,6 +312,7 @@ impl Clone for TransactionCoordinator {
             pager: self.pager.clone(),
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
+            commits: Arc::clone(&self.commits),
         }
     }
 }
@@ -329,6 +330,8 @@ pub struct TransactionCoordinator {
     commit_counter: Arc<AtomicU64>,
     /// Last commit timestamp per tuple - tracks when each tuple was last modified
     tuple_commits: TupleCommitLog,
+    /// Held for reading by the transactions which are committing.
+    commits: Arc<RwLock<()>>,
 }
 
 enum ValidationResult {
@@ -343,6 +346,7 @@ impl TransactionCoordinator {
             pager,
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
+            commits: Arc::new(RwLock::new(())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -513,6 +517,8 @@ impl TransactionCoordinator {
     where
         F: FnOnce() -> TransactionResult<()>,
     {
+        let _commit = self.commits.read();
+
         // Perform validation
         match self.validate_write_set(txid)? {
             ValidationResult::Allowed => {
@@ -685,6 +691,11 @@ impl TransactionCoordinator {
         self.pager.clone()
     }
 
+    /// Waits until no transaction is committing, and lets none commit until the guard is dropped.
+    pub(crate) fn hold_commits(&self) -> RwLockWriteGuard<'_, ()> {
+        self.commits.write()
+    }
+
     /// Aborts all currently active transactions.
     /// Returns the list of transaction IDs that were aborted.
     pub fn abort_all(&self) -> Vec<TransactionId> {
-- 
2.43.0


From a7c3841e482bb68fa3ef6f7c5a3fc19e1d5ab1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 36/40] fix: RIGHT and FULL joins keep the unmatched rows of
 the right input under every plan

---
 crates/axmos-db/src/runtime/builder.rs   |  8 ++++-
 crates/axmos-db/src/runtime/ops/join.rs  | 43 +++++++++++-------------
 crates/axmos-db/src/sql/planner/rules.rs |  6 +++-
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/crates/axmos-db/src/runtime/builder.rs b/crates/axmos-db/src/runtime/builder.rs
index e897da7..7822fa4 100644
--- a/crates/axmos-db/src/runtime/builder.rs
+++ b/crates/axmos-db/src/runtime/builder.rs
@@ -84,9 +84,15 @@ impl ExecutorBuilder {
 
             PhysicalOperator::NestedLoopJoin(join_op) => {
                 require_children(children, 2, "NestedLoopJoin")?;
+                let left_schema = children[0].output_schema().clone();
                 let left = build_child(&children[0])?;
                 let right = build_child(&children[1])?;
-                Ok(Box::new(NestedLoopJoin::new(join_op, left, right)))
+                Ok(Box::new(NestedLoopJoin::new(
+                    join_op,
+                    left,
+                    right,
+                    &left_schema,
+                )))
             }
             PhysicalOperator::HashJoin(join_op) => {
                 require_children(children, 2, "HashJoin")?;
diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 991b631..87303a8 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -176,12 +176,16 @@ pub(crate) struct NestedLoopJoin<Left: Executor, Right: Executor> {
 }
 
 impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> {
-    pub(crate) fn new(op: &NestedLoopJoinOp, left: Left, right: Right) -> Self {
-        let total_cols = op.output_schema.num_columns();
+    pub(crate) fn new(
+        op: &NestedLoopJoinOp,
+        left: Left,
+        right: Right,
+        left_schema: &Schema,
+    ) -> Self {
         Self {
             join_type: op.join_type,
             condition: op.condition.clone(),
-            left_cols: 0,
+            left_cols: left_schema.num_columns(),
             output_schema: op.output_schema.clone(),
             left,
             right,
@@ -253,9 +257,6 @@ impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> {
                 match self.left.next()? {
                     Some(row) => {
                         self.stats.rows_scanned += 1;
-                        if self.left_cols == 0 {
-                            self.left_cols = row.len();
-                        }
                         self.current_left_row = Some(row);
                         self.right_idx = 0;
                         self.left_matched = false;
@@ -530,9 +531,7 @@ pub(crate) struct MergeJoin<Left: Executor, Right: Executor> {
     left_exhausted: bool,
     right_exhausted: bool,
     left_matched: bool,
-    right_matched: Vec<bool>,
     emitting_unmatched_right: bool,
-    unmatched_right_idx: usize,
 
     stats: ExecutionStats,
 }
@@ -562,9 +561,7 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
             left_exhausted: false,
             right_exhausted: false,
             left_matched: false,
-            right_matched: Vec::new(),
             emitting_unmatched_right: false,
-            unmatched_right_idx: 0,
             stats: ExecutionStats::default(),
         }
     }
@@ -610,10 +607,6 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
             Some(row) => {
                 self.stats.rows_scanned += 1;
                 self.current_right = Some(row);
-
-                if matches!(self.join_type, JoinType::Right | JoinType::Full) {
-                    self.right_matched.push(false);
-                }
             }
             None => {
                 self.right_exhausted = true;
@@ -664,15 +657,12 @@ impl<Left: Executor, Right: Executor> Executor for MergeJoin<Left, Right> {
 
     fn next(&mut self) -> RuntimeResult<Option<Row>> {
         if self.emitting_unmatched_right {
-            while self.unmatched_right_idx < self.right_matched.len() {
-                let idx = self.unmatched_right_idx;
-                self.unmatched_right_idx += 1;
-
-                if !self.right_matched[idx] && idx < self.right_buffer.len() {
-                    let row = nulls_with_right(&self.right_buffer[idx], self.left_cols());
-                    self.stats.rows_produced += 1;
-                    return Ok(Some(row));
-                }
+            // Buffered rows have all matched; what remains of the right input has not.
+            if let Some(right_row) = self.current_right.take() {
+                let row = nulls_with_right(&right_row, self.left_cols());
+                self.advance_right()?;
+                self.stats.rows_produced += 1;
+                return Ok(Some(row));
             }
             return Ok(None);
         }
@@ -795,6 +785,13 @@ impl<Left: Executor, Right: Executor> Executor for MergeJoin<Left, Right> {
                     self.left_matched = false;
                 }
                 Ordering::Greater => {
+                    // No left row has the key of this one.
+                    if matches!(self.join_type, JoinType::Right | JoinType::Full) {
+                        let row = nulls_with_right(right_row, self.left_cols());
+                        self.advance_right()?;
+                        self.stats.rows_produced += 1;
+                        return Ok(Some(row));
+                    }
                     self.advance_right()?;
                 }
                 Ordering::Equal => {
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index ed3b9b8..5976ebf 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1035,7 +1035,11 @@ impl ImplementationRule for JoinRule {
                         OrderingSpec::asc(right_idx)
                     })
                     .collect();
-                let output_ordering: Vec<_> = left_keys.iter().map(|e| (e.clone(), true)).collect();
+                // The rows a RIGHT or FULL join adds have no left keys.
+                let output_ordering: Vec<_> = match join.join_type {
+                    JoinType::Right | JoinType::Full => vec![],
+                    _ => left_keys.iter().map(|e| (e.clone(), true)).collect(),
+                };
 
                 let mut merge_expr = PhysicalExpr::new(
                     PhysicalOperator::MergeJoin(MergeJoinOp {
-- 
2.43.0


From ec541821defd2eb21763884d02528dabd843bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 37/40] verif: the page cache of an opened database can be
 bounded

---
 crates/axmos-db/src/io/pager.rs | 6 ++++++
 crates/axmos-db/src/lib.rs      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index ced36b0..fd7d464 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -154,6 +154,12 @@ impl Pager {
         Ok(page_zero)
     }
 
+    /// Bounds the page cache of a database that was opened.
+    #[cfg(axmos_verif)]
+    pub(crate) fn set_cache_capacity(&mut self, pages: usize) {
+        self.cache.set_capacity(pages);
+    }
+
     /// Syncs the header to the disk.
     fn sync_header(&mut self) -> io::Result<()> {
         let page_size = self.page_size();
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 7e32ebe..757eb5a 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -233,6 +233,9 @@ impl Database {
             Pager::open(&path)?
         };
 
+        #[cfg(axmos_verif)]
+        pager.set_cache_capacity(config.cache_size);
+
         // The ids of the transactions that are in the log have already been used
         let analysis = pager.run_analysis()?;
         if let Some(last) = analysis.lsn_chains.keys().next_back()
-- 
2.43.0


From 19e105f5d792af0f34b8b9af01c6af933eab8180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 38/40] fix: a row of more than 255 columns keeps its versions
 apart

---
 crates/axmos-db/src/storage/tuple.rs | 88 +++++++++++++++++-----------
 1 file changed, 53 insertions(+), 35 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index df9f14d..49322e1 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -298,6 +298,25 @@ struct DeltaHeader {
 
 bytemuck_struct!(DeltaHeader);
 
+/// Size of the number of changes of a delta, and of the index of each changed value.
+const INDEX_SIZE: usize = size_of::<u16>();
+
+/// Reads an index of a delta. Returns it with the offset that follows.
+#[inline]
+fn read_index(data: &[u8], offset: usize) -> (usize, usize) {
+    let end = offset + INDEX_SIZE;
+    let index = u16::from_le_bytes([data[offset], data[offset + 1]]);
+    (index as usize, end)
+}
+
+/// Writes an index of a delta. Returns the offset that follows.
+#[inline]
+fn write_index(buffer: &mut [u8], offset: usize, index: usize) -> usize {
+    let end = offset + INDEX_SIZE;
+    buffer[offset..end].copy_from_slice(&(index as u16).to_le_bytes());
+    end
+}
+
 impl DeltaHeader {
     pub fn new(version: u32, xmin: u64) -> Self {
         Self { xmin, version }
@@ -316,8 +335,8 @@ impl DeltaHeader {
 
 /// LAYOUT: [Header][Null Bitmap][Keys (aligned)][Values (aligned)][Deltas...]
 ///
-/// Delta layout: [DeltaHeader][num_changes: u8][bitmap][changes...]
-/// Each change: [field_idx: u8][value (aligned)]
+/// Delta layout: [DeltaHeader][num_changes: u16][bitmap][changes...]
+/// Each change: [field_idx: u16][value (aligned)]
 #[derive(Debug, Clone)]
 pub(crate) struct TupleLayout {
     /// Metadata about the tuple status in the database
@@ -559,7 +578,7 @@ impl<'a> TupleReader<'a> {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
-        // Delta layout: [DeltaHeader][num_changes: u8][full_bitmap][changes...]
+        // Delta layout: [DeltaHeader][num_changes: u16][full_bitmap][changes...]
         while cursor < data.len() {
             let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
             cursor = header_end;
@@ -568,8 +587,8 @@ impl<'a> TupleReader<'a> {
             layout.version = delta_header.version();
 
             // Read number of changes
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+            let (num_changes, next) = read_index(data, cursor);
+            cursor = next;
 
             // Delta's FULL null bitmap
             layout.null_bitmap_start = cursor;
@@ -578,8 +597,8 @@ impl<'a> TupleReader<'a> {
 
             // Parse changes - only non-null values have data
             for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+                let (field_idx, next) = read_index(data, cursor);
+                cursor = next;
 
                 // Check if this field is null using the delta's full bitmap
                 let is_null = Self::check_null(delta_bitmap, field_idx);
@@ -641,8 +660,8 @@ impl<'a> TupleReader<'a> {
             layout.version_xmax = Some(delta_header.xmin());
             layout.version = delta_header.version();
 
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+            let (num_changes, next) = read_index(data, cursor);
+            cursor = next;
 
             // Delta's FULL null bitmap - valid for ALL values
             layout.null_bitmap_start = cursor;
@@ -651,8 +670,8 @@ impl<'a> TupleReader<'a> {
 
             // Parse changes and update value_offsets for non-null changed values
             for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+                let (field_idx, next) = read_index(data, cursor);
+                cursor = next;
 
                 // Check if this field is null using the delta's full bitmap
                 let is_null = Self::check_null(delta_bitmap, field_idx);
@@ -868,8 +887,8 @@ impl Display for DeltaHeader {
 }
 
 /// Layout: [Header][Null Bitmap][Keys][Values][Delta0][Delta1]...[DeltaN]
-/// Delta: [DeltaHeader][num_changes: u8][bitmap][changes...]
-/// Change: [field_idx: u8][value (aligned)]
+/// Delta: [DeltaHeader][num_changes: u16][bitmap][changes...]
+/// Change: [field_idx: u16][value (aligned)]
 #[derive(Clone)]
 pub(crate) struct Tuple {
     data: Payload,
@@ -998,12 +1017,12 @@ impl Tuple {
     ///
     /// Each delta contains:
     /// ```text
-    /// [DeltaHeader][num_changes: u8][full_null_bitmap][changes...]
+    /// [DeltaHeader][num_changes: u16][full_null_bitmap][changes...]
     /// ```
     ///
     /// Where each change is:
     /// ```text
-    /// [field_idx: u8][value_bytes (if not null)]
+    /// [field_idx: u16][value_bytes (if not null)]
     /// ```
     pub(crate) fn add_version_with(
         &mut self,
@@ -1121,7 +1140,7 @@ impl Tuple {
         current: &TupleRef<'_>,
         modified: &HashMap<usize, DataType>,
         schema: &Schema,
-    ) -> TupleResult<(Vec<DataType>, Vec<(u8, DataType)>, Vec<DataType>)> {
+    ) -> TupleResult<(Vec<DataType>, Vec<(usize, DataType)>, Vec<DataType>)> {
         let num_values = schema.num_values();
         let mut new_values = Vec::with_capacity(num_values);
         let mut changed_values = Vec::with_capacity(modified.len());
@@ -1136,7 +1155,7 @@ impl Tuple {
             all_old_values.push(current_val.clone());
 
             if let Some(new_val) = modified.get(&i) {
-                changed_values.push((i as u8, current_val));
+                changed_values.push((i, current_val));
                 new_values.push(new_val.clone());
             } else {
                 new_values.push(current_val);
@@ -1152,7 +1171,7 @@ impl Tuple {
     fn calculate_new_tuple_size(
         keys: &[DataType],
         new_values: &[DataType],
-        changed_values: &[(u8, DataType)],
+        changed_values: &[(usize, DataType)],
         existing_deltas_size: usize,
         bitmap_size: usize,
     ) -> usize {
@@ -1181,12 +1200,12 @@ impl Tuple {
         // New delta
         size = DeltaHeader::aligned_offset(size);
         size += DeltaHeader::SIZE;
-        size += 1; // num_changes byte
+        size += INDEX_SIZE; // num_changes
         size += bitmap_size; // FULL null bitmap for old version
 
         // Delta changes - only store non-null old values
         for (_, old_val) in changed_values {
-            size += 1; // field_idx byte
+            size += INDEX_SIZE; // field_idx
             if !old_val.is_null() {
                 size = aligned_offset(size, old_val.align());
                 size += old_val.runtime_size();
@@ -1247,7 +1266,7 @@ impl Tuple {
     ///
     /// Delta layout:
     /// ```text
-    /// [DeltaHeader][num_changes: u8][full_null_bitmap][changes...]
+    /// [DeltaHeader][num_changes: u16][full_null_bitmap][changes...]
     /// ```
     ///
     /// The full_null_bitmap contains null status for ALL values in the old version,
@@ -1257,7 +1276,7 @@ impl Tuple {
         offset: usize,
         version: u32,
         xmin: TransactionId,
-        changed_values: &[(u8, DataType)],
+        changed_values: &[(usize, DataType)],
         all_old_values: &[DataType],
         bitmap_size: usize,
     ) -> TupleResult<usize> {
@@ -1269,8 +1288,7 @@ impl Tuple {
         let mut cursor = delta_header.write_to(buffer, delta_start);
 
         // Write number of changes
-        buffer[cursor] = changed_values.len() as u8;
-        cursor += 1;
+        cursor = write_index(buffer, cursor, changed_values.len());
 
         // Write FULL null bitmap for ALL values in old version
         let bitmap_start = cursor;
@@ -1289,8 +1307,7 @@ impl Tuple {
 
         // Write changes: [field_idx][value (if not null)]
         for &(idx, ref val) in changed_values {
-            buffer[cursor] = idx;
-            cursor += 1;
+            cursor = write_index(buffer, cursor, idx);
             if !val.is_null() {
                 cursor = val.write_to(buffer, cursor)?;
             }
@@ -1371,18 +1388,19 @@ impl Tuple {
 
             // If the version was replaced at or after oldest_active_xid, some transaction might still need it
             if delta_header.xmin() >= oldest_active_xid {
-                let num_changes = self.data.effective_data()[header_end] as usize;
+                let (num_changes, delta_bitmap_start) =
+                    read_index(self.data.effective_data(), header_end);
 
-                // Skip: num_changes byte + full bitmap
-                let delta_bitmap_start = header_end + 1;
+                // Skip: num_changes + full bitmap
                 let delta_bitmap = &self.data.effective_data()
                     [delta_bitmap_start..delta_bitmap_start + bitmap_size];
                 let mut skip_cursor = delta_bitmap_start + bitmap_size;
 
                 // Skip each change entry
                 for _ in 0..num_changes {
-                    let field_idx = self.data.effective_data()[skip_cursor] as usize;
-                    skip_cursor += 1;
+                    let (field_idx, next) =
+                        read_index(self.data.effective_data(), skip_cursor);
+                    skip_cursor = next;
 
                     // Check if this field is NULL using the delta's bitmap
                     let is_null = TupleReader::check_null(delta_bitmap, field_idx);
@@ -1446,14 +1464,14 @@ impl Tuple {
 
         while cursor < self.data.len() {
             let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
-            let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1;
+            let (num_changes, bitmap_start) = read_index(self.data.effective_data(), header_end);
+            cursor = bitmap_start;
             let delta_bitmap = &self.data.effective_data()[cursor..cursor + bitmap_size];
             cursor += bitmap_size;
 
             for _ in 0..num_changes {
-                let field_idx = self.data.effective_data()[cursor] as usize;
-                cursor += 1;
+                let (field_idx, next) = read_index(self.data.effective_data(), cursor);
+                cursor = next;
 
                 if TupleReader::check_null(delta_bitmap, field_idx) {
                     continue;
-- 
2.43.0


From 85177f85d5b7173527c17b6300e00af36643af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 39/40] fix: a log force that was cut in the middle of a write
 leaves a log that opens, without the records that were not whole

---
 crates/axmos-db/src/io/journal.rs  |  2 +-
 crates/axmos-db/src/io/wal.rs      | 51 +++++++++++++++++++++++++++---
 crates/axmos-db/src/lib.rs         |  6 ++--
 crates/axmos-db/src/storage/wal.rs | 33 +++++++++++++++++--
 4 files changed, 80 insertions(+), 12 deletions(-)

diff --git a/crates/axmos-db/src/io/journal.rs b/crates/axmos-db/src/io/journal.rs
index c8ef330..0429b77 100644
--- a/crates/axmos-db/src/io/journal.rs
+++ b/crates/axmos-db/src/io/journal.rs
@@ -27,7 +27,7 @@ const JOURNAL_BLOCK: usize = PAGE_ALIGNMENT;
 
 type Block = MemBlock<u64>;
 
-fn checksum(words: &[u64], bytes: &[u8]) -> u64 {
+pub(crate) fn checksum(words: &[u64], bytes: &[u8]) -> u64 {
     let mut hash = 0xcbf2_9ce4_8422_2325u64;
     let mut mix = |word: u64| {
         hash ^= word;
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index dccf882..3e16d74 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -5,8 +5,12 @@ use crate::{
         logger::{Alter, Create, Delete, DropOp, Insert, Update},
     },
     storage::{
-        Allocatable, AvailableSpace, WalMetadata, WalOps, Writable,
-        wal::{BlockZero, OwnedRecord, RecordRef, RecordType, WAL_BLOCK_SIZE, WalBlock},
+        Allocatable, AvailableSpace, ComposedBuffer, WalMetadata, WalOps, Writable,
+        core::buffer::MemBlock,
+        wal::{
+            BlockZero, OwnedRecord, RECORD_HEADER_SIZE, RecordRef, RecordType, WAL_BLOCK_SIZE,
+            WalBlock,
+        },
     },
     types::{BlockId, Lsn},
 };
@@ -48,8 +52,13 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
-        // A log that was just created or truncated has no blocks on disk yet.
-        if file.seek(SeekFrom::End(0))? == 0 {
+        // A log that was just created or truncated has no blocks on disk yet. Nothing was part of
+        // it either if not even block zero, which is written last, is complete.
+        let size = file.seek(SeekFrom::End(0))?;
+        if size < default_block_size as u64 {
+            if size > 0 {
+                file.truncate()?;
+            }
             return Ok(Self {
                 header: BlockZero::alloc(0, default_block_size),
                 current_block: None,
@@ -75,7 +84,17 @@ impl FileOperations for WriteAheadLog {
             (header_buf, block_size)
         };
 
-        // A force that was cut short may have written the last block but not block zero.
+        // A force that was cut short may have written a part of block zero. What was in it before
+        // is still there, and what follows was not part of the log yet.
+        let whole = whole_records(&header_buf);
+        if whole < header_buf.metadata().used_bytes() {
+            header_buf.metadata_mut().block_header.used_bytes = whole as u64;
+            header_buf.metadata_mut().wal_header.total_blocks = 1;
+            file.seek(SeekFrom::Start(0))?;
+            file.write_all(header_buf.as_ref())?;
+        }
+
+        // Or it may have written the last block, or a part of it, but not block zero.
         let last_block = header_buf.metadata().wal_header.total_blocks.saturating_sub(1);
         if last_block > 0 {
             let mut block = WalBlock::new(block_size);
@@ -84,6 +103,13 @@ impl FileOperations for WriteAheadLog {
             let last_lsn = block.metadata().block_last_lsn;
             let wal_header = &mut header_buf.metadata_mut().wal_header;
             wal_header.global_last_lsn = wal_header.global_last_lsn.max(last_lsn);
+
+            let whole = whole_records(&block);
+            if whole < block.metadata().used_bytes() {
+                block.metadata_mut().used_bytes = whole as u64;
+                file.seek(SeekFrom::Start(last_block * block_size as u64))?;
+                file.write_all(block.as_ref())?;
+            }
         }
 
         Ok(Self {
@@ -134,6 +160,21 @@ impl Seek for WriteAheadLog {
     }
 }
 
+/// Size of the records at the start of a block that are all there.
+fn whole_records<M: WalMetadata>(block: &MemBlock<M>) -> usize {
+    let used = block.metadata().used_bytes();
+    let mut at = 0;
+    while at + RECORD_HEADER_SIZE <= used {
+        let header = unsafe { block.item_at_offset(at as u64).as_ref() };
+        let size = header.total_size as usize;
+        if size < RECORD_HEADER_SIZE || size > used - at || !block.record(at as u64).is_whole() {
+            break;
+        }
+        at += size;
+    }
+    at
+}
+
 /// Result of the analysis phase.
 ///
 /// The objective of the analysis phase is to discover which transactions will need a redo or an undo
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 757eb5a..c8fda1f 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -225,9 +225,9 @@ impl Database {
             return Err(DatabaseError::NotFound(path));
         }
 
-        // Open pager. Nothing was ever stored if the creation of the database did not get to write
-        // its header.
-        let mut pager = if DBFile::open(&path)?.metadata()?.len() == 0 {
+        // Open pager. Nothing was ever stored if the creation of the database did not get to write all
+        // of its header.
+        let mut pager = if DBFile::open(&path)?.metadata()?.len() < MIN_PAGE_SIZE as u64 {
             Pager::from_config(config, &path)?
         } else {
             Pager::open(&path)?
diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index d1fd095..b535cb3 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -1,6 +1,7 @@
 /// This module includes the main data structures that represent Write Ahead Log blocks and records.
 use crate::{
     CELL_ALIGNMENT, MAX_PAGE_SIZE, MIN_PAGE_SIZE, RowId, bytemuck_slice,
+    io::journal::checksum,
     storage::{
         Allocatable, WalMetadata, WritableLayout,
         core::{
@@ -156,7 +157,9 @@ pub struct RecordHeader {
     pub(crate) undo_len: u16,
     pub(crate) redo_len: u16,
     pub(crate) log_type: RecordType,
-    pub(crate) padding: [u8; 7],
+    pub(crate) padding: [u8; 3],
+    /// Tells a whole record from one whose write was cut short.
+    pub(crate) checksum: u32,
 }
 
 bytemuck_slice!(RecordHeader);
@@ -183,9 +186,27 @@ impl RecordHeader {
             undo_len,
             redo_len,
             log_type,
-            padding: [0; 7],
+            padding: [0; 3],
+            checksum: 0,
         }
     }
+
+    fn compute_checksum(&self, payload: &[u8]) -> u32 {
+        let sizes = (self.total_size as u64) << 32
+            | (self.undo_len as u64) << 16
+            | self.redo_len as u64;
+        let words = [
+            self.lsn,
+            self.tid,
+            self.prev_lsn.map_or(0, |lsn| lsn.wrapping_add(1)),
+            self.object_id.map_or(0, |id| id.wrapping_add(1)),
+            self.row_id.map_or(0, |id| id.wrapping_add(1)),
+            sizes,
+            self.log_type as u64,
+        ];
+        let hash = checksum(&words, payload);
+        (hash ^ (hash >> 32)) as u32
+    }
 }
 
 /// Resembles an owned record in memory.
@@ -221,7 +242,7 @@ impl OwnedRecord {
         payload[undo_payload.len()..undo_payload.len() + redo_payload.len()]
             .copy_from_slice(redo_payload);
 
-        let header = RecordHeader::new(
+        let mut header = RecordHeader::new(
             lsn,
             tid,
             object_id,
@@ -232,6 +253,7 @@ impl OwnedRecord {
             redo_payload.len() as u16,
             log_type,
         );
+        header.checksum = header.compute_checksum(&payload);
 
         Self { header, payload }
     }
@@ -364,6 +386,11 @@ impl<'a> RecordRef<'a> {
         self.header.total_size as usize
     }
 
+    /// Whether all of the record was written.
+    pub(crate) fn is_whole(&self) -> bool {
+        self.header.checksum == self.header.compute_checksum(self.data)
+    }
+
     /// Copies the record ref into an owned buffer.
     pub fn to_owned(&self) -> OwnedRecord {
         OwnedRecord::new(
-- 
2.43.0


From 93dd1fe6165320d8d487fda6583af41c7ec85931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 40/40] fix: a transaction whose commit cannot be made durable
 is rolled back

---
 crates/axmos-db/src/runtime/context.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 63d59e9..e3e5eba 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -227,11 +227,16 @@ impl TransactionLogger {
     }
 
     pub(crate) fn log_end(&self) -> RuntimeResult<()> {
-        self.pager.write().flush_wal()?;
         self.log_operation(End)?;
         Ok(())
     }
 
+    /// Makes what has been logged durable.
+    pub(crate) fn force(&self) -> RuntimeResult<()> {
+        self.pager.write().flush_wal()?;
+        Ok(())
+    }
+
     fn log_operation<O: Operation>(&self, operation: O) -> RuntimeResult<()> {
         let new_last_lsn =
             self.pager
@@ -388,13 +393,14 @@ impl TransactionContext {
     /// Commits the transaction, writing its commit record to the log.
     ///
     /// The commit record is only written once the transaction is known to be able to commit, and
-    /// the changes of the transaction only become visible once it has been written.
+    /// the changes of the transaction only become visible once it is durable.
     pub(crate) fn commit_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
         let committed = {
             let mut h = self.handle.write();
             h.commit_with(|| {
                 logger
                     .log_commit()
+                    .and_then(|_| logger.force())
                     .map_err(|e| TransactionError::Other(e.to_string()))
             })
         };
@@ -402,7 +408,7 @@ impl TransactionContext {
         if let Err(err) = committed {
             let _statement = self.catalog.lock_for_write();
             let _ = self.undo_changes(|_| true);
-            let _ = logger.log_abort();
+            let _ = logger.log_abort().and_then(|_| logger.force());
             return Err(err.into());
         }
 
@@ -456,6 +462,7 @@ impl TransactionContext {
     pub(crate) fn abort_and_log(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
         self.abort_transaction()?;
         logger.log_abort()?;
+        logger.force()?;
         logger.log_end()?;
 
         if self.catalog.has_garbage() {
-- 
2.43.0

