From d730949c01ad7777c2344d70980e0a974de0881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:56 +0000
Subject: [PATCH 01/15] fix: keep rust::Vec intact when copy assignment throws

---
 include/cxx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..3b2a7d8 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,8 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    // Copy first, so that an exception from copying leaves *this intact.
+    *this = Vec(other);
   }
   return *this;
 }
-- 
2.43.0


From 28a3655a59c52b4b616c68ffeef34dd318cfdd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:45 +0000
Subject: [PATCH 02/15] fix: let rust::Vec::emplace_back take an element of the
 same vector

---
 include/cxx.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 3b2a7d8..e8e6889 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -987,10 +987,19 @@ template <typename T>
 template <typename... Args>
 void Vec<T>::emplace_back(Args &&...args) {
   auto size = this->size();
-  this->reserve_total(size + 1);
-  ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
-                               size * size_of<T>()))
-      T(std::forward<Args>(args)...);
+  auto end = [&] {
+    return reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>());
+  };
+  if (size < this->capacity()) {
+    ::new (end()) T(std::forward<Args>(args)...);
+  } else {
+    // The arguments may refer to an element of this vector, so construct the
+    // new element before the reallocation.
+    T value(std::forward<Args>(args)...);
+    this->reserve_total(size + 1);
+    ::new (end()) T(std::move(value));
+  }
   this->set_len(size + 1);
 }
 
-- 
2.43.0


From e2457f278aa8d2c20fc21a9ec7f73ff3f9884d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 03/15] fix: do not destroy a let_cxx_string! that was never
 initialized

---
 src/cxx_string.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cxx_string.rs b/src/cxx_string.rs
index c58d8d8..d4ca8d3 100644
--- a/src/cxx_string.rs
+++ b/src/cxx_string.rs
@@ -299,6 +299,9 @@ pub struct StackString {
     // Static assertions in cxx.cc validate that this is large enough and
     // aligned enough.
     space: MaybeUninit<[usize; 8]>,
+    // The expression passed to let_cxx_string! might panic or return instead of
+    // producing a value, in which case there is no C++ string to destroy.
+    initialized: bool,
 }
 
 #[allow(missing_docs)]
@@ -306,6 +309,7 @@ impl StackString {
     pub fn new() -> Self {
         StackString {
             space: MaybeUninit::uninit(),
+            initialized: false,
         }
     }
 
@@ -314,6 +318,7 @@ impl StackString {
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_init(this, value.as_ptr(), value.len());
+            self.initialized = true;
             Pin::new_unchecked(&mut *this.as_mut_ptr())
         }
     }
@@ -321,9 +326,11 @@ impl StackString {
 
 impl Drop for StackString {
     fn drop(&mut self) {
-        unsafe {
-            let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
-            string_destroy(this);
+        if self.initialized {
+            unsafe {
+                let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
+                string_destroy(this);
+            }
         }
     }
 }
-- 
2.43.0


From 4fe3aa1511b19fa65e1d50d0ea5fe12d1ba9017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 04/15] fix: order rust::Str by unsigned bytes, as Rust does

---
 src/cxx.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..f811752 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -356,9 +356,15 @@ bool Str::operator==(const Str &rhs) const noexcept {
 
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
+// Rust strings are ordered by the value of their bytes, which char does not
+// preserve on platforms where it is signed.
+static bool byteLess(char lhs, char rhs) noexcept {
+  return static_cast<unsigned char>(lhs) < static_cast<unsigned char>(rhs);
+}
+
 bool Str::operator<(const Str &rhs) const noexcept {
   return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+                                      rhs.end(), byteLess);
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +380,7 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return byteLess(*liter, *riter);
   }
 }
 
-- 
2.43.0


From 3401ba22bf23ab9ecdfdab10cc58a0e52add7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:42 +0000
Subject: [PATCH 05/15] fix: forward read_vectored through UniquePtr

UniquePtr<T> forwards every other overridable method of io::Read, io::Seek
and io::Write to Pin<&mut T>, but not read_vectored, so a vectored read
through a UniquePtr used the default implementation (a single read into the
first non-empty buffer) instead of the one of the stream.
---
 src/unique_ptr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/unique_ptr.rs b/src/unique_ptr.rs
index 7230535..08a8b0f 100644
--- a/src/unique_ptr.rs
+++ b/src/unique_ptr.rs
@@ -16,7 +16,7 @@ use core::mem::{self, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::pin::Pin;
 #[cfg(feature = "std")]
-use std::io::{self, IoSlice, Read, Seek, SeekFrom, Write};
+use std::io::{self, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
 
 /// Binding to C++ `std::unique_ptr<T, std::default_delete<T>>`.
 #[repr(C)]
@@ -262,6 +262,11 @@ where
         self.pin_mut().read(buf)
     }
 
+    #[inline]
+    fn read_vectored(&mut self, bufs: &mut [IoSliceMut]) -> io::Result<usize> {
+        self.pin_mut().read_vectored(bufs)
+    }
+
     #[inline]
     fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
         self.pin_mut().read_to_end(buf)
-- 
2.43.0


From 9e50e90ab66a62859510a8451c78740ac3c888e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 06/15] fix: do not follow a stale crate symlink when
 include_prefix gets longer

An earlier run of the build script with include_prefix "a" leaves a symlink
crate/a -> manifest dir. A run with include_prefix "a/b" then removed
crate/a/b through that symlink, which is the user's own directory b.
---
 gen/build/src/lib.rs |  3 +++
 gen/build/src/out.rs | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index ec0e514..82d12f5 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -365,6 +365,9 @@ fn make_crate_dir(prj: &Project) -> PathBuf {
     let crate_dir = prj.out_dir.join("cxxbridge").join("crate");
     let ref link = crate_dir.join(&prj.include_prefix);
     let ref manifest_dir = prj.manifest_dir;
+    if !out::remove_intermediate_symlinks(&crate_dir, link) {
+        return crate_dir;
+    }
     if out::relative_symlink_dir(manifest_dir, link).is_err() && cfg!(not(unix)) {
         let cachedir_tag = "\
         Signature: 8a477f597d28d172789f06886806bc55\n\
diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index 757105c..733ada9 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -118,6 +118,42 @@ fn symlink_dir(
     }
 }
 
+// Remove any symlink which stands in place of one of the directories between
+// `base` and `path`. An earlier run of the same build script with a shorter
+// include_prefix leaves such a symlink behind, pointing to the manifest dir.
+// Manipulating `path` through it would hit the user's source files.
+//
+// Returns whether `path` is now known not to pass through a symlink.
+pub(crate) fn remove_intermediate_symlinks(base: &Path, path: &Path) -> bool {
+    use std::fs;
+
+    let Some(parent) = path.strip_prefix(base).ok().and_then(Path::parent) else {
+        return true;
+    };
+
+    let mut dir = base.to_path_buf();
+    for component in parent.components() {
+        dir.push(component);
+        match fs::symlink_metadata(&dir) {
+            Ok(metadata) if metadata.file_type().is_symlink() => {
+                best_effort_remove(&dir);
+                return !exists_or_unknown(&dir);
+            }
+            Ok(_) => {}
+            Err(err) => return err.kind() == io::ErrorKind::NotFound,
+        }
+    }
+
+    true
+}
+
+fn exists_or_unknown(path: &Path) -> bool {
+    match std::fs::symlink_metadata(path) {
+        Ok(_) => true,
+        Err(err) => err.kind() != io::ErrorKind::NotFound,
+    }
+}
+
 fn best_effort_remove(path: &Path) {
     use std::fs;
 
-- 
2.43.0


From 96c387251e6a358ade701fb6e0393d5371a00918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 07/15] fix: report failure to write cxxbridge output to stdout

---
 gen/cmd/src/main.rs |  2 +-
 gen/src/fs.rs       | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/main.rs b/gen/cmd/src/main.rs
index 48cd944..78f66e0 100644
--- a/gen/cmd/src/main.rs
+++ b/gen/cmd/src/main.rs
@@ -109,7 +109,7 @@ fn try_main() -> Result<()> {
             Kind::Header => include::HEADER.as_bytes(),
         };
         match output {
-            Output::Stdout => drop(io::stdout().write_all(content)),
+            Output::Stdout => fs::write_stdout(content)?,
             Output::File(path) => fs::write(path, content)?,
         }
     }
diff --git a/gen/src/fs.rs b/gen/src/fs.rs
index a96b551..1ef90fb 100644
--- a/gen/src/fs.rs
+++ b/gen/src/fs.rs
@@ -2,7 +2,7 @@
 
 use std::error::Error as StdError;
 use std::fmt::{self, Display};
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub(crate) type Result<T> = std::result::Result<T, Error>;
@@ -170,3 +170,11 @@ pub(crate) fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Resul
         Err(e) => err!(e, "Failed to write file `{}`", path),
     }
 }
+
+pub(crate) fn write_stdout(contents: &[u8]) -> Result<()> {
+    let mut stdout = io::stdout();
+    match stdout.write_all(contents).and_then(|()| stdout.flush()) {
+        Ok(()) => Ok(()),
+        Err(e) => err!(e, "Failed to write output to stdout"),
+    }
+}
-- 
2.43.0


From 97f0cc7b8ae5463c70e1395e24f656a1290ccbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 08/15] fix: match hyphenated feature names against Cargo's
 environment

---
 gen/build/src/cargo.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 0293c5f..e6a41a6 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -132,11 +132,22 @@ impl PartialEq for Lookup {
     }
 }
 
+// Cargo uppercases names and turns `-` into `_` when it makes an environment
+// variable from them.
 struct CaseAgnosticByte(u8);
 
+impl CaseAgnosticByte {
+    fn normalized(&self) -> u8 {
+        match self.0 {
+            b'-' => b'_',
+            byte => byte.to_ascii_lowercase(),
+        }
+    }
+}
+
 impl Ord for CaseAgnosticByte {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.to_ascii_lowercase().cmp(&rhs.0.to_ascii_lowercase())
+        self.normalized().cmp(&rhs.normalized())
     }
 }
 
-- 
2.43.0


From 2841575fb38b5851608745bd21aaf4b96b61110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 09/15] fix: honor cfg attribute on include! in a bridge

---
 syntax/parse.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 875e1d3..4913032 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -386,7 +386,17 @@ fn parse_foreign_mod(
             ForeignItem::Macro(foreign) if foreign.mac.path.is_ident("include") => {
                 match foreign.mac.parse_body_with(parse_include) {
                     Ok(mut include) => {
-                        include.cfg = cfg.clone();
+                        let mut include_cfg = cfg.clone();
+                        attrs::parse(
+                            cx,
+                            foreign.attrs,
+                            attrs::Parser {
+                                cfg: Some(&mut include_cfg),
+                                ignore_unrecognized: true,
+                                ..Default::default()
+                            },
+                        );
+                        include.cfg = include_cfg;
                         items.push(Api::Include(include));
                     }
                     Err(err) => cx.push(err),
-- 
2.43.0


From 73118fd6e5dda230e80a285d5aa67def029a8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:37 +0000
Subject: [PATCH 10/15] fix: put cxx-build outputs in place atomically

Without DEP_CXXBRIDGE1_HEADER, simultaneous build scripts share
target/cxxbridge/rust/cxx.h and each could see it missing or half written.
When removing a symlink left by an earlier run failed, the output was written
through it, into the cxx crate's own cxx.h.
---
 gen/build/src/out.rs |  9 +++++++--
 gen/src/fs.rs        | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index 733ada9..ae15afd 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -15,13 +15,18 @@ pub(crate) fn write(path: impl AsRef<Path>, content: &[u8]) -> Result<()> {
                 return Ok(());
             }
         }
-        best_effort_remove(path);
+        if path.is_dir() {
+            best_effort_remove(path);
+        }
     } else {
         let parent = path.parent().unwrap();
         create_dir_error = fs::create_dir_all(parent).err();
     }
 
-    match fs::write(path, content) {
+    // Some files are shared by simultaneous build scripts, so they must never
+    // be observed missing or half written. Replacing the whole directory entry
+    // also keeps us from writing through a symlink left by an earlier run.
+    match fs::replace(path, content) {
         // As long as write succeeded, ignore any create_dir_all error.
         Ok(()) => Ok(()),
         // If create_dir_all and write both failed, prefer the first error.
diff --git a/gen/src/fs.rs b/gen/src/fs.rs
index 1ef90fb..7936388 100644
--- a/gen/src/fs.rs
+++ b/gen/src/fs.rs
@@ -1,9 +1,12 @@
 #![allow(dead_code)]
 
 use std::error::Error as StdError;
+use std::ffi::OsString;
 use std::fmt::{self, Display};
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 pub(crate) type Result<T> = std::result::Result<T, Error>;
 
@@ -171,6 +174,27 @@ pub(crate) fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Resul
     }
 }
 
+// Like `write`, but puts the complete contents in place in a single step.
+pub(crate) fn replace(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Result<()> {
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+
+    let path = path.as_ref();
+    let unique = COUNT.fetch_add(1, Ordering::Relaxed);
+    let mut file_name = OsString::from(".");
+    file_name.push(path.file_name().unwrap_or_default());
+    file_name.push(format!(".{}.{}.tmp", process::id(), unique));
+    let temporary = path.with_file_name(file_name);
+    let result =
+        std::fs::write(&temporary, contents).and_then(|()| std::fs::rename(&temporary, path));
+    match result {
+        Ok(()) => Ok(()),
+        Err(e) => {
+            let _ = std::fs::remove_file(temporary);
+            err!(e, "Failed to write file `{}`", path)
+        }
+    }
+}
+
 pub(crate) fn write_stdout(contents: &[u8]) -> Result<()> {
     let mut stdout = io::stdout();
     match stdout.write_all(contents).and_then(|()| stdout.flush()) {
-- 
2.43.0


From b8a84830ad4cc4b27e91d27df0066433077b70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 11/15] fix: report a stale file in the way of a cxx-build
 symlink

---
 gen/build/src/out.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index ae15afd..c78f616 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -92,7 +92,7 @@ fn symlink_file(
         // As long as symlink_or_copy succeeded, ignore any create_dir_all error.
         Ok(()) => Ok(()),
         Err(err) => {
-            if err.kind() == io::ErrorKind::AlreadyExists {
+            if err.kind() == io::ErrorKind::AlreadyExists && !is_stale(link, path_for_symlink) {
                 // This is fine, a different simultaneous build script already
                 // created the same link or copy. The cxx_build target directory
                 // is laid out such that the same path never refers to two
@@ -110,6 +110,18 @@ fn symlink_file(
     }
 }
 
+// Whether something else than the intended symlink, left by an earlier build
+// script run, is in the way and could not be removed.
+fn is_stale(link: &Path, path_for_symlink: &Path) -> bool {
+    match std::fs::read_link(link) {
+        Ok(target) => target != path_for_symlink,
+        // A different simultaneous build script is about to replace it.
+        Err(err) if err.kind() == io::ErrorKind::NotFound => false,
+        // It might be a copy if this system has no symlinks.
+        Err(_) => cfg!(unix),
+    }
+}
+
 fn symlink_dir(
     path_for_symlink: &Path,
     link: &Path,
-- 
2.43.0


From 1ef618f3a73deba2cd641ec5fc2642b05366307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 12/15] fix: keep concurrent mutations of different CFG fields

A handle wrote back every field when dropped, including the ones it never
mutated, undoing what another thread assigned to them in the meantime.
---
 gen/build/src/cfg.rs | 45 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/gen/build/src/cfg.rs b/gen/build/src/cfg.rs
index 474c11d..243ab36 100644
--- a/gen/build/src/cfg.rs
+++ b/gen/build/src/cfg.rs
@@ -427,13 +427,17 @@ mod r#impl {
     // Since super::Cfg is !Send and !Sync, all Cfg are thread local and will
     // drop on the same thread where they were created.
     pub enum Cfg<'a> {
-        Mut(super::Cfg<'a>),
+        Mut {
+            cfg: super::Cfg<'a>,
+            // What it was before being mutated through this handle.
+            original: super::Cfg<'a>,
+        },
         CFG,
     }
 
     impl<'a> Debug for Cfg<'a> {
         fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-            if let Cfg::Mut(cfg) = self {
+            if let Cfg::Mut { cfg, .. } = self {
                 Debug::fmt(cfg, formatter)
             } else {
                 Debug::fmt(&Cfg::current(), formatter)
@@ -445,7 +449,7 @@ mod r#impl {
         type Target = super::Cfg<'a>;
 
         fn deref(&self) -> &Self::Target {
-            if let Cfg::Mut(cfg) = self {
+            if let Cfg::Mut { cfg, .. } = self {
                 cfg
             } else {
                 let cfg = CONST_DEREFS.with(|derefs| -> *mut super::Cfg {
@@ -463,10 +467,17 @@ mod r#impl {
         fn deref_mut(&mut self) -> &mut Self::Target {
             if let Cfg::CFG = self {
                 CONST_DEREFS.with(|derefs| derefs.borrow_mut().remove(&self.handle()));
-                *self = Cfg::Mut(Cfg::current());
+                let cfg = Cfg::current();
+                let original = super::Cfg {
+                    exported_header_dirs: cfg.exported_header_dirs.clone(),
+                    exported_header_prefixes: cfg.exported_header_prefixes.clone(),
+                    exported_header_links: cfg.exported_header_links.clone(),
+                    ..cfg
+                };
+                *self = Cfg::Mut { cfg, original };
             }
             match self {
-                Cfg::Mut(cfg) => cfg,
+                Cfg::Mut { cfg, .. } => cfg,
                 Cfg::CFG => unreachable!(),
             }
         }
@@ -474,7 +485,7 @@ mod r#impl {
 
     impl<'a> Drop for Cfg<'a> {
         fn drop(&mut self) {
-            if let Cfg::Mut(cfg) = self {
+            if let Cfg::Mut { cfg, original } = self {
                 let super::Cfg {
                     include_prefix,
                     exported_header_dirs,
@@ -483,12 +494,24 @@ mod r#impl {
                     doxygen,
                     marker: _,
                 } = cfg;
+                // Leave alone whatever was not mutated through this handle. A
+                // different thread might have changed it in the meantime.
                 let mut current = current().write().unwrap_or_else(PoisonError::into_inner);
-                current.include_prefix = intern(include_prefix);
-                current.exported_header_dirs = vec::intern(exported_header_dirs);
-                current.exported_header_prefixes = vec::intern(exported_header_prefixes);
-                current.exported_header_links = vec::intern(exported_header_links);
-                current.doxygen = *doxygen;
+                if *include_prefix != original.include_prefix {
+                    current.include_prefix = intern(include_prefix);
+                }
+                if *exported_header_dirs != original.exported_header_dirs {
+                    current.exported_header_dirs = vec::intern(exported_header_dirs);
+                }
+                if *exported_header_prefixes != original.exported_header_prefixes {
+                    current.exported_header_prefixes = vec::intern(exported_header_prefixes);
+                }
+                if *exported_header_links != original.exported_header_links {
+                    current.exported_header_links = vec::intern(exported_header_links);
+                }
+                if *doxygen != original.doxygen {
+                    current.doxygen = *doxygen;
+                }
             } else {
                 CONST_DEREFS.with(|derefs| derefs.borrow_mut().remove(&self.handle()));
             }
-- 
2.43.0


From a32c4f641f7bc21b53ab465fa9b698c75b44c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:26 +0000
Subject: [PATCH 13/15] fix: report a reserved identifier where it is written

A name containing `__` or starting with `cxxbridge` was reported at the
start of the file by the code generator, as a string has no place of its own.
---
 syntax/ident.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/syntax/ident.rs b/syntax/ident.rs
index bb2281e..5edace5 100644
--- a/syntax/ident.rs
+++ b/syntax/ident.rs
@@ -1,24 +1,25 @@
 use crate::syntax::check::Check;
 use crate::syntax::{error, Api, Pair};
+use proc_macro2::Ident;
 
 fn check(cx: &mut Check, name: &Pair) {
     for segment in &name.namespace {
-        check_cxx_ident(cx, &segment.to_string());
+        check_cxx_ident(cx, segment, &segment.to_string());
     }
-    check_cxx_ident(cx, &name.cxx.to_string());
-    check_rust_ident(cx, &name.rust.to_string());
+    check_cxx_ident(cx, &name.rust, &name.cxx.to_string());
+    check_rust_ident(cx, &name.rust);
 
-    fn check_cxx_ident(cx: &mut Check, ident: &str) {
+    fn check_cxx_ident(cx: &mut Check, sp: &Ident, ident: &str) {
         if ident.starts_with("cxxbridge") {
-            cx.error(ident, error::CXXBRIDGE_RESERVED.msg);
+            cx.error(sp, error::CXXBRIDGE_RESERVED.msg);
         }
         if ident.contains("__") {
-            cx.error(ident, error::DOUBLE_UNDERSCORE.msg);
+            cx.error(sp, error::DOUBLE_UNDERSCORE.msg);
         }
     }
 
-    fn check_rust_ident(cx: &mut Check, ident: &str) {
-        if ident.starts_with("cxxbridge") {
+    fn check_rust_ident(cx: &mut Check, ident: &Ident) {
+        if ident.to_string().starts_with("cxxbridge") {
             cx.error(ident, error::CXXBRIDGE_RESERVED.msg);
         }
     }
-- 
2.43.0


From cf34817dd5bc66711957b3d9cc8e1a8319fed5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:26 +0000
Subject: [PATCH 14/15] fix: report a lexical error in a quoted name where the
 name is written

Parsing the text of a string literal gives errors located by the offset in
that text, which the code generator took for an offset in the source file.
---
 syntax/attrs.rs     | 3 ++-
 syntax/qualified.rs | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/syntax/attrs.rs b/syntax/attrs.rs
index 894b82b..9886d4f 100644
--- a/syntax/attrs.rs
+++ b/syntax/attrs.rs
@@ -268,7 +268,8 @@ fn parse_rust_name_attribute(meta: &Meta) -> Result<Ident> {
         match &meta.value {
             Expr::Lit(expr) => {
                 if let Lit::Str(lit) = &expr.lit {
-                    return lit.parse();
+                    // A lexical error is located within the string, not the source file.
+                    return lit.parse().map_err(|err| Error::new(lit.span(), err));
                 }
             }
             Expr::Path(expr) => {
diff --git a/syntax/qualified.rs b/syntax/qualified.rs
index 07c9908..f2c4b92 100644
--- a/syntax/qualified.rs
+++ b/syntax/qualified.rs
@@ -16,6 +16,8 @@ impl QualifiedName {
                 let allow_raw = false;
                 parse_unquoted(input, allow_raw)
             })
+            // A lexical error is located within the string, not the source file.
+            .map_err(|err| Error::new(lit.span(), err))
         }
     }
 
-- 
2.43.0


From 0a8386561c76e48d5f7f2ccce6969a40a38ff742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:08 +0000
Subject: [PATCH 15/15] fix: report a where-clause without predicates where it
 is written

---
 syntax/parse.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 4913032..8e8a33f 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -19,7 +19,7 @@ use syn::{
     GenericArgument, GenericParam, Generics, Ident, ItemEnum, ItemImpl, ItemStruct, Lit, LitStr,
     Pat, PathArguments, Result, ReturnType, Signature as RustSignature, Token, TraitBound,
     TraitBoundModifier, Type as RustType, TypeArray, TypeBareFn, TypeParamBound, TypePath, TypePtr,
-    TypeReference, Variant as RustVariant, Visibility,
+    TypeReference, Variant as RustVariant, Visibility, WhereClause,
 };
 
 pub(crate) mod kw {
@@ -119,7 +119,7 @@ fn parse_struct(cx: &mut Errors, mut item: ItemStruct, namespace: &Namespace) ->
 
     if let Some(where_clause) = &item.generics.where_clause {
         cx.error(
-            where_clause,
+            span_for_where_clause(where_clause),
             "struct with where-clause is not supported yet",
         );
     }
@@ -220,7 +220,10 @@ fn parse_enum(cx: &mut Errors, item: ItemEnum, namespace: &Namespace) -> Api {
         let span = quote!(#vis #enum_token #ident #generics);
         cx.error(span, "enum with generic parameters is not supported");
     } else if let Some(where_clause) = &item.generics.where_clause {
-        cx.error(where_clause, "enum with where-clause is not supported");
+        cx.error(
+            span_for_where_clause(where_clause),
+            "enum with where-clause is not supported",
+        );
     }
 
     let mut variants = Vec::new();
@@ -1021,9 +1024,9 @@ fn parse_impl(cx: &mut Errors, imp: ItemImpl) -> Result<Api> {
         ));
     }
 
-    if let Some(where_clause) = imp.generics.where_clause {
+    if let Some(where_clause) = &imp.generics.where_clause {
         return Err(Error::new_spanned(
-            where_clause,
+            span_for_where_clause(where_clause),
             "where-clause on an impl is not supported yet",
         ));
     }
@@ -1102,6 +1105,13 @@ fn parse_impl(cx: &mut Errors, imp: ItemImpl) -> Result<Api> {
     }))
 }
 
+// Syn does not print a where-clause that has no predicates.
+fn span_for_where_clause(where_clause: &WhereClause) -> TokenStream {
+    let where_token = where_clause.where_token;
+    let predicates = &where_clause.predicates;
+    quote!(#where_token #predicates)
+}
+
 fn parse_include(input: ParseStream) -> Result<Include> {
     if input.peek(LitStr) {
         let lit: LitStr = input.parse()?;
-- 
2.43.0

