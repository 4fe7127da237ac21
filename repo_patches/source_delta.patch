From 70ea5a7a5089e6799ad9f111b76072e7b9c065d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 01/24] fix: read the ninth byte of an unaligned wide field
 relative to the field

read_bytes! added the byte offset twice when a field spans nine bytes, so
such a field read its top bits from somewhere else unless it started in
the first byte.
---
 src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
-- 
2.43.0


From 7d8b85975526b0304390b3ee812266236016450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 02/24] fix: write the ninth byte of an unaligned wide field
 relative to the field

write_bytes! addressed the byte from the start of the buffer, so such a
field lost its top bits and overwrote another field unless it started in
the first byte.
---
 src/bytewriter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..f73b2b1 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,8 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination =
+                &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From 009eb123e01c0bd5cb1391d7f3f51a91b36a386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 03/24] fix: never write bits of a value outside its field

write_bytes! masked only signed values; an unsigned value too large for
its width overwrote the following bits.
---
 src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index f73b2b1..4697c93 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -29,9 +29,7 @@ macro_rules! write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From ee49b0f67c053e57fcce5f9f0e74487b321dd103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 04/24] fix: check the bounds of an ArrayView in elements

at() and slice() multiplied the index by the element size before checking
it, which wraps around in builds without overflow checks and yields an
element or a view for an index far out of bounds.
---
 src/arrayview.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..53ef7ce 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -89,8 +89,8 @@ where
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
+        assert!(index < self.len(), "index out of bounds");
         let index = self.data_index(index);
-        assert!(index + <T as Struct>::SIZE_IN_BYTES <= self.data.len());
         T::create(&self.data[index..])
     }
 
@@ -100,15 +100,21 @@ where
     ///
     /// Panics if the range is outside of bounds of array view.
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
-        let data_start = match range.start_bound() {
-            Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+        let start = match range.start_bound() {
+            Bound::Included(&idx) => idx,
+            Bound::Excluded(&idx) => idx.checked_add(1).expect("range start overflows"),
             Bound::Unbounded => 0,
         };
+        let end = match range.end_bound() {
+            Bound::Included(&idx) => idx.checked_add(1).expect("range end overflows"),
+            Bound::Excluded(&idx) => idx,
+            Bound::Unbounded => self.len(),
+        };
+        assert!(start <= end && end <= self.len(), "range out of bounds");
+        let data_start = self.data_index(start);
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
-            Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
+            _ => self.data_index(end),
         };
         Self::new(&self.data[data_start..data_end])
     }
-- 
2.43.0


From 31decf4b411b7f2904a2766a2ca2859a7cfde7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 05/24] fix: give the exact-size iterators an exact size hint

ArrayViewIter and MultiArrayViewIter implement ExactSizeIterator but kept
the default size hint, so that adaptors relying on it (skip().rev(),
zip().len(), peekable().len(), ...) panicked.
---
 src/arrayview.rs      | 5 +++++
 src/multiarrayview.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 53ef7ce..a171850 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -232,6 +232,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..a536e13 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -240,6 +240,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From 09a3ece266cd3f45ef68ea1f0020e57122e7f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 06/24] fix: check the bounds of MultiArrayView slices

A slice whose end lies past the last item used to include the sentinel or
to be rejected only by chance, and a reversed range was accepted.
---
 src/multiarrayview.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index a536e13..b28e4a4 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -74,18 +74,19 @@ where
     ///
     /// Panics if the range is outside of bounds of array view.
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
-        let index_start = match range.start_bound() {
+        let start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => idx.checked_add(1).expect("range start overflows"),
             Bound::Unbounded => 0,
         };
-        // include one more element (sentinel)
-        let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
-            Bound::Unbounded => self.index.len(),
+        let end = match range.end_bound() {
+            Bound::Included(&idx) => idx.checked_add(1).expect("range end overflows"),
+            Bound::Excluded(&idx) => idx,
+            Bound::Unbounded => self.len(),
         };
-        Self::new(self.index.slice(index_start..index_end), self.data)
+        assert!(start <= end && end <= self.len(), "range out of bounds");
+        // include one more element (sentinel)
+        Self::new(self.index.slice(start..=end), self.data)
     }
 
     /// Returns an iterator through the indexed items of the array.
-- 
2.43.0


From 4984f32e07528fee414dac65fd24c8f7f8fe406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 07/24] fix: check the bounds in Vector::at and Vector::at_mut

An element access at or past the length handed out the padding behind the
last element, and bytes past the buffer for wider structs.
---
 src/vector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 3300250..2df535e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -143,6 +143,7 @@ where
     /// vector.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len(), "index out of bounds");
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
@@ -150,6 +151,7 @@ where
     /// vector.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len(), "index out of bounds");
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From d39ae1f6803cca1717e3114829f9febf7c8391b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 08/24] fix: let a memory storage and its sub-directories share
 their data

Every call of subdir returned a new empty storage, so that sub-archives
written to memory could not be read back, nor protected from overwriting.
---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..a25fb9b 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,8 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    // Shared with the storages of the sub-directories.
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +46,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::new(MemoryStorage::default()),
             path: path.into(),
         })
     }
@@ -55,7 +56,10 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From 80e7b914bb0b072f2c90b436c923ae39d2703ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 09/24] fix: start every output stream of a memory storage
 empty

Writing a resource again appended to or overwrote parts of the old one
instead of replacing it, as it does in a file storage.
---
 src/memstorage.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a25fb9b..2566171 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -100,13 +100,11 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        let stream = Rc::new(RefCell::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From 3a7f6a4aa8a70375143ceb3783b35f30f6aa27ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 10/24] fix: read what is stored now, not what was there at the
 first attempt

Storages kept the first contents they read of a resource for good: a
resource that was read while it was being written, or written again later,
stayed unreadable or outdated in the same storage.
---
 src/filestorage.rs | 17 ++++++++++++++---
 src/memstorage.rs  | 30 ++++++++++++++++++------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..d50cdb1 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -14,14 +14,25 @@ use std::slice;
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: RefCell<BTreeMap<String, Mmap>>,
+    // Mappings of files that changed in size since they were mapped. They are kept since they may
+    // still be referenced.
+    outdated: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.borrow().contains_key(path) {
-            let file = File::open(path)?;
+        let file = File::open(path)?;
+        let size = file.metadata()?.len();
+        let is_current = self
+            .maps
+            .borrow()
+            .get(path)
+            .map_or(false, |file_mmap| file_mmap.len() as u64 == size);
+        if !is_current {
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.borrow_mut().insert(path.into(), file_mmap);
+            if let Some(file_mmap) = self.maps.borrow_mut().insert(path.into(), file_mmap) {
+                self.outdated.borrow_mut().push(file_mmap);
+            }
         }
         let data = &self.maps.borrow()[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
diff --git a/src/memstorage.rs b/src/memstorage.rs
index 2566171..b85de37 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -17,6 +17,9 @@ struct MemoryStorage {
     streams: RefCell<BTreeMap<PathBuf, MemoryStorageStream>>,
     // Data of resources that were opened for reading.
     resources: RefCell<BTreeMap<PathBuf, Rc<Vec<u8>>>>,
+    // Data of resources that were written to after they had been opened. It is kept since it may
+    // still be referenced.
+    outdated: RefCell<Vec<Rc<Vec<u8>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -70,25 +73,28 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.storage.resources.borrow().contains_key(&resource_path) {
+        {
             let streams = self.storage.streams.borrow();
-            let stream = streams.get(&resource_path);
-            match stream {
-                Some(stream) => {
-                    // Resource is not yet opened, but there is a stream it was written to
-                    // => copy the stream as resource data.
-                    let data = Rc::new(stream.borrow().get_ref().clone());
-                    self.storage
-                        .resources
-                        .borrow_mut()
-                        .insert(resource_path.clone(), data);
-                }
+            let stream = match streams.get(&resource_path) {
+                Some(stream) => stream.borrow(),
                 None => {
                     return Err(io::Error::new(
                         io::ErrorKind::NotFound,
                         String::from(resource_path.to_str().unwrap_or(resource_name)),
                     ));
                 }
+            };
+            let mut resources = self.storage.resources.borrow_mut();
+            let is_current = resources
+                .get(&resource_path)
+                .map_or(false, |data| **data == *stream.get_ref());
+            if !is_current {
+                // Resource is not yet opened or was written to since then
+                // => copy the stream as resource data.
+                let data = Rc::new(stream.get_ref().clone());
+                if let Some(data) = resources.insert(resource_path.clone(), data) {
+                    self.storage.outdated.borrow_mut().push(data);
+                }
             }
         }
         let data = &self.storage.resources.borrow()[&resource_path];
-- 
2.43.0


From 783583cba12423d7a746a45b006b10fd73686f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 11/24] fix: read empty files of a file storage

An empty schema could be written but never be read back.
---
 src/filestorage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index d50cdb1..f11b1f2 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -23,6 +23,10 @@ impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         let file = File::open(path)?;
         let size = file.metadata()?.len();
+        if size == 0 {
+            // an empty file cannot be mapped
+            return Ok(&[]);
+        }
         let is_current = self
             .maps
             .borrow()
-- 
2.43.0


From a0bd70cf141d789fdaf2ebd888fee623999dfd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 12/24] fix: create the directory of a slash-separated resource
 name

A resource named 'a/b' could only be written to a file storage if its
sub-directory happened to exist.
---
 src/filestorage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index f11b1f2..346f5e6 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -94,10 +94,10 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        if let Some(directory) = resource_path.parent() {
+            fs::create_dir_all(directory)?;
+        }
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From e5d888988cf8da3a77bd2c3a75c8260f09390d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 13/24] fix: do not take a directory for a resource

A sub-directory was reported as an existing resource, and reading it failed
with an unspecific mapping error instead of NotFound.
---
 src/filestorage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 346f5e6..31bd4d7 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -72,12 +72,12 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        self.path.join(resource_name).is_file()
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !resource_path.exists() {
+        if !resource_path.is_file() {
             return Err(io::Error::new(
                 io::ErrorKind::NotFound,
                 String::from(resource_path.to_str().unwrap_or(resource_name)),
-- 
2.43.0


From 6aa407f2eab77747808139843836a57f2dc122ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 14/24] fix: compare the size of a resource without overflow

A corrupt size header close to the maximum overflowed in the comparison,
which is a panic in debug builds and a truncation on 32 bit targets.
---
 src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..24e36cd 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -107,8 +107,8 @@ pub trait ResourceStorage {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-        let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        let size = data.len() - mem::size_of::<SizeType>() - PADDING_SIZE;
+        if read_bytes!(SizeType, data.as_ptr()) != size as SizeType {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From 297cdd7e53d699d4f0203aa89f135f0b656f5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 15/24] fix: show differences in line endings in the schema
 diff

Schemas that differ only in carriage returns were rejected with a diff that
showed no difference at all.
---
 src/storage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index 24e36cd..12120b1 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -371,7 +371,10 @@ impl<'a> fmt::Debug for ResourceHandle<'a> {
 }
 
 fn compute_diff(left: &str, right: &str) -> String {
-    diff::lines(left, right)
+    // Unlike `diff::lines` keep carriage returns, otherwise texts only differing in them look the same.
+    let left: Vec<&str> = left.split('\n').collect();
+    let right: Vec<&str> = right.split('\n').collect();
+    diff::slice(&left, &right)
         .into_iter()
         .map(|l| match l {
             diff::Result::Left(l) => format!("-{}", l),
-- 
2.43.0


From f3a2605b338431e19432a26092af6309cff923cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 16/24] fix: never take an unfinished resource for a complete
 one

---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 12120b1..85781a7 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,11 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then it is a size which no resource has, such that an unfinished
+        // resource is never taken for a complete one.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(SizeType::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From 337ba939535c62eedc207e56e74b422dfde47553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 17/24] fix: report write failures instead of panicking when
 the writer is dropped

---
 src/multivector.rs | 33 ++++++++++++++++++++++++++-------
 src/storage.rs     | 43 ++++++++++++++++++++++++++++---------------
 src/vector.rs      |  5 +++++
 3 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..7a0afba 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -163,10 +163,13 @@ where
     ///
     /// [`flush`]: #method.flush
     pub fn grow(&mut self) -> io::Result<<Ts as VariadicStruct>::ItemMut> {
-        if self.data.len() > 1024 * 1024 * 32 {
-            self.flush()?;
-        }
-        self.add_to_index()?;
+        let flushed = if self.data.len() > 1024 * 1024 * 32 {
+            self.flush()
+        } else {
+            Ok(())
+        };
+        let added = flushed.and_then(|()| self.add_to_index());
+        self.abandon_on_error(added)?;
         Ok(<Ts as VariadicStruct>::create_mut(&mut self.data))
     }
 
@@ -192,6 +195,15 @@ where
         Ok(())
     }
 
+    /// Gives up writing after a failure: both index and data stay unfinished.
+    fn abandon_on_error(&mut self, result: io::Result<()>) -> io::Result<()> {
+        if result.is_err() {
+            self.index.abandon();
+            self.data_handle.abandon();
+        }
+        result
+    }
+
     /// Flushes the remaining not yet flushed elements in this multivector and
     /// finalizes the data inside the storage.
     ///
@@ -199,9 +211,16 @@ where
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // sentinel for last item
+        let flushed = self.add_to_index().and_then(|()| self.flush());
+        self.abandon_on_error(flushed).map_err(into_storage_error)?;
+        let index_view = match self.index.close() {
+            Ok(index_view) => index_view,
+            Err(e) => {
+                self.data_handle.abandon();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 85781a7..d0201f1 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -172,18 +172,25 @@ where
     // create index
     let index_name = format!("{}_index", resource_name);
     let index_schema = format!("index({})", schema);
-    let index = create_external_vector(storage, &index_name, &index_schema)?;
+    let mut index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    let create_handle = || {
+        // write schema
+        let schema_name = format!("{}.schema", resource_name);
+        let stream = storage.create_output_stream(&schema_name)?;
+        stream.borrow_mut().write_all(schema.as_bytes())?;
+
+        // create multi vector
+        let data_writer = storage.create_output_stream(resource_name)?;
+        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
+    };
+    match create_handle() {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            index.abandon();
+            Err(e)
+        }
+    }
 }
 
 /// Creates a new archive in resource storage.
@@ -311,8 +318,10 @@ impl<'a> ResourceHandle<'a> {
             .ok_or_else(|| io::Error::new(io::ErrorKind::UnexpectedEof, "stream closed"))?;
 
         let res = stream.borrow_mut().write_all(data);
-        if res.is_ok() {
-            self.size_in_bytes += data.len();
+        match res {
+            Ok(()) => self.size_in_bytes += data.len(),
+            // It is unknown what was written => the resource cannot be finished anymore.
+            Err(_) => self.abandon(),
         }
         res
     }
@@ -324,7 +333,7 @@ impl<'a> ResourceHandle<'a> {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -341,11 +350,15 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
 
+    /// Gives up writing after a failure: the resource stays unfinished.
+    pub(crate) fn abandon(&mut self) {
+        self.stream = None;
+    }
+
     pub fn name(&self) -> &str {
         &self.name
     }
diff --git a/src/vector.rs b/src/vector.rs
index 2df535e..6f0a9b1 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -325,6 +325,11 @@ where
         Ok(())
     }
 
+    /// Gives up writing after a failure: the resource stays unfinished.
+    pub(crate) fn abandon(&mut self) {
+        self.resource_handle.abandon();
+    }
+
     /// Returns `true` if this vector was not closed yet and more elements can
     /// be added to it.
     pub fn is_open(&self) -> bool {
-- 
2.43.0


From edea068bf6d9e32365804bf7d31c18dcd4764187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 18/24] fix: a multivector without a sentinel has no items

---
 src/multiarrayview.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index b28e4a4..9145645 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -44,8 +44,8 @@ where
     /// Note that this is not the *total* number of overall elements stored in
     /// the array. An item may be also empty.
     pub fn len(&self) -> usize {
-        // last index element is a sentinel
-        self.index.len() - 1
+        // last index element is a sentinel; without it there are no items
+        self.index.len().saturating_sub(1)
     }
 
     /// Returns `true` if no item is stored in the array.
@@ -85,8 +85,9 @@ where
             Bound::Unbounded => self.len(),
         };
         assert!(start <= end && end <= self.len(), "range out of bounds");
-        // include one more element (sentinel)
-        Self::new(self.index.slice(start..=end), self.data)
+        // include one more element (sentinel), unless there is none
+        let end = (end + 1).min(self.index.len());
+        Self::new(self.index.slice(start..end), self.data)
     }
 
     /// Returns an iterator through the indexed items of the array.
-- 
2.43.0


From 6cd65f3d5f912848d5bb944d1eaea38cd54eaca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 19/24] fix: reject a struct resource too small for its struct

---
 src/archive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..5b2470b 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -602,7 +602,12 @@ macro_rules! define_archive {
                             &*storage,
                             stringify!($struct_resource),
                             $struct_schema
-                        ), $is_optional_struct);
+                        ).and_then(|x: $crate::MemoryDescriptor| {
+                            if unsafe { x.as_bytes() }.len() < <$struct_type as $crate::Struct>::SIZE_IN_BYTES {
+                                return Err($crate::ResourceStorageError::UnexpectedDataSize);
+                            }
+                            Ok(x)
+                        }), $is_optional_struct);
                     )*
 
                     $($vector_resource = check_resource!(
-- 
2.43.0


From 43af27be7477c8821e6d010c192636978749c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:17 +0000
Subject: [PATCH 20/24] fix: the short form of write_bytes! compiles

---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 4697c93..547ed98 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -77,7 +77,7 @@ macro_rules! write_bytes {
         write_bytes!($T; $value, $data, $offset, ::std::mem::size_of::<$T>() * 8)
     };
     ($T:tt; $value:expr, $data:expr) => {
-        write_bytes!($T, $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
+        write_bytes!($T; $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
     };
 }
 
-- 
2.43.0


From 75add27456cba822becf8f9bfcaab4615bb37a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 21/24] fix: Vector::with_len must not wrap around

A length whose size in bytes overflows gave a shorter vector in release builds.
---
 src/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 6f0a9b1..65b8a11 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -159,7 +159,9 @@ where
     /// elements.
     #[inline]
     fn calc_size(len: usize) -> usize {
-        len * <T as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE
+        len.checked_mul(<T as Struct>::SIZE_IN_BYTES)
+            .and_then(|size| size.checked_add(memory::PADDING_SIZE))
+            .expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From 50765620d77793a86e41cfab1f194f12311c23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 22/24] fix: read a file put in the place of a mapped one

A file that was removed and written again, or replaced by another one of the
same size, was still read from the mapping of the old file.
---
 src/filestorage.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 31bd4d7..1f486d8 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -10,35 +10,54 @@ use std::path::PathBuf;
 use std::rc::Rc;
 use std::slice;
 
+/// Tells the file at a path from another one put in its place later.
+type FileId = (u64, u64);
+
+#[cfg(unix)]
+fn file_id(metadata: &fs::Metadata) -> FileId {
+    use std::os::unix::fs::MetadataExt;
+    (metadata.dev(), metadata.ino())
+}
+
+#[cfg(not(unix))]
+fn file_id(_: &fs::Metadata) -> FileId {
+    (0, 0)
+}
+
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, Mmap>>,
-    // Mappings of files that changed in size since they were mapped. They are kept since they may
-    // still be referenced.
+    maps: RefCell<BTreeMap<String, (FileId, Mmap)>>,
+    // Mappings of files that changed in size or were replaced since they were mapped. They are kept
+    // since they may still be referenced.
     outdated: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         let file = File::open(path)?;
-        let size = file.metadata()?.len();
+        let metadata = file.metadata()?;
+        let size = metadata.len();
         if size == 0 {
             // an empty file cannot be mapped
             return Ok(&[]);
         }
+        let id = file_id(&metadata);
         let is_current = self
             .maps
             .borrow()
             .get(path)
-            .map_or(false, |file_mmap| file_mmap.len() as u64 == size);
+            .map_or(false, |(mapped, file_mmap)| {
+                *mapped == id && file_mmap.len() as u64 == size
+            });
         if !is_current {
             let file_mmap = unsafe { Mmap::map(&file)? };
-            if let Some(file_mmap) = self.maps.borrow_mut().insert(path.into(), file_mmap) {
+            let replaced = self.maps.borrow_mut().insert(path.into(), (id, file_mmap));
+            if let Some((_, file_mmap)) = replaced {
                 self.outdated.borrow_mut().push(file_mmap);
             }
         }
-        let data = &self.maps.borrow()[path];
+        let data = &self.maps.borrow()[path].1;
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From e280740f7460d57efa49b2c87f40e380706d0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:52 +0000
Subject: [PATCH 23/24] fix: read from storages at paths that are not UTF-8

---
 src/filestorage.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 1f486d8..82b5379 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -27,14 +27,14 @@ fn file_id(_: &fs::Metadata) -> FileId {
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, (FileId, Mmap)>>,
+    maps: RefCell<BTreeMap<PathBuf, (FileId, Mmap)>>,
     // Mappings of files that changed in size or were replaced since they were mapped. They are kept
     // since they may still be referenced.
     outdated: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
-    pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
+    pub fn read(&self, path: &std::path::Path) -> Result<&[u8], io::Error> {
         let file = File::open(path)?;
         let metadata = file.metadata()?;
         let size = metadata.len();
@@ -103,13 +103,7 @@ impl ResourceStorage for FileResourceStorage {
             ));
         }
 
-        match resource_path.to_str() {
-            Some(p) => self.storage.read(p),
-            None => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                String::from(resource_path.to_str().unwrap_or(resource_name)),
-            )),
-        }
+        self.storage.read(&resource_path)
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-- 
2.43.0


From 864715069dbe5fd53dd2dede315da2d701a746e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:36 +0000
Subject: [PATCH 24/24] fix: names starting with ./ in a memory storage at an
 empty path

---
 src/memstorage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index b85de37..7bfe58e 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -50,7 +50,8 @@ impl MemoryResourceStorage {
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
             storage: Rc::new(MemoryStorage::default()),
-            path: path.into(),
+            // relative to something, such that also below an empty path `./a` is the same as `a`
+            path: PathBuf::from(".").join(path.into()),
         })
     }
 }
-- 
2.43.0

