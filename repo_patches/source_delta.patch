From fabf254d8ee3dd43a3ea983998b421d10e5e3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 01/23] fix: classify every md device role exactly once

The highest role that names a device was both a device number and not valid,
and roles above 0xffff, which only fit in a version 0 superblock, were valid
without being anything.
---
 src/md/superblock/role.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..411fc5c 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
@@ -40,7 +40,10 @@ impl MdDeviceRole {
     }
 
     pub fn is_invalid(&self) -> bool {
-        self.0 > Self::MAX_POSITION && self.0 < Self::JOURNAL
+        self.0 > Self::MAX_POSITION
+            && !self.is_spare()
+            && !self.is_faulty()
+            && !self.is_journal()
     }
 }
 
-- 
2.43.0


From 825975e9157c26556095e83d9e8b0521d28535cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 02/23] fix: convert the sizes of a version 0 superblock to
 sectors

The device size is stored in KiB and the chunk sizes in bytes.
---
 src/md/superblock/version_0/superblock.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..5d9ed30 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -126,11 +126,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // On disk this is a number of KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        // On disk this is a number of bytes.
+        SectorCount(u32::from(self.chunk_size) >> 9)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
@@ -138,7 +140,11 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        Some(ReshapeStatus {
+            // On disk this is a number of bytes.
+            new_chunk_size: SectorCount(u32::from(self.reshape_status.new_chunk_size) >> 9),
+            ..self.reshape_status.clone()
+        })
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From 45ebd055c1fa7002af1cb2df5a4c1085d5b633e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 03/23] fix: a version 0.90 superblock has no reshape status

Only 0.91 stores one; its words are unused otherwise, and were taken for the
format of the array.
---
 src/md/superblock/version_0/superblock.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index 5d9ed30..48f9fe8 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -140,11 +140,16 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(ReshapeStatus {
-            // On disk this is a number of bytes.
-            new_chunk_size: SectorCount(u32::from(self.reshape_status.new_chunk_size) >> 9),
-            ..self.reshape_status.clone()
-        })
+        // Only minor version 91 stores a reshape.
+        if self.minor_version >= 91 {
+            Some(ReshapeStatus {
+                // On disk this is a number of bytes.
+                new_chunk_size: SectorCount(u32::from(self.reshape_status.new_chunk_size) >> 9),
+                ..self.reshape_status.clone()
+            })
+        } else {
+            None
+        }
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From 80147184a282ece6e7538d30b24b76ce697d698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 04/23] fix: an array ends with the last whole chunk of its
 devices

---
 src/md/format.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/md/format.rs b/src/md/format.rs
index 1e1bb19..971f223 100644
--- a/src/md/format.rs
+++ b/src/md/format.rs
@@ -46,7 +46,11 @@ impl MdFormat {
     }
 
     pub fn data_sector_count(&self) -> Option<SectorCount<u64>> {
+        // Every device holds a whole number of chunks.
+        let sectors_per_chunk = u64::from(self.chunk_size);
         u64::from(self.sectors_per_device)
+            .checked_div(sectors_per_chunk)?
+            .checked_mul(sectors_per_chunk)?
             .checked_mul(u64::from(self.data_device_count()?))
             .map(SectorCount)
     }
-- 
2.43.0


From 9b5a0b651b8fccccffba744e215b3af2d666f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 05/23] fix: a superblock has the device count that follows a
 reshape

The change of the device count is already part of it, as in the kernel and in
mdadm: what has to be worked out is the count before the reshape. The change
is negative when the array shrinks.
---
 src/md/format.rs             | 32 ++++++++++++++++++--------------
 src/md/units/device_count.rs |  7 +++++--
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/md/format.rs b/src/md/format.rs
index 971f223..4cbb1fe 100644
--- a/src/md/format.rs
+++ b/src/md/format.rs
@@ -12,25 +12,29 @@ pub struct MdFormat {
 
 impl MdFormat {
     pub fn from_superblock(superblock: &MdDeviceSuperblock) -> Option<Self> {
-        superblock.as_option().map(|superblock| Self {
-            algorithm: superblock.algorithm(),
-            device_count: superblock.raid_device_count(),
-            sectors_per_device: superblock.sectors_per_device(),
-            chunk_size: superblock.chunk_size(),
+        superblock.as_option().and_then(|superblock| {
+            Some(Self {
+                algorithm: superblock.algorithm(),
+                // While the array is reshaped, the superblock has the new device count.
+                device_count: match superblock.reshape_status() {
+                    None => superblock.raid_device_count(),
+                    Some(status) => superblock
+                        .raid_device_count()
+                        .checked_sub_delta(status.delta_devices)?,
+                },
+                sectors_per_device: superblock.sectors_per_device(),
+                chunk_size: superblock.chunk_size(),
+            })
         })
     }
 
     pub fn from_superblock_reshape_status(superblock: &MdDeviceSuperblock) -> Option<Self> {
         superblock.as_option().and_then(|superblock| {
-            superblock.reshape_status().and_then(|status| {
-                Some(Self {
-                    algorithm: status.new_algorithm,
-                    device_count: superblock
-                        .raid_device_count()
-                        .checked_add(status.delta_devices)?,
-                    sectors_per_device: superblock.sectors_per_device(),
-                    chunk_size: status.new_chunk_size,
-                })
+            superblock.reshape_status().map(|status| Self {
+                algorithm: status.new_algorithm,
+                device_count: superblock.raid_device_count(),
+                sectors_per_device: superblock.sectors_per_device(),
+                chunk_size: status.new_chunk_size,
             })
         })
     }
diff --git a/src/md/units/device_count.rs b/src/md/units/device_count.rs
index d30a10c..871870d 100644
--- a/src/md/units/device_count.rs
+++ b/src/md/units/device_count.rs
@@ -9,8 +9,11 @@ use std::convert::Infallible;
 pub struct DeviceCount(pub u32);
 
 impl DeviceCount {
-    pub fn checked_add(self, rhs: Self) -> Option<Self> {
-        Some(Self(self.0.checked_add(rhs.0)?))
+    /// The count before it was changed by `delta`, which is signed on disk.
+    pub fn checked_sub_delta(self, delta: Self) -> Option<Self> {
+        u32::try_from(i64::from(self.0) - i64::from(delta.0 as i32))
+            .ok()
+            .map(Self)
     }
 }
 
-- 
2.43.0


From 0bd7ad4edeaf0a5752ba1127657609a7fb185a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 06/23] fix: merge device roles alike in whatever order devices
 are given

An invalid role replaced the real role that another superblock had for the
same device.
---
 src/md/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..9f9205e 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -39,10 +39,10 @@ where
                             .zip_longest(roles)
                             .map(|pair| match pair {
                                 EitherOrBoth::Both(left, right) => {
-                                    if left.is_spare() || right.is_invalid() || left.is_faulty() {
+                                    if left.is_spare() || left.is_invalid() || left.is_faulty() {
                                         Some(right)
                                     } else if right.is_spare()
-                                        || left.is_invalid()
+                                        || right.is_invalid()
                                         || right.is_faulty()
                                         || left == right
                                     {
-- 
2.43.0


From d8513ef78edc201ea2d849cf278e9cd75f510dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 07/23] fix: the data of a device starts at its data offset

---
 src/md/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index 9f9205e..d1d89c7 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -158,10 +158,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .ok_or(io::ErrorKind::InvalidInput)?
+                    .data_offset();
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
-                    u64::from(sector_number)
-                        .checked_mul(512)
+                    u64::from(data_offset)
+                        .checked_add(u64::from(sector_number))
+                        .and_then(|sector_number| sector_number.checked_mul(512))
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
                 reader.read_exact(&mut buf[..512])?;
-- 
2.43.0


From d4a6f5a058a9e04c1b93acf4e5e7feb174625d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 08/23] fix: read a block of an array into a buffer longer than
 a block

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index d1d89c7..25c1064 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -174,7 +174,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From 7d6a567d8788941584a29af282bff00012511327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 09/23] fix: read blocks of an in-memory device like those of a
 file

A buffer longer than a block is filled up to the length of a block, and
there is an error for a block beyond the end.
---
 src/block_device/in_memory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..0846ec8 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -41,8 +41,14 @@ impl BlockDevice for InMemoryBlockDevice {
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block_size = usize::from(self.block_size);
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|mem| mem.get(..block_size))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block_size].copy_from_slice(block);
+            Ok(block_size)
         }
     }
 
-- 
2.43.0


From 463982465938ceb1a221117522f2eda79e0d2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 10/23] fix: reject impossible ext4 block sizes

A corrupt block size overflowed, or asked for buffers of exabytes.
---
 src/ext4/superblock/superblock.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index c667dfb..a9b65cf 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -142,7 +142,8 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn valid_block_size(&self) -> bool {
-        self.view().into_log_block_size().read() < 53
+        // 64 KiB is the largest block size there is.
+        self.view().into_log_block_size().read() <= 6
     }
 
     pub fn valid_cluster_size(&self) -> bool {
@@ -212,11 +213,16 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn block_size_bytes(&self) -> u64 {
-        1u64.unbounded_shl(10 + self.view().into_log_block_size().read())
+        1u64.unbounded_shl(self.view().into_log_block_size().read().saturating_add(10))
     }
 
     pub fn cluster_size_blocks(&self) -> u64 {
-        1u64.unbounded_shl(10 + self.view().into_log_cluster_size().read())
+        1u64.unbounded_shl(
+            self.view()
+                .into_log_cluster_size()
+                .read()
+                .saturating_add(10),
+        )
     }
 
     pub fn blocks_per_group(&self) -> u32 {
-- 
2.43.0


From 8e68410174264990b235999fe6b596b63c6b5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 11/23] fix: reject a corrupt ext4 superblock instead of
 panicking

No blocks per group divided by zero, a huge block count asked for a table of
group descriptors of that size up front, and inodes smaller than an inode were
sliced beyond their end.
---
 src/ext4/fs.rs          | 8 +++++---
 src/ext4/inode/inode.rs | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..6884b82 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,12 +30,11 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
             || group_size == 0
+            || superblock.inode_size() < Inode::MIN_SIZE
             || superblock.inodes_per_group() == InodeCount(0)
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
@@ -46,11 +45,14 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
+            .or(Err(io::ErrorKind::Unsupported))?;
+
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..ef2e774 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -49,6 +49,9 @@ pub struct Inode {
 }
 
 impl Inode {
+    /// The size of an inode without extra fields, which is the smallest there is.
+    pub const MIN_SIZE: u16 = layout::extra_isize::OFFSET as u16;
+
     pub fn new(
         superblock: &Superblock<impl AsRef<[u8]>>,
         inode_number: InodeNumber,
-- 
2.43.0


From 943a16aaf33f1e4b8b9fc706f48fc37138b9ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 12/23] fix: read inodes with more extra fields than are known

The limit applied to the extra size alone instead of to the whole size, so that
an extra size above 32 bytes, or beyond the end of the inode, panicked.
---
 src/ext4/inode/inode.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index ef2e774..70f62ef 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -58,15 +58,15 @@ impl Inode {
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
-                + (if buffer.as_ref().len()
-                    > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
-                {
-                    usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
-                } else {
-                    0
-                })
-                .clamp(0, layout::SIZE.unwrap());
+            let extra_end = layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap();
+            let extra_size = if buffer.as_ref().len() >= extra_end {
+                usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
+            } else {
+                0
+            };
+            let source_length = (layout::extra_isize::OFFSET + extra_size)
+                .min(layout::SIZE.unwrap())
+                .min(buffer.as_ref().len());
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
-- 
2.43.0


From 7b8f3619fb630d2b6da463a8e03d5c9c2b11d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 13/23] fix: read a single ext4 block into a buffer longer than
 a block

---
 src/ext4/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 6884b82..5b30f6c 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -123,7 +123,8 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            let block_size = self.block_size();
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From 3252341b0f121f4048bff69de466b508df6b0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 14/23] fix: do not read descriptors of meta block groups from
 the wrong place

They are not in the table that follows the superblock.
---
 src/ext4/fs.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 5b30f6c..03d2d11 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -48,6 +48,16 @@ where
         let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
             .or(Err(io::ErrorKind::Unsupported))?;
 
+        // The descriptors of meta block groups are elsewhere.
+        if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::HAS_META_BLOCK_GROUPS)
+            && group_count.saturating_mul(group_size) as u64
+                > u64::from(superblock.first_meta_block_group()) * superblock.block_size_bytes()
+        {
+            return Err(io::ErrorKind::Unsupported.into());
+        }
+
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
-- 
2.43.0


From d8ec8730ce323da3dd6d1446ff325624503fbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 15/23] fix: an extent of 32768 blocks is initialized

Its length was taken for that of an uninitialized extent without blocks.
---
 src/ext4/extent/extent.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..1b4ed0c 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -9,6 +9,9 @@ binary_layout!(layout, LittleEndian, {
     first_fs_block_number_low: u32,
 });
 
+/// A greater length means an extent that is allocated but not initialized.
+const MAX_INITIALIZED_LENGTH: u16 = 0x8000;
+
 pub struct Extent<S: AsRef<[u8]>>(layout::View<S>);
 
 impl<S: AsRef<[u8]>> Extent<S> {
@@ -21,11 +24,16 @@ impl<S: AsRef<[u8]>> Extent<S> {
     }
 
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= MAX_INITIALIZED_LENGTH
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if length <= MAX_INITIALIZED_LENGTH {
+            length
+        } else {
+            length - MAX_INITIALIZED_LENGTH
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
-- 
2.43.0


From 8ab5b9026f77d4f29b202a4f42d7fda071b5b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 16/23] fix: the checksum of an extent block follows the space
 for its entries

It was looked for after the last entry in use, so that only full blocks could
be valid.
---
 src/ext4/extent/tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..3f6bafc 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -206,7 +206,12 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        // The tail follows the space for all the entries there may be.
+        let entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
-- 
2.43.0


From 8b0e5b725e44b3823f5cb5e90e8103ed68c050aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 17/23] fix: validate extent trees before reading through them

A corrupt tree was sliced beyond its end, could lead back to itself forever, or
had its checksum ignored.
---
 src/ext4/extent/tree.rs |  9 +++++++++
 src/ext4/file.rs        | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 3f6bafc..01eadac 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -47,6 +47,15 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    /// The number of levels below this one
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(ExtentBranch(internal)) | ExtentTree::Leaf(ExtentLeaf(internal)) => {
+                internal.depth()
+            }
+        }
+    }
+
     pub fn entry_count(&self) -> usize {
         match self {
             ExtentTree::Branch(branch) => branch.subtree_count(),
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..b503f05 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -60,6 +60,9 @@ where
         let tree = ExtentTree::from_inode(&inode)
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
+        if !tree.valid() {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
 
         Ok(Self {
             fs,
@@ -94,6 +97,7 @@ where
                 }
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
+                        let depth = tree.depth();
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
@@ -103,6 +107,12 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid()
+                                    || subtree.depth() != depth - 1
+                                    || subtree.entry_count() == 0
+                                {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
@@ -114,7 +124,9 @@ where
                             }
                             ExtentTree::Leaf(leaf) => {
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
-                                if extent.first_file_block_number() != self.block_pos {
+                                if extent.first_file_block_number() != self.block_pos
+                                    || extent.length() == BlockCount(0)
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 self.read_stack.push(ReadStackEntry::Tree {
-- 
2.43.0


From a4af4f5f87a1fce6d9de3a8b99972816f4c97698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 18/23] fix: read uninitialized extents as zeros

They were read as whatever the device had in their blocks.
---
 src/ext4/file.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index b503f05..f2cb2df 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -147,8 +147,13 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            let block_size = self.fs.block_size();
+                            buf[..block_size].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From 2ae074469bc295650bef43c737ca1d0c5ea145cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 19/23] fix: a file ends at its size even if more blocks are
 allocated

Preallocation leaves such blocks behind.
---
 src/ext4/file.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index f2cb2df..6c54f18 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -86,15 +86,14 @@ where
             return Err(io::ErrorKind::InvalidInput.into());
         }
 
+        // Blocks may be allocated beyond the end.
+        if self.byte_pos >= self.file_size_bytes() {
+            return Ok(0);
+        }
+
         loop {
             match self.read_stack.pop() {
-                None => {
-                    return if self.byte_pos == self.file_size_bytes() {
-                        Ok(0)
-                    } else {
-                        Err(io::ErrorKind::UnexpectedEof.into())
-                    }
-                }
+                None => return Err(io::ErrorKind::UnexpectedEof.into()),
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
                         let depth = tree.depth();
@@ -143,10 +142,6 @@ where
                 }
                 Some(ReadStackEntry::Extent { extent, pos }) => {
                     if pos < extent.length() {
-                        if self.byte_pos >= self.file_size_bytes() {
-                            return Err(io::ErrorKind::InvalidData.into());
-                        }
-
                         if extent.initialized() {
                             self.fs
                                 .read_block(extent.first_fs_block_number() + pos, buf)?;
-- 
2.43.0


From 089b0dcee05f5cc4d851bc80f4cdb6f81e6da8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 20/23] fix: a directory entry's name is as long as it says

What follows it in the record, for instance the remains of deleted entries, was
taken for part of a name that has no null byte after it.
---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From 1be392101c295bfaf04176ea8a13aa9c67b0c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 21/23] fix: order ext4 strings consistently with their
 equality

Strings that are not UTF-8 could be different and still compare as equal.
---
 src/ext4/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..d84527f 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,15 +73,13 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
 impl<S: AsRef<[u8]>> Hash for Ext4String<S> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_str_lossy().hash(state)
+        self.0.as_ref().hash(state)
     }
 }
 
-- 
2.43.0


From 9e0c20ee421e2c451f08b87b2582cb025dc303b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 22/23] fix: a directory block without room for its tail is not
 valid

---
 src/ext4/directory/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 05b4f47..52faf6d 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -16,7 +16,7 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
         let len = if let Some(checksum_seed) = checksum_seed {
             let block = block.as_ref();
             let tail_size = dir_entry_tail::layout::SIZE.unwrap();
-            let tail_offset = block.len() - tail_size;
+            let tail_offset = block.len().checked_sub(tail_size)?;
 
             let tail = dir_entry_tail::layout::View::new(&block[tail_offset..]);
             if tail.reserved_zero_1().read() != 0
-- 
2.43.0


From d4416fdf584475693efa3943d56c70c5bf28d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 23/23] fix: skip directory records that are not in use

They were listed with inode 0 and the name of what was deleted.
---
 src/ext4/directory/block.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 52faf6d..0d38c3f 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -1,6 +1,7 @@
 use crate::ext4::crc::ext4_crc32c;
 use crate::ext4::directory::dir_entry::DirEntry;
 use crate::ext4::directory::dir_entry_tail;
+use crate::ext4::units::InodeNumber;
 
 pub struct Ext4DirectoryBlock<S: AsRef<[u8]>> {
     storage: S,
@@ -46,10 +47,15 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
     }
 
     pub fn read_next_entry(&mut self) -> Option<DirEntry<&[u8]>> {
-        let rest = &self.storage.as_ref()[self.pos..self.len];
-        let (entry, rest) = DirEntry::from_buf(rest);
-        self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
-        entry
+        loop {
+            let rest = &self.storage.as_ref()[self.pos..self.len];
+            let (entry, rest) = DirEntry::from_buf(rest);
+            self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
+            // Inode 0 marks a record that is not in use.
+            if entry.as_ref()?.inode() != InodeNumber(0) {
+                return entry;
+            }
+        }
     }
 }
 
-- 
2.43.0

