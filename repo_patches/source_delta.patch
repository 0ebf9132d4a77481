From 6d5a303ec0e9d25b17c0172af6b8ee78fa8ab4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 01/26] fix: record block allocations on disk when creating a
 file

create_file() and the extension of the directory only updated the in-memory
BAM, so that unless something else flushed the BAM the image had a file whose
block was marked free. Record the allocation before anything refers to the
block, and check for room before extending the directory.
---
 src/disk/directory.rs |  1 +
 src/disk/mod.rs       | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..c517eb0 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -771,6 +771,7 @@ where
     {
         let mut bam = bam.borrow_mut();
         bam.allocate(new_sector)?;
+        bam.flush()?;
     }
 
     // Link to the new sector from the old sector
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..f94cbed 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -427,23 +427,30 @@ pub trait Disk {
         directory::check_filename_validity(filename)?;
         self.check_filename_availability(filename)?;
 
+        // Be sure that there is room for the file before touching the directory.
+        let bam = self.bam()?;
+        bam.borrow().next_free_block(None)?;
+
         // Find the next available directory slot
         let mut entry = self.next_free_directory_entry()?;
 
-        // Find and allocate the first sector for this new file
-        let bam = self.bam()?;
+        // Find the first sector for this new file
         let mut bam = bam.borrow_mut();
         let first_sector = bam.next_free_block(None)?;
-        bam.allocate(first_sector)?;
 
         // Initialize the first sector with link bytes [0x00,0x01] to indicate that it
         // is a tail block of zero length.
-        let mut blocks = self.blocks_ref_mut();
         {
+            let mut blocks = self.blocks_ref_mut();
             let block = blocks.sector_mut(first_sector)?;
             chain::CHAIN_LINK_ZERO.to_bytes(block);
         }
 
+        // Allocate the first sector, and record the allocation on the disk before
+        // anything refers to that sector.
+        bam.allocate(first_sector)?;
+        bam.flush()?;
+
         // Populate and write the directory entry for this file.
         entry.reset();
         entry.file_attributes.file_type = file_type;
@@ -456,12 +463,14 @@ pub trait Disk {
         entry.file_size = 1; // One block is allocated for the first sector.
 
         // Write the directory entry.
-        match blocks.positioned_write(&entry) {
+        let result = self.blocks_ref_mut().positioned_write(&entry);
+        match result {
             Ok(_) => {}
             Err(e) => {
                 // If the directory entry could not be written, roll back the BAM allocation
                 // before returning an error.
                 bam.free(first_sector)?;
+                bam.flush()?;
                 return Err(e);
             }
         }
-- 
2.43.0


From 4fc271769812ee01b4afb401833086107e280b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:14 +0000
Subject: [PATCH 02/26] fix: refuse BAM operations on locations outside the BAM

Asking for the BAM entry of a track which the BAM doesn't describe (e.g. track
36 or above of a 40-track D64), or allocating or freeing a sector which doesn't
exist on its track, panicked or changed unrelated bits.
---
 src/disk/bam.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..fbe9199 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -273,24 +273,41 @@ impl Bam {
         blocks_free
     }
 
+    /// Confirm that the provided location is one whose allocation is described
+    /// by this BAM.
+    pub fn check_location(&self, location: Location) -> io::Result<()> {
+        let track = location.0 as usize;
+        if track < 1
+            || track > self.entries.len()
+            || location.1 >= self.format.sectors_in_track(location.0)
+        {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
+        self.check_location(Location(track, 0))?;
         Ok(&self.entries[(track - 1) as usize])
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
+        self.check_location(Location(track, 0))?;
         Ok(&mut self.entries[(track - 1) as usize])
     }
 
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From e932e29cb4ed56dfbdfca9c1d412d5b80a32d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:27 +0000
Subject: [PATCH 03/26] fix: delete files completely or not at all

Deleting a relative or GEOS file left its side sectors or info block allocated
on the disk, since the BAM was written before they were freed.  A damaged
chain of a GEOS file or an unwritable directory entry made the deletion fail
after blocks had already been freed.  Blocks were marked free on the disk
before the directory entry was scratched.
---
 src/disk/chain.rs     | 34 +++++++++++++++++++++++++---------
 src/disk/file.rs      | 42 +++++++++---------------------------------
 src/disk/geos/file.rs | 31 +++++--------------------------
 3 files changed, 39 insertions(+), 68 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..b6c8255 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -3,7 +3,7 @@ use std::io::{self, Write};
 
 use crate::disk::bam::BamRef;
 use crate::disk::block::{BlockDeviceRef, Location, BLOCK_SIZE};
-use crate::disk::directory::DirectoryEntry;
+use crate::disk::directory::{DirectoryEntry, FileType};
 use crate::disk::error::DiskError;
 
 /// A "zero" chain link is a link that indicates that this is a tail block, and
@@ -363,17 +363,33 @@ impl io::Write for ChainWriter {
     }
 }
 
-pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
-    // Read the whole chain first to be sure we can visit every block with no
-    // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+/// Remove a file by marking its directory entry as scratched and deallocating
+/// the sectors it occupies.
+pub fn remove_file(
+    blocks: &BlockDeviceRef,
+    bam: &BamRef,
+    entry: &mut DirectoryEntry,
+    locations: &[Location],
+) -> io::Result<()> {
+    // Be sure we can deallocate every block with no errors before changing
+    // anything.
+    blocks.borrow().check_writability()?;
+    for location in locations {
+        bam.borrow().check_location(*location)?;
+    }
+
+    // Mark the file as "DEL" and "open" (*DEL) in the directory.  This must happen
+    // before its blocks are marked as free on the disk.
+    let mut scratched = entry.clone();
+    scratched.file_attributes.file_type = FileType::DEL;
+    scratched.file_attributes.closed_flag = false;
+    blocks.borrow_mut().positioned_write(&scratched)?;
+    *entry = scratched;
 
     // Deallocate
     let mut bam = bam.borrow_mut();
     for location in locations {
-        bam.free(location)?;
+        bam.free(*location)?;
     }
-    bam.flush()?;
-
-    Ok(())
+    bam.flush()
 }
diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..4beaea4 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -8,7 +8,7 @@ use crate::disk::block::Location;
 use crate::disk::block::Position;
 use crate::disk::block::BLOCK_SIZE;
 use crate::disk::chain::{self, ChainIterator, ChainLink, ChainReader, ChainWriter};
-use crate::disk::directory::{DirectoryEntry, Extra, FileType};
+use crate::disk::directory::{DirectoryEntry, Extra};
 use crate::disk::geos::{GEOSFile, GEOSInfo};
 use crate::disk::{Disk, DiskError};
 use crate::petscii::Petscii;
@@ -236,19 +236,9 @@ impl FileOps for LinearFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-        // Mark the file as "DEL" and "open" (*DEL) in the directory.
-        self.entry.file_attributes.file_type = FileType::DEL;
-        self.entry.file_attributes.closed_flag = false;
-        // Write the new directory entry
-        let mut blocks = self.blocks.borrow_mut();
-        blocks.positioned_write(&self.entry)?;
-        Ok(())
+        let locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        chain::remove_file(&self.blocks, &self.bam, &mut self.entry, &locations)
     }
 
     fn record_count(&self) -> io::Result<usize> {
@@ -469,25 +459,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
-
-        // Mark the file as "DEL" and "open" (*DEL) in the directory.
-        self.entry.file_attributes.file_type = FileType::DEL;
-        self.entry.file_attributes.closed_flag = false;
-        // Write the new directory entry
-        let mut blocks = self.blocks.borrow_mut();
-        blocks.positioned_write(&self.entry)?;
-        Ok(())
+        // The data chain, and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::remove_file(&self.blocks, &self.bam, &mut self.entry, &locations)
     }
 
     fn record_count(&self) -> io::Result<usize> {
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..6b8d362 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -4,7 +4,7 @@ use crate::disk::bam::BamRef;
 use crate::disk::block::BlockDeviceRef;
 use crate::disk::block::Location;
 use crate::disk::chain::{self, ChainIterator, ChainReader};
-use crate::disk::directory::{DirectoryEntry, FileType};
+use crate::disk::directory::DirectoryEntry;
 use crate::disk::file::FileOps;
 use crate::disk::DiskError;
 
@@ -88,31 +88,10 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
-
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
-        // Mark the file as "DEL" and "open" (*DEL) in the directory.
-        self.entry.file_attributes.file_type = FileType::DEL;
-        self.entry.file_attributes.closed_flag = false;
-        // Write the new directory entry
-        let mut blocks = self.blocks.borrow_mut();
-        blocks.positioned_write(&self.entry)?;
-        Ok(())
+        // The main chain (Sequential) or index block (VLIR), the info block, and the
+        // VLIR records.
+        let locations = self.occupied_sectors()?;
+        chain::remove_file(&self.blocks, &self.bam, &mut self.entry, &locations)
     }
 
     fn record_count(&self) -> io::Result<usize> {
-- 
2.43.0


From a69a182bf4259a45fc3c5793909d32863c2c1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:31 +0000
Subject: [PATCH 04/26] fix: record block allocations on disk when growing a
 file

A block added to a file was linked into its chain while the image still had it
marked free, until the writer was flushed.  Re-initializing the disk in between
forgot the allocation, and the block could be given to another file as well.
---
 src/disk/chain.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index b6c8255..678661e 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -270,8 +270,13 @@ impl ChainWriter {
             .sector_mut(next_location)?
             .copy_from_slice(&self.block);
 
-        // Allocate the next block.
-        self.bam.borrow_mut().allocate(next_location)?;
+        // Allocate the next block, and record the allocation on the disk before
+        // anything refers to that block.
+        {
+            let mut bam = self.bam.borrow_mut();
+            bam.allocate(next_location)?;
+            bam.flush()?;
+        }
 
         // Increment the directory entry's file size (measured in blocks)
         self.increment_entry_blocks()?;
-- 
2.43.0


From be154c115a5ffdfaae1b429f4f6c7c30de92f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:44 +0000
Subject: [PATCH 05/26] fix: choose the next block of a file based on its
 previous block

The writer asked for the first free block of the disk for every block, so that
files were neither interleaved nor grown outward as the CBM DOS does.
---
 src/disk/bam.rs   | 15 +++++++++++++++
 src/disk/chain.rs |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index fbe9199..d2afc39 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -317,6 +317,21 @@ impl Bam {
         self.format.next_free_block(self, previous)
     }
 
+    /// Return the block which should be used to extend a file, given the last
+    /// block of that file.
+    pub fn next_free_data_block(&self, last: Location) -> io::Result<Location> {
+        if last.0 < self.format.first_track
+            || last.0 > self.format.last_track
+            || self.format.is_reserved_track(last.0)
+        {
+            // The file doesn't end in the area we use for file data, so there is nothing to
+            // continue from.
+            self.next_free_block(None)
+        } else {
+            self.next_free_block(Some(last))
+        }
+    }
+
     pub fn flush(&mut self) -> io::Result<()> {
         self.check_validity()?;
         self.bam_rw.write(&self.entries)
diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 678661e..b1b101b 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -254,7 +254,7 @@ impl ChainWriter {
         self.write_current_block()?;
 
         // Find a new block.
-        let next_location = self.bam.borrow_mut().next_free_block(None)?;
+        let next_location = self.bam.borrow().next_free_data_block(self.location)?;
 
         // Initialize a fresh block in memory with a link indicating a tail block with
         // zero bytes used. (Really, two bytes used for the link, but zero data
-- 
2.43.0


From c9a1b07df1ef64d3c021bb5991f0d2d4ea918288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:57 +0000
Subject: [PATCH 06/26] fix: detect loops when opening a chain for writing

Provisioning a writer for a file whose chain has a loop never returned.
---
 src/disk/chain.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index b1b101b..889629e 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -220,7 +220,13 @@ impl ChainWriter {
 
             let mut block = blocks.sector(start)?;
             tail_location = start;
+            let mut visited_sectors = HashSet::new();
+            visited_sectors.insert(start);
             while let ChainLink::Next(location) = ChainLink::new(block)? {
+                // Loop detection.
+                if !visited_sectors.insert(location) {
+                    return Err(DiskError::ChainLoop.into());
+                }
                 block = blocks.sector(location)?;
                 tail_location = location;
             }
-- 
2.43.0


From 1a0a7c894234310b0a034a9e67f0863d2bd8eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 07/26] fix: report the bytes transferred before an error

The chain reader and writer returned an error from a call which had already
consumed or delivered bytes, so that the caller couldn't know how many.
---
 src/disk/chain.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 889629e..5d3c087 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -133,6 +133,7 @@ impl Iterator for ChainIterator {
 pub struct ChainReader {
     chain: ChainIterator,
     block: Option<Vec<u8>>,
+    error: Option<io::Error>,
     eof: bool,
 }
 
@@ -142,6 +143,7 @@ impl ChainReader {
         ChainReader {
             chain,
             block: None,
+            error: None,
             eof: false,
         }
     }
@@ -149,6 +151,10 @@ impl ChainReader {
 
 impl io::Read for ChainReader {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
+        // An error which followed the bytes returned by the previous call
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
         let mut total_nbytes = 0;
         while !buf.is_empty() && !self.eof {
             match self.block.take() {
@@ -183,6 +189,12 @@ impl io::Read for ChainReader {
                         }
                         Some(Err(e)) => {
                             self.eof = true;
+                            if total_nbytes > 0 {
+                                // Don't lose the bytes already read.  Return the error on the
+                                // next call.
+                                self.error = Some(e);
+                                return Ok(total_nbytes);
+                            }
                             return Err(e);
                         }
                         None => self.eof = true,
@@ -335,7 +347,13 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Report the bytes that were accepted.  The error will be
+                        // encountered again on the next call.
+                        Err(_) if total_nbytes > 0 => return Ok(total_nbytes),
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From d9bc257a2dc2b2aec1aeeb1e0f55a28810b1bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:11 +0000
Subject: [PATCH 08/26] fix: write the record length of a relative file's
 directory entry

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index c517eb0..dd7bfc2 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From 617526fa131d5ded3e0b528e21d89c6852313e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:00 +0000
Subject: [PATCH 09/26] fix: reset the scheme of a reused directory entry

The entry of a file created in a slot formerly used by a relative or GEOS file
still claimed that file's scheme.
---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index dd7bfc2..00eec4b 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -458,6 +458,7 @@ impl DirectoryEntry {
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
         self.file_size = 0;
+        self.scheme = Scheme::Linear;
         // The position field must be left untouched.
     }
 
-- 
2.43.0


From 78efe83d6e13ea13c9ed3f3d7f189bd34fbd3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:13 +0000
Subject: [PATCH 10/26] fix: write the GEOS info description to its own field

---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From 424cea930bcf1a7c7dbe8d362c821bf252536708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:27 +0000
Subject: [PATCH 11/26] fix: don't regard the link of a VLIR index block as a
 record

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 6b8d362..a023f9a 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,8 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            // Skip the link bytes which precede the records.
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From d41f1c3f3104749cb5e7542b4c74df1063e50807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:40 +0000
Subject: [PATCH 12/26] fix: don't repeat bytes when a GEOS reader fills the
 output buffer

---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From 2c9615814c04972228cf6e0245024d73ddc7b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:10 +0000
Subject: [PATCH 13/26] fix: pad zero-length GEOS records in the Convert stream

The converted index counts one block for such a record, but the stream had
none, so that the records which follow were misplaced.
---
 src/disk/geos/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index 347adb0..b94ca05 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -184,7 +184,8 @@ impl GEOSReader {
                         // Pad to a multiple of BLOCK_DATA_SIZE unless this is the last record.
                         if !self.chains.is_empty() {
                             let remainder = self.buffer.len() % BLOCK_DATA_SIZE;
-                            if remainder > 0 {
+                            // (A record of zero bytes also uses one block.)
+                            if remainder > 0 || self.buffer.is_empty() {
                                 let padded_size = self.buffer.len() + BLOCK_DATA_SIZE - remainder;
                                 self.buffer.resize(padded_size, 0);
                             }
-- 
2.43.0


From b2c2d40b4f3000276d1f65284295b51cf02d41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 14/26] fix: end the GEOS stream at the first error, without
 losing bytes

An error in a GEOS reader hid the bytes already delivered by that call, and the
next call silently continued with the next part of the file.
---
 src/disk/geos/reader.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index b94ca05..0fc3629 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -33,6 +33,7 @@ pub struct GEOSReader {
     info_location: Location,
     start_location: Location,
     chains: VecDeque<ChainReader>,
+    error: Option<io::Error>,
 }
 
 impl GEOSReader {
@@ -78,6 +79,7 @@ impl GEOSReader {
                 .ok_or_else(|| DiskError::GEOSInfoNotFound.to_io_error())?,
             start_location: entry.first_sector,
             chains: VecDeque::new(),
+            error: None,
         })
     }
 
@@ -202,6 +204,10 @@ impl GEOSReader {
 
 impl Read for GEOSReader {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
+        // An error which followed the bytes returned by the previous call
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
         if let GEOSReaderState::Finished = self.state {
             return Ok(0);
         }
@@ -230,7 +236,16 @@ impl Read for GEOSReader {
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-                self.next_state()?;
+                if let Err(e) = self.next_state() {
+                    // The stream ends here.  Don't lose the bytes already read.
+                    self.state = GEOSReaderState::Finished;
+                    self.buffer.clear();
+                    if bytes_written > 0 {
+                        self.error = Some(e);
+                        break;
+                    }
+                    return Err(e);
+                }
                 if let GEOSReaderState::Finished = self.state {
                     break;
                 }
-- 
2.43.0


From d81c737550034a0e86b4659fff3b21c6d65e8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:37 +0000
Subject: [PATCH 15/26] fix: return an error for relative files with short side
 sectors or no record length

Opening such a file panicked.
---
 src/disk/file.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 4beaea4..9790707 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -330,6 +330,9 @@ impl RelativeFile {
             Extra::Relative(ref e) => (e.record_length as usize, e.first_side_sector),
             _ => return Err(DiskError::InvalidRelativeFile.into()),
         };
+        if record_size == 0 {
+            return Err(DiskError::InvalidRelativeFile.into());
+        }
 
         // Find side sectors.  Side sector locations are stored redundantly -- once as
         // a linked chain of sectors, and also as a list within each side
@@ -344,16 +347,6 @@ impl RelativeFile {
             let sector = sector?;
             side_sectors.push(sector.location);
 
-            // Process the list of side sectors which is contained within each side sector.
-            let list_bytes = &sector.data
-                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
-            let list: Vec<Location> = list_bytes
-                .chunks(2)
-                .map(|c| Location::new(c[0], c[1]))
-                .filter(|l| l.0 != 0)
-                .collect();
-            side_sector_lists.push(list);
-
             // How many bytes are used in this side sector?
             let size = match ChainLink::new(&sector.data)? {
                 ChainLink::Next(_) => BLOCK_SIZE,
@@ -364,6 +357,16 @@ impl RelativeFile {
                 return Err(DiskError::InvalidRelativeFile.into());
             }
 
+            // Process the list of side sectors which is contained within each side sector.
+            let list_bytes = &sector.data
+                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
+            let list: Vec<Location> = list_bytes
+                .chunks(2)
+                .map(|c| Location::new(c[0], c[1]))
+                .filter(|l| l.0 != 0)
+                .collect();
+            side_sector_lists.push(list);
+
             // Extract the data locations contained in this side sector.
             let mut sectors: Vec<Location> = sector.data[SIDE_SECTOR_DATA_OFFSET..size]
                 .chunks(2)
-- 
2.43.0


From 9982273a55d317bfb90f0d68f33c9cdb13a1b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:20 +0000
Subject: [PATCH 16/26] fix: don't panic on a partially used directory sector
 when looking for a slot

---
 src/disk/directory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 00eec4b..f42d32c 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -718,7 +718,7 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From b1a8b2109fc6bafa913c28e7f5ba48c059f509ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:03 +0000
Subject: [PATCH 17/26] fix: check the disk name before erasing the disk to be
 formatted

---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index f94cbed..d27a1ca 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Be sure the name fits in the header before erasing anything.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 785956b8e50cce1c4e3fd4eea293779ca58b2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:13 +0000
Subject: [PATCH 18/26] fix: create images which don't exist yet, and truncate
 those being overwritten

Creating an image with create_new=false failed unless the file existed, and
kept the contents of an existing file.
---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..136f11b 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From d518ebc7884aa12fa0690441c9ef3ca9d35ccae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:09 +0000
Subject: [PATCH 19/26] fix: exit with a failure status when a cdisk command
 fails

---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..31bff5f 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -200,6 +200,7 @@ fn main() {
     };
     if let Err(e) = result {
         eprintln!("Error: {}", e);
+        process::exit(EXIT_FAILURE);
     }
 }
 
-- 
2.43.0


From e198c4242bffbceaea1dd498e237371ec097da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 20/26] fix: open the disk image for writing in the cdisk
 append command

Appending never worked, as the image was opened read-only.
---
 src/bin/cdisk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 31bff5f..38ade59 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -320,7 +320,8 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    Ok(Box::new(disk.open_file(&filename.into())?.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From ac72303e29f7d63a3c57e75f3ad4833ec53eabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:33 +0000
Subject: [PATCH 21/26] fix: report an error when cdisk geosread is used on a
 non-GEOS file

The command panicked.
---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 38ade59..42c6ca8 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -332,7 +332,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "not a GEOS file",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From f03aeedf24ae203cebe48c82d55d57387fc6e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:44 +0000
Subject: [PATCH 22/26] fix: accept and check all tracks and sectors in the
 cdisk bam commands

The bam commands refused most tracks and sectors of D71 and D81 images, handled
only the first 35 tracks for "all", and set bits beyond the end of a track.
---
 src/bin/cdisk.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 42c6ca8..d3a29ca 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -6,7 +6,7 @@ use std::process;
 use cbm::disk::directory::FileType;
 use cbm::disk::file::{File, FileOps, Scheme};
 use cbm::disk::geos::GEOSFile;
-use cbm::disk::{self, D64, D71, D81, DiskType};
+use cbm::disk::{self, D64, D71, D81, DiskError, DiskType};
 use cbm::Petscii;
 
 // Possible exit codes
@@ -225,22 +225,22 @@ fn optional_u8_validator(v: String, min: u8, max: u8) -> Result<(), String> {
     }
 }
 
-/// Require a track argument to be a number in the range 1-40 or "all".
+/// Require a track argument to be a number in the range 1-80 or "all".
 fn optional_track_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 1, 40)
+    optional_u8_validator(v, 1, 80)
 }
 
 fn optional_track_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 1, 40).unwrap()
+    optional_u8_parser(v, 1, 80).unwrap()
 }
 
-/// Require a sector argument to be a number in the range 0-20 or "all".
+/// Require a sector argument to be a number in the range 0-39 or "all".
 fn optional_sector_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 0, 20)
+    optional_u8_validator(v, 0, 39)
 }
 
 fn optional_sector_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 0, 20).unwrap()
+    optional_u8_parser(v, 0, 39).unwrap()
 }
 
 /// A FillReader is simply a reader that supplies a certain number of the
@@ -286,13 +286,17 @@ fn cmd_bam_edit(
     let mut bam = bam.borrow_mut();
     let track_range = match track {
         Some(t) => t..=t,
-        None => 1..=35,
+        None => format.first_track..=format.last_track,
     };
-    for track in track_range {
-        let entry = bam.entry_mut(track)?;
+    for t in track_range {
+        let entry = bam.entry_mut(t)?;
+        let sectors = format.sectors_in_track(t);
         let sector_range = match sector {
-            Some(s) => s..=s,
-            None => 0..=(format.sectors_in_track(track) - 1),
+            Some(s) if s < sectors => s..=s,
+            // Not every track has this sector.
+            Some(_) if track.is_none() => continue,
+            Some(_) => return Err(DiskError::InvalidLocation.into()),
+            None => 0..=(sectors - 1),
         };
         for sector in sector_range {
             if allocate {
-- 
2.43.0


From 5ff508a503ef05958be75c7ac2b2e9b3d388dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 23/26] fix: refuse out-of-range records of GEOS sequential
 files

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index a023f9a..f27c361 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -60,7 +60,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0


From 94788417983d91781b4fed92282615921030044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:17 +0000
Subject: [PATCH 24/26] fix: do not overflow the block count of a file

---
 src/disk/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 5d3c087..3001f43 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -258,7 +258,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From d5133f4e67395ebbe18bad1894c106800ffae7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:27 +0000
Subject: [PATCH 25/26] fix: dump and validate images that cannot be written to

---
 src/bin/cdisk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index d3a29ca..c88d631 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -492,7 +492,7 @@ fn cmd_delete(diskimage: &str, filename: &str) -> io::Result<()> {
 }
 
 fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
-    let mut disk = disk::open(diskimage, true)?;
+    let mut disk = disk::open(diskimage, false)?;
     match filename {
         Some(filename) => {
             let file = disk.open_file(&filename.into())?;
@@ -504,7 +504,7 @@ fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
 }
 
 fn cmd_validate(diskimage: &str) -> io::Result<()> {
-    let disk = disk::open(diskimage, true)?;
+    let disk = disk::open(diskimage, false)?;
     let errors = disk.validate()?;
     for e in errors.iter() {
         println!("{}", e);
-- 
2.43.0


From ec55059bd295b665c54a841bd4e7a4112ad2fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:47 +0000
Subject: [PATCH 26/26] fix: deleting through a file handle wrote back an
 outdated directory entry

---
 src/disk/chain.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 3001f43..9dd1936 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -409,7 +409,9 @@ pub fn remove_file(
 
     // Mark the file as "DEL" and "open" (*DEL) in the directory.  This must happen
     // before its blocks are marked as free on the disk.
+    // (The caller's copy of the entry may be older than the file's last change.)
     let mut scratched = entry.clone();
+    blocks.borrow().positioned_read(&mut scratched)?;
     scratched.file_attributes.file_type = FileType::DEL;
     scratched.file_attributes.closed_flag = false;
     blocks.borrow_mut().positioned_write(&scratched)?;
-- 
2.43.0

