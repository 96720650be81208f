From 4a21f2702267a24516c3cb29f8c95174f80662d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 01/54] fix: read the last flat record also when its data is
 empty

FlatRecordReader treated a two-byte record (empty data) at the end of the file as
the end of the records, so a database file ending in an empty value was rejected
as broken at reopening, and an export ending in one could not be imported.
---
 tkrzw_file_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 464b7b1..cb9aad1 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1350,7 +1350,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (file_size <= offset_ + min_record_size) {
+  if (file_size < offset_ + min_record_size) {
     return Status(Status::NOT_FOUND_ERROR);
   }
   data_size_ = std::min(static_cast<int64_t>(buffer_size_), file_size - offset_);
-- 
2.43.0


From 0fa90ebf7dfd10816d37186c948ddc351ea5b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 02/54] fix: let the page cache read a page which reaches
 beyond the end of the file

A read starting in the middle of a page always requested the whole page from the
file, so it failed if the file size was not aligned to the block size.
---
 tkrzw_file_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index cb9aad1..a33ad6d 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -970,7 +970,9 @@ PageCache::PageRequest* PageCache::MakePageRequest(
   if (off_rem != 0) {
     const int64_t page_off = off - off_rem;
     const int64_t copy_size = std::min<int64_t>(size, page_size_ - off_rem);
-    requests[(*num_requests)++] = PageRequest({page_off, off_rem, page_size_, copy_size});
+    const int64_t data_size =
+        std::max(off_rem + copy_size, std::min(region_size_.load() - page_off, page_size_));
+    requests[(*num_requests)++] = PageRequest({page_off, off_rem, data_size, copy_size});
     off += copy_size;
     size -= copy_size;
   }
-- 
2.43.0


From 5e93b24dc84f29587f204ffd923e5f6f893228ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 03/54] fix: restore an encrypted database automatically with
 its cipher key

The key kept in the object had been cleared by CloseImpl before it was passed to
RestoreDatabase, so the automatic restoration destroyed encrypted records.
---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d1ce92d..c89c09b 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -338,7 +338,8 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
       const std::string tmp_path = path_ + ".tmp.restore";
       const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
       RemoveFile(tmp_path);
-      status = HashDBM::RestoreDatabase(path_, tmp_path, end_offset, cipher_key_);
+      status = HashDBM::RestoreDatabase(
+          path_, tmp_path, end_offset, tuning_params.cipher_key);
       if (status != Status::SUCCESS) {
         RemoveFile(tmp_path);
         return status;
-- 
2.43.0


From cc7beec966300484a0e4f4f29c96d97da82c1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 04/54] fix: clear the removed region when a file is truncated

Files are kept physically longer than their logical size, so truncating a file
left the old contents behind its logical end: HashDBM::Clear followed by a crash
brought the removed records back, and padding bytes were not null.
---
 tkrzw_file_mmap.cc | 10 ++++++++++
 tkrzw_file_pos.cc  |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 1c1724b..f4a6e24 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -261,6 +261,11 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   AdviseMemoryRandomAccessPattern(new_map, new_map_size);
   map_ = static_cast<char*>(new_map);
   map_size_.store(new_map_size);
+  // Clears the remnant of the removed region because it precedes the allocated file end.
+  const int64_t remnant_end = std::min(file_size_.load(), new_map_size);
+  if (size < remnant_end) {
+    std::memset(map_ + size, 0, remnant_end - size);
+  }
   const Status status = TruncateFile(fd_, new_map_size);
   if (status != Status::SUCCESS) {
     return status;
@@ -829,6 +834,11 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   }
   map_ = static_cast<char*>(new_map);
   map_size_ = new_map_size;
+  // Clears the remnant of the removed region because it precedes the allocated file end.
+  const int64_t remnant_end = std::min(file_size_, new_map_size);
+  if (size < remnant_end) {
+    std::memset(map_ + size, 0, remnant_end - size);
+  }
   const Status status = TruncateFile(fd_, new_map_size);
   if (status != Status::SUCCESS) {
     return status;
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index a4e472d..8394a8f 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -364,6 +364,10 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  if (size < file_size_.load()) {
+    // Clears the remnant of the removed region because it precedes the allocated file end.
+    status |= TruncateFile(fd_, size);
+  }
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_.store(size);
@@ -1054,6 +1058,10 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  if (size < file_size_) {
+    // Clears the remnant of the removed region because it precedes the allocated file end.
+    status |= TruncateFile(fd_, size);
+  }
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_ = size;
-- 
2.43.0


From 9ba583568742590a241f8ac628128a5fca0fde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 05/54] fix: step back within the page when the position is
 after its last record

---
 tkrzw_dbm_baby.cc | 10 ++++------
 tkrzw_dbm_tree.cc | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 7dcff20..f75b758 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1344,12 +1344,10 @@ Status BabyDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(leaf_node_->mutex);
     auto& records = leaf_node_->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_node_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_node_, (*it)->GetKey());
+      hit = true;
     }
   }
   if (!hit) {
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9faa4d3..dddbd66 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2399,12 +2399,10 @@ Status TreeDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(node->mutex);
     auto& records = node->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_id_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_id_, (*it)->GetKey());
+      hit = true;
     }
   }
   Status status(Status::SUCCESS);
-- 
2.43.0


From 8e3fb7ac4700e4abcb7569a9885b8da66e54e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 06/54] fix: accept a tail of null bytes left by a crash in
 flat record files

---
 tkrzw_file_util.cc | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index a33ad6d..d790785 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1300,6 +1300,31 @@ Status FlatRecord::Write(std::string_view data, RecordType rec_type) {
   return status;
 }
 
+static Status CheckFlatRecordTail(File* file, int64_t offset) {
+  // A file which was not closed properly can have a tail of null bytes, which were allocated in
+  // advance and contain no record.
+  int64_t file_size = 0;
+  Status status = file->GetSize(&file_size);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
+  char buf[4096];
+  while (offset < file_size) {
+    const int64_t size = std::min<int64_t>(file_size - offset, sizeof(buf));
+    status = file->Read(offset, buf, size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    for (int64_t i = 0; i < size; i++) {
+      if (buf[i] != 0) {
+        return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      }
+    }
+    offset += size;
+  }
+  return Status(Status::NOT_FOUND_ERROR);
+}
+
 FlatRecordReader::FlatRecordReader(File* file, size_t buffer_size)
     : file_(file), offset_(0), buffer_(nullptr), buffer_size_(0), data_size_(0), index_(0) {
   if (buffer_size < 1) {
@@ -1329,7 +1354,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
         *rec_type = FlatRecord::RECORD_METADATA;
       }
     } else {
-      return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      return CheckFlatRecordTail(file_, offset_);
     }
     rp++;
     record_size--;
@@ -1374,7 +1399,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
       *rec_type = FlatRecord::RECORD_METADATA;
     }
   } else {
-    return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+    return CheckFlatRecordTail(file_, offset_);
   }
   rp++;
   record_size--;
-- 
2.43.0


From 88235e7703bfeb19e9ceb9d63234df190cff2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 07/54] fix: keep the old file when exporting the records of an
 on-memory database failed

---
 tkrzw_dbm_baby.cc  | 4 +++-
 tkrzw_dbm_cache.cc | 8 +++++---
 tkrzw_dbm_std.cc   | 4 +++-
 tkrzw_dbm_tiny.cc  | 4 +++-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index f75b758..b535938 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1063,7 +1063,9 @@ Status BabyDBMImpl::ExportRecords() {
     leaf_node = leaf_node->next;
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 80caf5c..985f828 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -985,13 +985,15 @@ Status CacheDBMImpl::ExportRecords() {
   meta["cap_mem_size"] = ToString(cap_mem_size_);
   status |= flat_rec.Write(SerializeStrMap(meta), FlatRecord::RECORD_METADATA);
   for (auto& slot : slots_) {
-    status = slot.ExportRecords(&flat_rec);
+    status |= slot.ExportRecords(&flat_rec);
     if (status != Status::SUCCESS) {
-      return status;
+      break;
     }
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 3a2ecae..d793b3f 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -603,7 +603,9 @@ Status StdDBMImpl<STRMAP>::ExportRecords() {
     ++it;
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index c05e1ca..8d7244b 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -619,7 +619,9 @@ Status TinyDBMImpl::ExportRecords() {
     }
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
-- 
2.43.0


From 05a5b28204d2777fbad66ad0c997ed1f7b72d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 08/54] fix: report the failure to save a standard container
 database on synchronization

---
 tkrzw_dbm_std.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index d793b3f..4b9f5c1 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -447,7 +447,7 @@ Status StdDBMImpl<STRMAP>::Synchronize(bool hard, DBM::FileProcessor* proc) {
       proc->Process(path_);
     }
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 template <class STRMAP>
-- 
2.43.0


From a83bc6f5d76bcf140f1dcfb392579e3a22fe7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 09/54] fix: removing an already removed record in the
 appending mode does nothing

---
 tkrzw_dbm_hash.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index c89c09b..e608e86 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1472,7 +1472,9 @@ Status HashDBMImpl::ProcessImpl(
       if (new_value.data() == nullptr) {
         return Status(Status::BROKEN_DATA_ERROR, "record processing failed");
       }
-      if (new_value.data() != DBM::RecordProcessor::NOOP.data() && writable) {
+      const bool is_void_remove =
+          !old_is_set && new_value.data() == DBM::RecordProcessor::REMOVE.data();
+      if (new_value.data() != DBM::RecordProcessor::NOOP.data() && !is_void_remove && writable) {
         if (update_logger_ != nullptr) {
           if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
             status = update_logger_->WriteRemove(key);
-- 
2.43.0


From 55a229cd5da28abeeda71ac24756b7147677f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 10/54] fix: save the free block pool before the metadata which
 marks the file as closed

---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index e608e86..faa7132 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -752,6 +752,7 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (update_logger_ != nullptr) {
     status |= update_logger_->Synchronize(hard);
   }
+  status |= SaveFBP();
   if (hard) {
     status |= file_->Synchronize(true);
     status |= SaveMetadata(true);
@@ -1240,8 +1241,8 @@ Status HashDBMImpl::CloseImpl() {
   if (writable_ && healthy_) {
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(true);
     status |= SaveFBP();
+    status |= SaveMetadata(true);
   }
   open_ = false;
   writable_ = false;
-- 
2.43.0


From 25e174cba31028f8c12e81b0fedb3967a49b316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 11/54] fix: keep the database type and the opaque metadata in
 the file while it is rebuilt

---
 tkrzw_dbm_hash.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index faa7132..6770c70 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1776,7 +1776,9 @@ Status HashDBMImpl::RebuildImpl(
         return status;
       }
     }
-    status = tmp_dbm.Close();
+    status = tmp_dbm.SetDatabaseType(db_type_);
+    status |= tmp_dbm.SetOpaqueMetadata(opaque_);
+    status |= tmp_dbm.Close();
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
-- 
2.43.0


From b19cab48691a0ef682434eddbf808fc16479c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 12/54] fix: keep the key comparator when a tree database is
 restored

---
 tkrzw_dbm_tree.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index dddbd66..1a00689 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2864,6 +2864,22 @@ Status TreeDBM::RestoreDatabase(
   params.cipher_key = cipher_key;
   params.max_page_size = max_page_size;
   params.max_branches = max_branches;
+  switch (key_comp_type) {
+    case 2: params.key_comparator = LexicalCaseKeyComparator; break;
+    case 3: params.key_comparator = DecimalKeyComparator; break;
+    case 4: params.key_comparator = HexadecimalKeyComparator; break;
+    case 5: params.key_comparator = RealNumberKeyComparator; break;
+    case 6: params.key_comparator = SignedBigEndianKeyComparator; break;
+    case 7: params.key_comparator = FloatBigEndianKeyComparator; break;
+    case 101: params.key_comparator = PairLexicalKeyComparator; break;
+    case 102: params.key_comparator = PairLexicalCaseKeyComparator; break;
+    case 103: params.key_comparator = PairDecimalKeyComparator; break;
+    case 104: params.key_comparator = PairHexadecimalKeyComparator; break;
+    case 105: params.key_comparator = PairRealNumberKeyComparator; break;
+    case 106: params.key_comparator = PairSignedBigEndianKeyComparator; break;
+    case 107: params.key_comparator = PairFloatBigEndianKeyComparator; break;
+    default: break;
+  }
   TreeDBM new_dbm;
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
-- 
2.43.0


From 14bab3d7a4acc76bf67a8e43804a53cf9087cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 13/54] fix: ignore the option bits of the restore mode in the
 tree database

---
 tkrzw_dbm_tree.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 1a00689..631c7b0 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -434,13 +434,14 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     return status;
   }
   auto_restored_ = false;
+  const int32_t restore_mode = tuning_params.restore_mode & 0xffff;
   if (writable && hash_dbm_->IsAutoRestored() &&
-      tuning_params.restore_mode != HashDBM::RESTORE_READ_ONLY &&
-      tuning_params.restore_mode != HashDBM::RESTORE_NOOP) {
+      restore_mode != HashDBM::RESTORE_READ_ONLY &&
+      restore_mode != HashDBM::RESTORE_NOOP) {
     hash_dbm_->Close();
     const std::string tmp_path = norm_path + ".tmp.restore";
     const int64_t end_offset =
-        tuning_params.restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
+        restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
     RemoveFile(tmp_path);
     status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From dce83e352068ed7c7f9f507524c0f83e392d8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 14/54] fix: synchronize the restored hash database physically
 when it is requested

---
 tkrzw_dbm_hash.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 6770c70..ec20808 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -344,7 +344,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
         RemoveFile(tmp_path);
         return status;
       }
-      if (0 && restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
+      if (restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
         status = SynchronizeFile(tmp_path);
         if (status != Status::SUCCESS) {
           RemoveFile(tmp_path);
@@ -356,7 +356,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
         RemoveFile(tmp_path);
         return status;
       }
-      if (0 && restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
+      if (restore_options & HashDBM::RESTORE_WITH_HARDSYNC) {
         status = SynchronizeFile(path_);
         if (status != Status::SUCCESS) {
           return status;
-- 
2.43.0


From db1854108a644fe8e7e9b05b9f5cb2a6c0063454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 15/54] fix: read the last leaf ID of a tree database from its
 own field

---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 631c7b0..f45e01a 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2766,7 +2766,7 @@ Status TreeDBM::ParseMetadata(
   *eff_data_size = ReadFixNum(rp + META_OFFSET_EFF_DATA_SIZE, 6);
   *root_id = ReadFixNum(rp + META_OFFSET_ROOT_ID, 6);
   *first_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
-  *last_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
+  *last_id = ReadFixNum(rp + META_OFFSET_LAST_ID, 6);
   *num_leaf_nodes = ReadFixNum(rp + META_OFFSET_NUM_LEAF_NODES, 6);
   *num_inner_nodes = ReadFixNum(rp + META_OFFSET_NUM_INNER_NODES, 6);
   *max_page_size = ReadFixNum(rp + META_OFFSET_MAX_PAGE_SIZE, 3);
-- 
2.43.0


From cea6d3d7056cfd107dfdb21dd594dfe9a84cf74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 16/54] fix: lock the buckets of the on-memory hash database
 while reading all or the first records

---
 tkrzw_dbm_tiny.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 8d7244b..4861467 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -328,6 +328,7 @@ Status TinyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
       char* ptr = buckets_[bucket_index];
       if (ptr != nullptr) {
         rec.Deserialize(ptr);
@@ -361,6 +362,7 @@ Status TinyDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
       char* ptr = buckets_[bucket_index];
       while (ptr != nullptr) {
         rec.Deserialize(ptr);
-- 
2.43.0


From ceed845e09fce88fb8b0af6144ffe1adad125e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 17/54] fix: process the first record of the on-memory tree
 database without writing when it is not allowed

---
 tkrzw_dbm_baby.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index b535938..80e0a95 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -497,7 +497,7 @@ Status BabyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
       std::shared_lock<SpinSharedMutex> page_lock(leaf_node->mutex);
       if (!leaf_node->records.empty()) {
         const std::string key(leaf_node->records.front()->GetKey());
-        ProcessImpl(leaf_node, key, proc, true);
+        ProcessImpl(leaf_node, key, proc, false);
         return Status(Status::SUCCESS);
       }
     }
-- 
2.43.0


From b6ece9bce45a02ee11ccdd7730a098d55743397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 18/54] fix: process records of a cache database without
 releasing the slot in between

---
 tkrzw_dbm_cache.cc | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 985f828..906aa82 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -413,21 +413,14 @@ void CacheSlot::ProcessImpl(
 
 bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
-    bool hit = false;
-    std::string key;
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      if (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        key = std::string(rec.key_ptr, rec.key_size);
-        hit = true;
-      }
-    }
-    if (hit) {
+    std::lock_guard<SpinMutex> lock(mutex_);
+    char* ptr = first_;
+    if (ptr != nullptr) {
+      CacheRecord rec;
+      rec.Deserialize(ptr);
+      const std::string key(rec.key_ptr, rec.key_size);
       const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
+      ProcessImpl(key, hash, proc, true);
       return true;
     }
   } else {
@@ -447,21 +440,19 @@ bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
 
 void CacheSlot::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
+    std::lock_guard<SpinMutex> lock(mutex_);
     std::vector<std::string> keys;
     keys.reserve(num_records_);
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      while (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        keys.emplace_back(std::string(rec.key_ptr, rec.key_size));
-        ptr = rec.next;
-      }
+    char* ptr = first_;
+    while (ptr != nullptr) {
+      CacheRecord rec;
+      rec.Deserialize(ptr);
+      keys.emplace_back(std::string(rec.key_ptr, rec.key_size));
+      ptr = rec.next;
     }
     for (const auto& key : keys) {
       const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
+      ProcessImpl(key, hash, proc, true);
     }
   } else {
     std::lock_guard<SpinMutex> lock(mutex_);
-- 
2.43.0


From 2d2faa0e57522b863208d4fd1a8bf63ae3fede4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:55 +0000
Subject: [PATCH 19/54] fix: recover the timestamp of a message queue and cut
 off only its torn tail after a crash

---
 tkrzw_message_queue.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1edab0c..8e176bf 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -175,6 +175,16 @@ Status MessageQueueImpl::Open(
     return status;
   }
   if (last_file->GetSizeSimple() == 0) {
+    if (file_paths.size() > 1) {
+      int64_t prev_file_id = 0;
+      int64_t prev_file_size = 0;
+      status = MessageQueue::ReadFileMetadata(
+          file_paths[file_paths.size() - 2], &prev_file_id, &timestamp_, &prev_file_size);
+      if (status != Status::SUCCESS) {
+        files_.clear();
+        return status;
+      }
+    }
     status = SynchronizeImpl(sync_hard_);
     if (status != Status::SUCCESS) {
       files_.clear();
@@ -217,10 +227,13 @@ Status MessageQueueImpl::Open(
       int64_t offset = METADATA_SIZE;
       int64_t timestamp = 0;
       std::string message;
+      check_file_size = offset;
       while (MessageQueue::ReadNextMessage(
-                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS) {
+                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS &&
+             offset <= act_file_size) {
+        check_file_size = offset;
+        timestamp_ = std::max(timestamp_, timestamp);
       }
-      check_file_size = offset;
     }
     if (check_file_size == act_file_size ||
         (options & MessageQueue::OPEN_IGNORE_BROKEN) ||
-- 
2.43.0


From 4b6cde811a0ee2c33833f4ba99b87ab058523b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:11 +0000
Subject: [PATCH 20/54] fix: leave the files alone when opening a message queue
 failed

---
 tkrzw_message_queue.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 8e176bf..5107943 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -196,6 +196,7 @@ Status MessageQueueImpl::Open(
   status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                         &check_file_size);
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   if (cyclic_magic_ < 0) {
@@ -204,6 +205,7 @@ Status MessageQueueImpl::Open(
       status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                             &check_file_size);
       if (status != Status::SUCCESS) {
+        files_.clear();
         return status;
       }
     }
@@ -218,6 +220,7 @@ Status MessageQueueImpl::Open(
     if (options & MessageQueue::OPEN_IGNORE_BROKEN) {
       check_file_size = -1;
     } else {
+      files_.clear();
       return status;
     }
   }
@@ -249,6 +252,7 @@ Status MessageQueueImpl::Open(
     }
   }
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   last_file_ = last_file;
-- 
2.43.0


From e13303f8f6dbb5e91387deb7c32386a6d8732733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:09 +0000
Subject: [PATCH 21/54] fix: keep the position of a reader of a read-only
 message queue at its end

---
 tkrzw_message_queue.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 5107943..547d6bc 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -517,8 +517,6 @@ Status MessageQueueReaderImpl::Read(int64_t* timestamp, std::string* message, do
     if (file_offset_ + static_cast<int64_t>(RECORD_HEADER_SIZE) > file_->GetSizeSimple()) {
       if (file_id_ == queue_->last_file_id_) {
         if (queue_->read_only_) {
-          file_ = nullptr;
-          ReleaseFile(file_id_);
           return Status(Status::NOT_FOUND_ERROR);
         }
         if (wait_time < 0) {
-- 
2.43.0


From 7bfd99aba7f19fdf8bbd02efa90f92e846047084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:09 +0000
Subject: [PATCH 22/54] fix: report the failure of an operation of an update
 log

---
 tkrzw_dbm_ulog.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index f1101ab..e449acd 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -314,6 +314,9 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
       break;
     case OP_REMOVE:
       status = dbm->Remove(op.key);
+      if (status == Status::NOT_FOUND_ERROR) {
+        status.Set(Status::SUCCESS);
+      }
       break;
     case OP_CLEAR:
       status = dbm->Clear();
@@ -321,7 +324,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
     default:
       break;
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
-- 
2.43.0


From cf7be03733bf7247bbe9e78d992c0f8aa24a240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:09 +0000
Subject: [PATCH 23/54] fix: stop at the end of the messages while applying
 update logs from files

---
 tkrzw_dbm_ulog.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index e449acd..1370c0a 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -358,8 +358,9 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
       status = tkrzw::MessageQueue::ReadNextMessage(
           &file, &file_offset, &timestamp, &message);
       if (status != Status::SUCCESS) {
-        if (status == Status::CANCELED_ERROR) {
-          continue;
+        if (status == Status::CANCELED_ERROR ||
+            (status == Status::INFEASIBLE_ERROR && file_offset == file_size)) {
+          break;
         }
         return status;
       }
-- 
2.43.0


From b3cbbaddb85f2210a878bceb606cc96106936227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 24/54] fix: discard the shards when opening a sharded database
 fails

---
 tkrzw_dbm_shard.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a86bc1b..466b064 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -104,6 +104,7 @@ Status ShardDBM::OpenAdvanced(
       for (int32_t j = i - 1; j >= 0; j--) {
         dbms_[j]->Close();
       }
+      dbms_.clear();
       return status;
     }
   }
@@ -118,6 +119,7 @@ Status ShardDBM::OpenAdvanced(
     for (int32_t i = dbms_.size() - 1; i >= 0; i--) {
       dbms_[i]->Close();
     }
+    dbms_.clear();
     return status;
   }
   open_ = true;
-- 
2.43.0


From e1e3c98fc94e7bd8ceb5d04cd53892fba976eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 25/54] fix: report an error for operations on an unopened
 sharded database

---
 tkrzw_dbm_shard.cc | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 466b064..9f98d93 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -199,6 +199,9 @@ Status ShardDBM::Append(std::string_view key, std::string_view value, std::strin
 
 Status ShardDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
   assert(proc != nullptr);
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   Status status = iter->First();
   if (status != Status::SUCCESS) {
@@ -254,6 +257,9 @@ Status ShardDBM::ProcessMulti(
 Status ShardDBM::CompareExchangeMulti(
     const std::vector<std::pair<std::string_view, std::string_view>>& expected,
     const std::vector<std::pair<std::string_view, std::string_view>>& desired) {
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   typedef std::pair<std::string_view, std::string_view> Condition;
   typedef std::pair<std::vector<Condition>, std::vector<Condition>> ConditionListPair;
   std::map<int32_t, ConditionListPair> shard_conditions;
@@ -637,13 +643,15 @@ ShardDBM::Iterator::Iterator(std::vector<std::shared_ptr<PolyDBM>>* dbms)
   for (int32_t i = 0; i < static_cast<int32_t>(dbms->size()); i++) {
     slots_[i].iter = (*dbms)[i]->MakeIterator().release();
   }
-  const auto* dbm = dbms->front()->GetInternalDBM();
-  const auto& dbm_type = dbm->GetType();
-  if (dbm_type == typeid(TreeDBM)) {
-    comp_ = dynamic_cast<const TreeDBM*>(dbm)->GetKeyComparator();
-  }
-  if (dbm_type == typeid(BabyDBM)) {
-    comp_ = dynamic_cast<const BabyDBM*>(dbm)->GetKeyComparator();
+  if (!dbms->empty()) {
+    const auto* dbm = dbms->front()->GetInternalDBM();
+    const auto& dbm_type = dbm->GetType();
+    if (dbm_type == typeid(TreeDBM)) {
+      comp_ = dynamic_cast<const TreeDBM*>(dbm)->GetKeyComparator();
+    }
+    if (dbm_type == typeid(BabyDBM)) {
+      comp_ = dynamic_cast<const BabyDBM*>(dbm)->GetKeyComparator();
+    }
   }
   if (comp_ == nullptr) {
     comp_ = LexicalKeyComparator;
@@ -657,6 +665,9 @@ ShardDBM::Iterator::~Iterator() {
 }
 
 Status ShardDBM::Iterator::First() {
+  if (slots_.empty()) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   heap_.clear();
   for (auto& slot : slots_) {
     const Status status = slot.iter->First();
@@ -679,6 +690,9 @@ Status ShardDBM::Iterator::First() {
 }
 
 Status ShardDBM::Iterator::Last() {
+  if (slots_.empty()) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   heap_.clear();
   for (auto& slot : slots_) {
     const Status status = slot.iter->Last();
@@ -701,6 +715,9 @@ Status ShardDBM::Iterator::Last() {
 }
 
 Status ShardDBM::Iterator::Jump(std::string_view key) {
+  if (slots_.empty()) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   heap_.clear();
   for (auto& slot : slots_) {
     Status status = slot.iter->Jump(key);
@@ -724,6 +741,9 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
 }
 
 Status ShardDBM::Iterator::JumpLower(std::string_view key, bool inclusive) {
+  if (slots_.empty()) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   heap_.clear();
   for (auto& slot : slots_) {
     Status status = slot.iter->JumpLower(key, inclusive);
@@ -747,6 +767,9 @@ Status ShardDBM::Iterator::JumpLower(std::string_view key, bool inclusive) {
 }
 
 Status ShardDBM::Iterator::JumpUpper(std::string_view key, bool inclusive) {
+  if (slots_.empty()) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   heap_.clear();
   for (auto& slot : slots_) {
     Status status = slot.iter->JumpUpper(key, inclusive);
-- 
2.43.0


From 397881363078134143f1ca7bb60f35b5a6ffcbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 26/54] fix: keep the iterator of a sharded database right
 after updates through it

---
 tkrzw_dbm_shard.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 9f98d93..641a94a 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -878,7 +878,14 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
     bool removed_;
   } checker(proc);
   const Status status = slot->iter->Process(&checker, writable);
+  if (status == Status::SUCCESS && writable && !checker.HasRemoved()) {
+    slot->iter->Get(&slot->key, &slot->value);
+  }
   if (status == Status::SUCCESS && writable && checker.HasRemoved()) {
+    if (!asc_) {
+      const std::string removed_key(slot->key);
+      return Jump(removed_key);
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
     const Status get_status = slot->iter->Get(&slot->key, &slot->value);
@@ -925,6 +932,10 @@ Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value)
   auto* slot = heap_.front();
   const Status status = slot->iter->Remove(old_key, old_value);
   if (status == Status::SUCCESS) {
+    if (!asc_) {
+      const std::string removed_key(slot->key);
+      return Jump(removed_key);
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
     const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-- 
2.43.0


From 88cb0f942224274e681de2730ce143343c307e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 27/54] fix: reopen the old file when renaming a file fails

---
 tkrzw_file_std.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index d493a00..1081e4e 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -233,7 +233,7 @@ Status StdFileImpl::Rename(const std::string& new_path) {
   }
   status = RenameFile(old_path, new_path);
   if (status != Status::SUCCESS) {
-    OpenImpl(new_path, writable, options);
+    status |= OpenImpl(old_path, writable, options);
     return status;
   }
   return OpenImpl(new_path, writable, options);
-- 
2.43.0


From 38ce9c3354b8d2373d9f85bc69ee13c3da46b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 28/54] fix: report the old size when a file is expanded by
 nothing

---
 tkrzw_file_std.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index 1081e4e..f601ba7 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -419,6 +419,9 @@ Status StdFileImpl::AppendImpl(const void* buf, size_t size, int64_t* off) {
 
 Status StdFileImpl::ExpandImpl(size_t inc_size, int64_t* old_size) {
   if (inc_size == 0) {
+    if (old_size != nullptr) {
+      *old_size = file_size_;
+    }
     return Status(Status::SUCCESS);
   }
   file_->clear();
-- 
2.43.0


From 2ae393ce716596ef980f7a5ff768b34a56662058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 29/54] fix: clear the head buffer when a positional file is
 truncated

---
 tkrzw_file_pos.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 8394a8f..36211fe 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -369,6 +369,9 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
     status |= TruncateFile(fd_, size);
   }
   status |= TruncateFile(fd_, new_trunc_size);
+  if (status == Status::SUCCESS && size < head_buffer_size_) {
+    std::memset(head_buffer_ + size, 0, head_buffer_size_ - size);
+  }
   if (status == Status::SUCCESS) {
     file_size_.store(size);
     trunc_size_.store(new_trunc_size);
@@ -1063,6 +1066,9 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
     status |= TruncateFile(fd_, size);
   }
   status |= TruncateFile(fd_, new_trunc_size);
+  if (status == Status::SUCCESS && size < head_buffer_size_) {
+    std::memset(head_buffer_ + size, 0, head_buffer_size_ - size);
+  }
   if (status == Status::SUCCESS) {
     file_size_ = size;
     trunc_size_ = new_trunc_size;
-- 
2.43.0


From 582c2d833b372c4c3963133aae2612291d84c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 30/54] fix: do not overwrite an existing record by operator[]
 of LinkedHashMap

---
 tkrzw_containers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_containers.h b/tkrzw_containers.h
index c172040..0b6c69d 100644
--- a/tkrzw_containers.h
+++ b/tkrzw_containers.h
@@ -1330,7 +1330,7 @@ LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::find(
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
 inline VALUETYPE& LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::operator[](
     const KEYTYPE& key) {
-  return Set(key, VALUETYPE())->value;
+  return Set(key, VALUETYPE(), false)->value;
 }
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
-- 
2.43.0


From c5fbda6f488fbedad7460aeddab56c353bd57a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 31/54] fix: drop the least recently used records when a cache
 database shrinks

---
 tkrzw_dbm_cache.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 906aa82..a3b8acf 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -500,10 +500,11 @@ void CacheSlot::Rebuild(int64_t cap_rec_num, int64_t cap_mem_size) {
   buckets_ = static_cast<char**>(xcalloc(num_buckets_, sizeof(*buckets_)));
   num_records_ = 0;
   eff_data_size_ = 0;
-  char* ptr = first_;
-  last_ = nullptr;
+  // Traverses from the most recently used record so that the least recently used ones are dropped.
+  char* ptr = last_;
+  first_ = nullptr;
   while (ptr != nullptr) {
-    char* next = CacheRecord::GetNext(ptr);
+    char* prev = CacheRecord::GetPrev(ptr);
     if (num_records_ < cap_rec_num_ && GetMemoryUsageImpl() < cap_mem_size_) {
       CacheRecord rec;
       rec.Deserialize(ptr);
@@ -514,16 +515,16 @@ void CacheSlot::Rebuild(int64_t cap_rec_num, int64_t cap_mem_size) {
       buckets_[bucket_index] = ptr;
       num_records_++;
       eff_data_size_ += rec.key_size + rec.value_size;
-      last_ = ptr;
+      first_ = ptr;
     } else {
       xfree(ptr);
     }
-    ptr = next;
+    ptr = prev;
   }
-  if (last_ == nullptr) {
-    first_ = nullptr;
+  if (first_ == nullptr) {
+    last_ = nullptr;
   } else {
-    CacheRecord::SetNext(last_, nullptr);
+    CacheRecord::SetPrev(first_, nullptr);
   }
 }
 
-- 
2.43.0


From 3a3724e52b07196a138a531ec73a52d539d8c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 32/54] fix: recognize the names of the case-insensitive key
 comparators

---
 tkrzw_dbm_poly.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index b147305..2c6d2e9 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -95,7 +95,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "lexicalkeycomparator" || lower_name == "lexical") {
     return LexicalKeyComparator;
   }
-  if (lower_name == "lexicalCasekeycomparator" || lower_name == "lexicalcase") {
+  if (lower_name == "lexicalcasekeycomparator" || lower_name == "lexicalcase") {
     return LexicalCaseKeyComparator;
   }
   if (lower_name == "decimalkeycomparator" || lower_name == "decimal") {
@@ -116,7 +116,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "pairlexicalkeycomparator" || lower_name == "pairlexical") {
     return PairLexicalKeyComparator;
   }
-  if (lower_name == "pairlexicalCasekeycomparator" || lower_name == "pairlexicalcase") {
+  if (lower_name == "pairlexicalcasekeycomparator" || lower_name == "pairlexicalcase") {
     return PairLexicalCaseKeyComparator;
   }
   if (lower_name == "pairdecimalkeycomparator" || lower_name == "pairdecimal") {
-- 
2.43.0


From e504d104f20e759de998b74ce83716c435a98c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 33/54] fix: get the values of all equivalent expressions of an
 index key

---
 tkrzw_index.h | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/tkrzw_index.h b/tkrzw_index.h
index b549083..6577605 100644
--- a/tkrzw_index.h
+++ b/tkrzw_index.h
@@ -587,6 +587,12 @@ class PolyIndex final {
   std::unique_ptr<Iterator> MakeIterator();
 
  private:
+  /**
+   * Gets the key comparator of the internal database.
+   * @return The key comparator, or nullptr if the internal database doesn't have one.
+   */
+  KeyComparator GetKeyComparator() const;
+
   /** The list of the current iterators. */
   std::list<Iterator*> iterators_;
   /** The database manager. */
@@ -938,7 +944,9 @@ inline bool FileIndex::Check(std::string_view key, std::string_view value) {
 inline std::vector<std::string> FileIndex::GetValues(std::string_view key, size_t max) {
   std::vector<std::string> values;
   auto iter = dbm_.MakeIterator();
-  iter->Jump(SerializeStrPair(key, ""));
+  const KeyComparator comp = dbm_.GetKeyComparator();
+  const std::string lower = SerializeStrPair(key, "");
+  iter->Jump(lower);
   std::string record;
   while (true) {
     if (max > 0 && values.size() >= max) {
@@ -949,7 +957,8 @@ inline std::vector<std::string> FileIndex::GetValues(std::string_view key, size_
     }
     std::string_view rec_key, rec_value;
     DeserializeStrPair(record, &rec_key, &rec_value);
-    if (rec_key != key) {
+    if (rec_key != key &&
+        (comp == nullptr || comp(SerializeStrPair(rec_key, ""), lower) != 0)) {
       break;
     }
     values.emplace_back(rec_value);
@@ -1077,7 +1086,9 @@ inline bool PolyIndex::Check(std::string_view key, std::string_view value) {
 inline std::vector<std::string> PolyIndex::GetValues(std::string_view key, size_t max) {
   std::vector<std::string> values;
   auto iter = dbm_.MakeIterator();
-  iter->Jump(SerializeStrPair(key, ""));
+  const KeyComparator comp = GetKeyComparator();
+  const std::string lower = SerializeStrPair(key, "");
+  iter->Jump(lower);
   std::string record;
   while (true) {
     if (max > 0 && values.size() >= max) {
@@ -1088,7 +1099,8 @@ inline std::vector<std::string> PolyIndex::GetValues(std::string_view key, size_
     }
     std::string_view rec_key, rec_value;
     DeserializeStrPair(record, &rec_key, &rec_value);
-    if (rec_key != key) {
+    if (rec_key != key &&
+        (comp == nullptr || comp(SerializeStrPair(rec_key, ""), lower) != 0)) {
       break;
     }
     values.emplace_back(rec_value);
@@ -1137,6 +1149,17 @@ inline PolyDBM* PolyIndex::GetInternalDBM() const {
   return const_cast<PolyDBM*>(&dbm_);
 }
 
+inline KeyComparator PolyIndex::GetKeyComparator() const {
+  DBM* const dbm = dbm_.GetInternalDBM();
+  if (auto* tree_dbm = dynamic_cast<TreeDBM*>(dbm)) {
+    return tree_dbm->GetKeyComparator();
+  }
+  if (auto* baby_dbm = dynamic_cast<BabyDBM*>(dbm)) {
+    return baby_dbm->GetKeyComparator();
+  }
+  return nullptr;
+}
+
 inline std::unique_ptr<PolyIndex::Iterator> PolyIndex::MakeIterator() {
   std::unique_ptr<Iterator> iter(new Iterator(dbm_.MakeIterator()));
   return iter;
@@ -1191,7 +1214,9 @@ inline bool MemIndex::Check(std::string_view key, std::string_view value) {
 inline std::vector<std::string> MemIndex::GetValues(std::string_view key, size_t max) {
   std::vector<std::string> values;
   auto iter = dbm_.MakeIterator();
-  iter->Jump(SerializeStrPair(key, ""));
+  const KeyComparator comp = dbm_.GetKeyComparator();
+  const std::string lower = SerializeStrPair(key, "");
+  iter->Jump(lower);
   std::string record;
   while (true) {
     if (max > 0 && values.size() >= max) {
@@ -1202,7 +1227,8 @@ inline std::vector<std::string> MemIndex::GetValues(std::string_view key, size_t
     }
     std::string_view rec_key, rec_value;
     DeserializeStrPair(record, &rec_key, &rec_value);
-    if (rec_key != key) {
+    if (rec_key != key &&
+        (comp == nullptr || comp(SerializeStrPair(rec_key, ""), lower) != 0)) {
       break;
     }
     values.emplace_back(rec_value);
-- 
2.43.0


From 5ae7e1cfb77ea7e5ffe37ba30f9a1208858c689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 34/54] fix: get values less than the default value in StdIndex

---
 tkrzw_index.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_index.h b/tkrzw_index.h
index 6577605..b21c3d3 100644
--- a/tkrzw_index.h
+++ b/tkrzw_index.h
@@ -14,6 +14,7 @@
 #ifndef _TKRZW_INDEX_H
 #define _TKRZW_INDEX_H
 
+#include <iterator>
 #include <list>
 #include <shared_mutex>
 #include <set>
@@ -1319,7 +1320,10 @@ inline std::vector<VALUETYPE> StdIndex<KEYTYPE, VALUETYPE, CMPTYPE>::GetValues(
   std::shared_lock<std::shared_timed_mutex> lock(mutex_);
   const auto& const_records = records_;
   std::vector<VALUETYPE> values;
-  auto it = records_.lower_bound(std::make_pair(key, VALUETYPE()));
+  auto it = const_records.lower_bound(std::make_pair(key, VALUETYPE()));
+  while (it != const_records.begin() && std::prev(it)->first == key) {
+    --it;
+  }
   while (it != const_records.end()) {
     if (max > 0 && values.size() >= max) {
       break;
-- 
2.43.0


From 24cef1fdcb09051fe2a04fe84b5970a6c760fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:29 +0000
Subject: [PATCH 35/54] fix: change the running flag of the task queue under
 its mutex

---
 tkrzw_thread_util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index e769097..2f51578 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1520,7 +1520,10 @@ inline void TaskQueue::Stop(double timeout) {
     cond_.notify_all();
     SleepThread(0.01);
   }
-  running_.store(false);
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    running_.store(false);
+  }
   cond_.notify_all();
   for (auto& thread : threads_) {
     thread.join();
-- 
2.43.0


From 9071e14340cc0880e17880ee067d075d2aa96df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:29 +0000
Subject: [PATCH 36/54] fix: notify the waiters of the wait counter under its
 mutex

---
 tkrzw_thread_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 2f51578..9e74066 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1561,6 +1561,7 @@ inline int32_t WaitCounter::Get() const {
 
 inline void WaitCounter::Done(int32_t decrement) {
   if (count_.fetch_sub(decrement) <= decrement) {
+    std::lock_guard<std::mutex> lock(mutex_);
     cond_.notify_all();
   }
 }
-- 
2.43.0


From 501b7870c85043dc36c7eafcb8d6626afaaf8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:29 +0000
Subject: [PATCH 37/54] fix: register the waiters of signal brokers so that no
 signal is lost

---
 tkrzw_thread_util.h | 213 +++++++++++++++++++++++++++++---------------
 1 file changed, 141 insertions(+), 72 deletions(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 9e74066..8033a92 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -14,10 +14,13 @@
 #ifndef _TKRZW_THREAD_UTIL_H
 #define _TKRZW_THREAD_UTIL_H
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <list>
+#include <map>
 #include <queue>
 #include <set>
 #include <shared_mutex>
@@ -863,6 +866,7 @@ class SignalBroker final {
    * method should be called if the resource state doesn't satisfy the required condition.
    */
   class Waiter {
+    friend class SignalBroker;
    public:
     /**
      * Constructor.
@@ -880,14 +884,26 @@ class SignalBroker final {
      * @param timeout The timeout in seconds to wait.   Zero means no wait.  Negative means
      * unlimited.
      * @return True if successful or false on timeout.
-     * @details This detects only signals which happen during this method is running.  In other
-     * words, signals which were sent before the call are not ignored.
+     * @details This detects signals which were sent after the construction of this object or, if
+     * a signal has been received by this method before, after the call of this method.
      **/
     bool Wait(double timeout = -1);
 
+    /**
+     * Copy and assignment are disabled.
+     */
+    explicit Waiter(const Waiter& rhs) = delete;
+    Waiter& operator =(const Waiter& rhs) = delete;
+
    private:
     /** The broker object. */
     SignalBroker* broker_;
+    /** Whether the Wait method is running. */
+    bool waiting_;
+    /** Whether a signal has been received. */
+    bool signaled_;
+    /** Whether the received signal was sent only to this waiter. */
+    bool single_;
   };
 
   /**
@@ -904,14 +920,17 @@ class SignalBroker final {
   bool Send(bool all = true);
 
  private:
-  /** The number of waiting threads. */
-  int32_t wait_count_;
-  /** The mutex to guard the counter. */
+  /**
+   * Sends a signal while the mutex is locked.
+   */
+  bool SendImpl(bool all);
+
+  /** The waiters which have not received a signal. */
+  std::list<Waiter*> waiters_;
+  /** The mutex to guard the waiters. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
-  /** The mutex to guard notification. */
-  SpinSharedMutex notify_mutex_;
 };
 
 /**
@@ -927,6 +946,7 @@ class KeySignalBroker final {
    * method should be called if the resource state doesn't satisfy the required condition.
    */
   class Waiter {
+    friend class KeySignalBroker;
    public:
     /**
      * Constructor.
@@ -945,16 +965,28 @@ class KeySignalBroker final {
      * @param timeout The timeout in seconds to wait.   Zero means no wait.  Negative means
      * unlimited.
      * @return True if successful or false on timeout.
-     * @details This detects only signals which happen during this method is running.  In other
-     * words, signals which were sent before the call are not ignored.
+     * @details This detects signals which were sent after the construction of this object or, if
+     * a signal has been received by this method before, after the call of this method.
      **/
     bool Wait(double timeout = -1);
 
+    /**
+     * Copy and assignment are disabled.
+     */
+    explicit Waiter(const Waiter& rhs) = delete;
+    Waiter& operator =(const Waiter& rhs) = delete;
+
    private:
     /** The broker object. */
     KeySignalBroker* broker_;
     /** The key of the signal. */
     KEYTYPE key_;
+    /** Whether the Wait method is running. */
+    bool waiting_;
+    /** Whether a signal has been received. */
+    bool signaled_;
+    /** Whether the received signal was sent only to this waiter. */
+    bool single_;
   };
 
   /**
@@ -972,14 +1004,17 @@ class KeySignalBroker final {
   bool Send(const KEYTYPE& key, bool all = true);
 
  private:
-  /** The set of event keys and the wait count. */
-  std::map<KEYTYPE, int32_t> counts_;
-  /** The mutex to guard the counter. */
+  /**
+   * Sends a signal while the mutex is locked.
+   */
+  bool SendImpl(const KEYTYPE& key, bool all);
+
+  /** The waiters which have not received a signal, for each key. */
+  std::map<KEYTYPE, std::list<Waiter*>> waiters_;
+  /** The mutex to guard the waiters. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
-  /** The mutex to guard notification. */
-  SpinSharedMutex notify_mutex_;
 };
 
 /**
@@ -1008,8 +1043,8 @@ class SlottedKeySignalBroker final {
      * @param timeout The timeout in seconds to wait.   Zero means no wait.  Negative means
      * unlimited.
      * @return True if successful or false on timeout.
-     * @details This detects only signals which happen during this method is running.  In other
-     * words, signals which were sent before the call are not ignored.
+     * @details This detects signals which were sent after the construction of this object or, if
+     * a signal has been received by this method before, after the call of this method.
      **/
     bool Wait(double timeout = -1);
 
@@ -1584,31 +1619,49 @@ inline bool WaitCounter::Wait(double timeout) {
   return true;
 }
 
-inline SignalBroker::SignalBroker() : wait_count_(false), mutex_(), cond_(), notify_mutex_() {}
+inline SignalBroker::SignalBroker() : waiters_(), mutex_(), cond_() {}
 
 inline bool SignalBroker::Send(bool all) {
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (wait_count_ == 0) {
-      return false;
-    }
-    wait_count_ = 0;
+  std::lock_guard<std::mutex> lock(mutex_);
+  return SendImpl(all);
+}
+
+inline bool SignalBroker::SendImpl(bool all) {
+  if (waiters_.empty()) {
+    return false;
   }
-  std::lock_guard lock(notify_mutex_);
   if (all) {
-    cond_.notify_all();
+    for (auto* waiter : waiters_) {
+      waiter->signaled_ = true;
+      waiter->single_ = false;
+    }
+    waiters_.clear();
   } else {
-    cond_.notify_one();
+    auto it = std::find_if(waiters_.begin(), waiters_.end(),
+                           [](Waiter* waiter) { return waiter->waiting_; });
+    if (it == waiters_.end()) {
+      it = waiters_.begin();
+    }
+    (*it)->signaled_ = true;
+    (*it)->single_ = true;
+    waiters_.erase(it);
   }
+  cond_.notify_all();
   return true;
 }
 
-inline SignalBroker::Waiter::Waiter(SignalBroker* broker) : broker_(broker) {
-  broker_->notify_mutex_.lock_shared();
+inline SignalBroker::Waiter::Waiter(SignalBroker* broker)
+    : broker_(broker), waiting_(false), signaled_(false), single_(false) {
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_.emplace_back(this);
 }
 
 inline SignalBroker::Waiter::~Waiter() {
-  broker_->notify_mutex_.unlock_shared();
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_.remove(this);
+  if (signaled_ && single_) {
+    broker_->SendImpl(false);
+  }
 }
 
 inline bool SignalBroker::Waiter::Wait(double timeout) {
@@ -1618,52 +1671,76 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->wait_count_++;
-  while (broker_->wait_count_ != 0) {
-    broker_->notify_mutex_.unlock_shared();
-    auto wait_rv = broker_->cond_.wait_until(lock, deadline);
-    broker_->notify_mutex_.lock_shared();
-    if (wait_rv == std::cv_status::timeout) {
-      if (broker_->wait_count_ == 0) {
-        return true;
-      }
-      broker_->wait_count_--;
-      return false;
-    }
+  auto& waiters = broker_->waiters_;
+  if (!signaled_ && std::find(waiters.begin(), waiters.end(), this) == waiters.end()) {
+    waiters.emplace_back(this);
   }
-  return true;
+  waiting_ = true;
+  const bool received = broker_->cond_.wait_until(lock, deadline, [&]() { return signaled_; });
+  waiting_ = false;
+  signaled_ = false;
+  return received;
 }
 
 template<typename KEYTYPE>
-inline KeySignalBroker<KEYTYPE>::KeySignalBroker()
-    : counts_(), mutex_(), cond_(), notify_mutex_() {}
+inline KeySignalBroker<KEYTYPE>::KeySignalBroker() : waiters_(), mutex_(), cond_() {}
 
 template<typename KEYTYPE>
 inline bool KeySignalBroker<KEYTYPE>::Send(const KEYTYPE& key, bool all) {
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (counts_.erase(key) == 0) {
-      return false;
-    }
+  std::lock_guard<std::mutex> lock(mutex_);
+  return SendImpl(key, all);
+}
+
+template<typename KEYTYPE>
+inline bool KeySignalBroker<KEYTYPE>::SendImpl(const KEYTYPE& key, bool all) {
+  auto map_it = waiters_.find(key);
+  if (map_it == waiters_.end()) {
+    return false;
   }
-  std::lock_guard lock(notify_mutex_);
+  auto& waiters = map_it->second;
   if (all) {
-    cond_.notify_all();
+    for (auto* waiter : waiters) {
+      waiter->signaled_ = true;
+      waiter->single_ = false;
+    }
+    waiters.clear();
   } else {
-    cond_.notify_one();
+    auto it = std::find_if(waiters.begin(), waiters.end(),
+                           [](Waiter* waiter) { return waiter->waiting_; });
+    if (it == waiters.end()) {
+      it = waiters.begin();
+    }
+    (*it)->signaled_ = true;
+    (*it)->single_ = true;
+    waiters.erase(it);
+  }
+  if (waiters.empty()) {
+    waiters_.erase(map_it);
   }
+  cond_.notify_all();
   return true;
 }
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::Waiter::Waiter(KeySignalBroker* broker, const KEYTYPE& key)
-    : broker_(broker), key_(key) {
-  broker_->notify_mutex_.lock_shared();
+    : broker_(broker), key_(key), waiting_(false), signaled_(false), single_(false) {
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_[key_].emplace_back(this);
 }
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::Waiter::~Waiter() {
-  broker_->notify_mutex_.unlock_shared();
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  auto map_it = broker_->waiters_.find(key_);
+  if (map_it != broker_->waiters_.end()) {
+    map_it->second.remove(this);
+    if (map_it->second.empty()) {
+      broker_->waiters_.erase(map_it);
+    }
+  }
+  if (signaled_ && single_) {
+    broker_->SendImpl(key_, false);
+  }
 }
 
 template<typename KEYTYPE>
@@ -1674,25 +1751,17 @@ inline bool KeySignalBroker<KEYTYPE>::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->counts_[key_]++;
-  while (broker_->counts_.find(key_) != broker_->counts_.end()) {
-    broker_->notify_mutex_.unlock_shared();
-    auto wait_rv = broker_->cond_.wait_until(lock, deadline);
-    broker_->notify_mutex_.lock_shared();
-    if (wait_rv == std::cv_status::timeout) {
-      auto it = broker_->counts_.find(key_);
-      if (it == broker_->counts_.end()) {
-        return true;
-      }
-      if (it->second > 1) {
-        it->second--;
-      } else {
-        broker_->counts_.erase(it);
-      }
-      return false;
+  if (!signaled_) {
+    auto& waiters = broker_->waiters_[key_];
+    if (std::find(waiters.begin(), waiters.end(), this) == waiters.end()) {
+      waiters.emplace_back(this);
     }
   }
-  return true;
+  waiting_ = true;
+  const bool received = broker_->cond_.wait_until(lock, deadline, [&]() { return signaled_; });
+  waiting_ = false;
+  signaled_ = false;
+  return received;
 }
 
 template<typename KEYTYPE>
-- 
2.43.0


From 9a6b33b74a1de4be6ad868bc46447277382f5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:28 +0000
Subject: [PATCH 38/54] fix: overwrite existing records in SkipDBM::Set with
 the old value

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 05bec97..477550b 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1791,7 +1791,7 @@ Status SkipDBM::Set(std::string_view key, std::string_view value, bool overwrite
   if (overwrite && old_value == nullptr) {
     return impl_->Insert(key, value);
   }
-  return DBM::Set(key, value, false, old_value);
+  return DBM::Set(key, value, overwrite, old_value);
 }
 
 Status SkipDBM::Remove(std::string_view key, std::string* old_value) {
-- 
2.43.0


From 4d5729da400beb065bb2d343f15adb3f1eaf11d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:28 +0000
Subject: [PATCH 39/54] fix: use the published number of records in iterators
 of SkipDBM

---
 tkrzw_dbm_skip.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 477550b..1f0d43d 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -332,6 +332,8 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
     auto_restored_ = true;
   }
   path_ = norm_path;
+  old_num_records_ = num_records_;
+  old_eff_data_size_ = eff_data_size_;
   if (writable && healthy) {
     status = SaveMetadata(file_.get(), false);
     if (status != Status::SUCCESS) {
@@ -1503,9 +1505,9 @@ Status SkipDBMIteratorImpl::Last() {
   if (!dbm_->open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-  if (dbm_->num_records_ > 0) {
+  if (dbm_->old_num_records_ > 0) {
     SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
-    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->old_num_records_ - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1548,11 +1550,11 @@ Status SkipDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
   SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
   Status status = rec.Search(METADATA_SIZE, dbm_->cache_.get(), key, true);
   if (status == Status::NOT_FOUND_ERROR) {
-    if (dbm_->num_records_ < 1) {
+    if (dbm_->old_num_records_ < 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->old_num_records_ - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1609,7 +1611,7 @@ Status SkipDBMIteratorImpl::JumpUpper(std::string_view key, bool inclusive) {
     if (ok) {
       return Status(Status::SUCCESS);
     }
-    if (record_index_ == dbm_->num_records_ - 1) {
+    if (record_index_ == dbm_->old_num_records_ - 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-- 
2.43.0


From b5b01d85768ce8973148a664677a2be6f9de8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:29 +0000
Subject: [PATCH 40/54] fix: apply removals when the first batch of SkipDBM is
 published

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 1f0d43d..14a5ccb 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1257,7 +1257,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   Status status(Status::SUCCESS);
   if (reducer == nullptr && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
-      !record_sorter_->IsUpdated()) {
+      !record_sorter_->IsUpdated() && !removed_) {
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
-- 
2.43.0


From ec2fe239634092764d452df53c68749b5fb6e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:29 +0000
Subject: [PATCH 41/54] fix: put existing records before merged ones in SkipDBM

---
 tkrzw_dbm_skip.cc      | 2 +-
 tkrzw_dbm_skip_impl.cc | 4 ++--
 tkrzw_dbm_skip_impl.h  | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 14a5ccb..8606f95 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1276,7 +1276,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
-          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE);
+          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE, true);
     }
     if (sorted_file_ != nullptr &&
         sorted_file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index de149e1..fe38a5e 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -561,8 +561,8 @@ Status RecordSorter::Add(std::string_view key, std::string_view value) {
   return status;
 }
 
-void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base) {
-  skip_records_.emplace_back(rec, record_base);
+void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base, bool first) {
+  skip_records_.emplace(first ? skip_records_.begin() : skip_records_.end(), rec, record_base);
 }
 
 void RecordSorter::TakeFileOwnership(std::unique_ptr<File>&& file) {
diff --git a/tkrzw_dbm_skip_impl.h b/tkrzw_dbm_skip_impl.h
index 1bb990c..46be5c0 100644
--- a/tkrzw_dbm_skip_impl.h
+++ b/tkrzw_dbm_skip_impl.h
@@ -300,8 +300,9 @@ class RecordSorter final {
    * Adds a file of SkipRecord.
    * @param rec The pointer to a skip record, whose ownership is taken.
    * @param record_base The record base offset.
+   * @param first If true, records of the file come before records of the files added already.
    */
-  void AddSkipRecord(SkipRecord* rec, int64_t record_base);
+  void AddSkipRecord(SkipRecord* rec, int64_t record_base, bool first = false);
 
   /**
    * Takes ownership of a file object.
-- 
2.43.0


From 8c8b14311ad5eee936bee14385d91bffccb3f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:29 +0000
Subject: [PATCH 42/54] fix: lock out readers while a skip database is merged

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 8606f95..fb44b19 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1033,7 +1033,7 @@ bool SkipDBMImpl::IsUpdated() {
 }
 
 Status SkipDBMImpl::MergeSkipDatabase(const std::string& src_path) {
-  std::shared_lock<SpinSharedMutex> lock(mutex_);
+  std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-- 
2.43.0


From b90470d9ba2ac6af60683e9573939f6146695197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:29 +0000
Subject: [PATCH 43/54] fix: keep the delimiters after empty elements in
 StrJoin

---
 tkrzw_str_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 12411a3..5422edf 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -247,11 +247,13 @@ std::string IntToStrDelta(uint64_t data, bool zigzag);
 template <typename T>
 std::string StrJoin(const T& elems, std::string_view delim) {
   std::string str;
+  bool first = true;
   for (const auto& elem : elems) {
-    if (!str.empty()) {
+    if (!first) {
       str += delim;
     }
     str += ToString(elem);
+    first = false;
   }
   return str;
 }
-- 
2.43.0


From 39def11125ccd6e8cb578fda3e721a179ac6fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:29 +0000
Subject: [PATCH 44/54] fix: refuse ProcessMulti of a PolyDBM not opened

---
 tkrzw_dbm_poly.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index 2c6d2e9..4791c93 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -633,6 +633,9 @@ Status PolyDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
 Status PolyDBM::ProcessMulti(
     const std::vector<std::pair<std::string_view, RecordProcessor*>>& key_proc_pairs,
     bool writable) {
+  if (dbm_ == nullptr) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   return dbm_->ProcessMulti(key_proc_pairs, writable);
 }
 
-- 
2.43.0


From 708bbadfb32d688a7cbf16caea476676dcfdb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:47 +0000
Subject: [PATCH 45/54] fix: forget the settings of a failed open

---
 tkrzw_dbm_hash.cc |  1 +
 tkrzw_dbm_skip.cc | 10 ++++++++++
 tkrzw_dbm_tree.cc |  5 +++++
 3 files changed, 16 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index ec20808..de61f44 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -261,6 +261,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
     return Status(Status::PRECONDITION_ERROR, "opened database");
   }
   const std::string norm_path = NormalizePath(path);
+  CloseImpl();
   SetTuning(tuning_params);
   Status status = CheckFileBeforeOpen(file_.get(), path, writable);
   if (status != Status::SUCCESS) {
diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index fb44b19..e51153d 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -216,6 +216,16 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
     return Status(Status::PRECONDITION_ERROR, "opened database");
   }
   const std::string norm_path = NormalizePath(path);
+  offset_width_ = SkipDBM::DEFAULT_OFFSET_WIDTH;
+  step_unit_ = SkipDBM::DEFAULT_STEP_UNIT;
+  max_level_ = SkipDBM::DEFAULT_MAX_LEVEL;
+  closure_flags_ = CLOSURE_FLAG_NONE;
+  num_records_ = 0;
+  eff_data_size_ = 0;
+  db_type_ = 0;
+  opaque_.clear();
+  sort_mem_size_ = SkipDBM::DEFAULT_SORT_MEM_SIZE;
+  max_cached_records_ = SkipDBM::DEFAULT_MAX_CACHED_RECORDS;
   if (tuning_params.offset_width >= 0) {
     offset_width_ = std::min(std::max(static_cast<int32_t>(
         tuning_params.offset_width), MIN_OFFSET_WIDTH), MAX_OFFSET_WIDTH);
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index f45e01a..d7cfe47 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -395,6 +395,11 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     return Status(Status::PRECONDITION_ERROR, "opened database");
   }
   const std::string norm_path = NormalizePath(path);
+  max_page_size_ = TreeDBM::DEFAULT_MAX_PAGE_SIZE;
+  max_branches_ = TreeDBM::DEFAULT_MAX_BRANCHES;
+  max_cached_pages_ = TreeDBM::DEFAULT_MAX_CACHED_PAGES;
+  key_comparator_ = nullptr;
+  mini_opaque_.clear();
   HashDBM::TuningParameters hash_params = tuning_params;
   hash_params.offset_width = tuning_params.offset_width >= 0 ?
       tuning_params.offset_width : TreeDBM::DEFAULT_OFFSET_WIDTH;
-- 
2.43.0


From 7530bc9969abed9d3b374ce47381df26591d16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:47 +0000
Subject: [PATCH 46/54] fix: refuse to update records by iterators of read-only
 databases

---
 tkrzw_dbm_hash.cc | 8 ++++++++
 tkrzw_dbm_skip.cc | 8 ++++++++
 tkrzw_dbm_tree.cc | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index de61f44..ba949bc 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -2349,6 +2349,14 @@ Status HashDBMIteratorImpl::Next() {
 
 Status HashDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable && dbm_->open_) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   const Status status = ReadKeys();
   if (status != Status::SUCCESS) {
     return status;
diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index e51153d..50ef964 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1683,6 +1683,14 @@ Status SkipDBMIteratorImpl::Previous() {
 Status SkipDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
     std::lock_guard<SpinSharedMutex> lock(dbm_->mutex_);
+    if (dbm_->open_) {
+      if (!dbm_->writable_) {
+        return Status(Status::PRECONDITION_ERROR, "not writable database");
+      }
+      if (!dbm_->healthy_) {
+        return Status(Status::PRECONDITION_ERROR, "not healthy database");
+      }
+    }
     if (record_offset_ < 0 || record_offset_ >= dbm_->file_->GetSizeSimple()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index d7cfe47..8c187b6 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2277,6 +2277,14 @@ Status TreeDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
     }
   }
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable && dbm_->open_) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   if (key_ptr_ == nullptr) {
     return Status(Status::NOT_FOUND_ERROR);
   }
-- 
2.43.0


From d1529a07e846464edddca4687fddf810de12304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 47/54] fix: truncate a file only after it is locked

---
 tkrzw_file_mmap.cc | 24 ++++++++++++++++++------
 tkrzw_file_pos.cc  | 24 ++++++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index f4a6e24..17bc58b 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -110,9 +110,6 @@ Status MemoryMapParallelFileImpl::Open(
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   const int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
@@ -136,6 +133,15 @@ Status MemoryMapParallelFileImpl::Open(
     }
   }
 
+  // Discards the existing content, which no other process is using now.
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+  }
+
   // Checks the file size and type.
   struct stat sbuf;
   if (fstat(fd, &sbuf) != 0) {
@@ -682,9 +688,6 @@ Status MemoryMapAtomicFileImpl::Open(
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   const int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
@@ -708,6 +711,15 @@ Status MemoryMapAtomicFileImpl::Open(
     }
   }
 
+  // Discards the existing content, which no other process is using now.
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+  }
+
   // Checks the file size and type.
   struct stat sbuf;
   if (fstat(fd, &sbuf) != 0) {
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 36211fe..65d1081 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -132,9 +132,6 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToOpenFlag(&oflags);
@@ -168,6 +165,15 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     }
   }
 
+  // Discards the existing content, which no other process is using now.
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+  }
+
   // Checks the file size and type.
   struct stat sbuf;
   if (fstat(fd, &sbuf) != 0) {
@@ -838,9 +844,6 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToOpenFlag(&oflags);
@@ -871,6 +874,15 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     }
   }
 
+  // Discards the existing content, which no other process is using now.
+  if (writable && (options & File::OPEN_TRUNCATE)) {
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+  }
+
   // Checks the file size and type.
   struct stat sbuf;
   if (fstat(fd, &sbuf) != 0) {
-- 
2.43.0


From 3feabf0727247d1c36898abb75f8564cd917cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 48/54] fix: check the parameters of the update logger before
 opening databases

---
 tkrzw_dbm_poly.cc  | 23 ++++++++++++-----------
 tkrzw_dbm_shard.cc | 34 ++++++++++++++++------------------
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index 4791c93..7a5edfa 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -373,6 +373,16 @@ Status PolyDBM::OpenAdvanced(
       mod_params.emplace(param);
     }
   }
+  std::unique_ptr<MessageQueue> ulog_mq;
+  std::unique_ptr<UpdateLogger> ulog;
+  Status ulog_status = MakeOwnedUpdateLogger(&ulog_params, &ulog_mq, &ulog);
+  if (!ulog_params.empty()) {
+    ulog_status |= Status(Status::INVALID_ARGUMENT_ERROR,
+                          StrCat("unsupported parameter: ", ulog_params.begin()->first));
+  }
+  if (ulog_status != Status::SUCCESS) {
+    return ulog_status;
+  }
   std::string class_name = StrLowerCase(SearchMap(mod_params, "dbm", ""));
   if (class_name.empty()) {
     class_name = GuessClassNameFromPath(path);
@@ -550,17 +560,8 @@ Status PolyDBM::OpenAdvanced(
   } else {
     return Status(Status::INVALID_ARGUMENT_ERROR, "unknown DBM class");
   }
-  Status status = MakeOwnedUpdateLogger(&ulog_params, &ulog_mq_, &ulog_);
-  if (!ulog_params.empty()) {
-    status |= Status(Status::INVALID_ARGUMENT_ERROR,
-                     StrCat("unsupported parameter: ", ulog_params.begin()->first));
-  }
-  if (status != Status::SUCCESS) {
-    ulog_.reset(nullptr);
-    ulog_mq_.reset(nullptr);
-    dbm_.reset(nullptr);
-    return status;
-  }
+  ulog_mq_ = std::move(ulog_mq);
+  ulog_ = std::move(ulog);
   if (ulog_ != nullptr) {
     dbm_->SetUpdateLogger(ulog_.get());
   }
diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 641a94a..0dfff77 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -81,10 +81,6 @@ Status ShardDBM::OpenAdvanced(
       }
     }
   }
-  dbms_.reserve(num_shards);
-  for (int32_t i = 0; i < num_shards; i++) {
-    dbms_.emplace_back(std::make_unique<PolyDBM>());
-  }
   std::map<std::string, std::string> mod_params, ulog_params;
   for (const auto& param : params) {
     if (StrBeginsWith(param.first, "ulog_")) {
@@ -93,6 +89,20 @@ Status ShardDBM::OpenAdvanced(
       mod_params.emplace(param);
     }
   }
+  std::unique_ptr<MessageQueue> ulog_mq;
+  std::unique_ptr<UpdateLogger> ulog;
+  Status ulog_status = MakeOwnedUpdateLogger(&ulog_params, &ulog_mq, &ulog);
+  if (!ulog_params.empty()) {
+    ulog_status |= Status(Status::INVALID_ARGUMENT_ERROR,
+                          StrCat("unsupported parameter: ", ulog_params.begin()->first));
+  }
+  if (ulog_status != Status::SUCCESS) {
+    return ulog_status;
+  }
+  dbms_.reserve(num_shards);
+  for (int32_t i = 0; i < num_shards; i++) {
+    dbms_.emplace_back(std::make_unique<PolyDBM>());
+  }
   mod_params.erase("num_shards");
   for (int32_t i = 0; i < static_cast<int32_t>(dbms_.size()); i++) {
     std::string shard_path;
@@ -108,20 +118,8 @@ Status ShardDBM::OpenAdvanced(
       return status;
     }
   }
-  Status status = MakeOwnedUpdateLogger(&ulog_params, &ulog_mq_, &ulog_);
-  if (!ulog_params.empty()) {
-    status |= Status(Status::INVALID_ARGUMENT_ERROR,
-                     StrCat("unsupported parameter: ", ulog_params.begin()->first));
-  }
-  if (status != Status::SUCCESS) {
-    ulog_.reset(nullptr);
-    ulog_mq_.reset(nullptr);
-    for (int32_t i = dbms_.size() - 1; i >= 0; i--) {
-      dbms_[i]->Close();
-    }
-    dbms_.clear();
-    return status;
-  }
+  ulog_mq_ = std::move(ulog_mq);
+  ulog_ = std::move(ulog);
   open_ = true;
   path_ = path;
   if (ulog_ != nullptr) {
-- 
2.43.0


From 8584f2cf08e632b6c9c9f5991e57787a85af513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 49/54] fix: refuse unknown key comparators in PolyDBM

---
 tkrzw_dbm_poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index 7a5edfa..3bbea5b 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -416,7 +416,7 @@ Status PolyDBM::OpenAdvanced(
     }
     TreeDBM::TuningParameters tuning_params;
     SetTreeTuningParams(&mod_params, &tuning_params);
-    if (!SearchMap(mod_params, "key_comparator", "").empty() &&
+    if (!SearchMap(params, "key_comparator", "").empty() &&
         tuning_params.key_comparator == nullptr) {
       return Status(Status::INVALID_ARGUMENT_ERROR, "unsupported key comparator");
     }
-- 
2.43.0


From dbc50fb81daa5bc0de21ca246a81f2ce32e3f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 50/54] fix: close a cleared skip database as a healthy one

---
 tkrzw_dbm_skip.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 50ef964..330c2fe 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -716,7 +716,6 @@ Status SkipDBMImpl::Clear() {
   file_size_ = file_->GetSizeSimple();
   timestamp_ = GetWallTime() * 1000000;
   status |= SaveMetadata(file_.get(), false);
-  status |= LoadMetadata();
   status |= PrepareStorage();
   cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
   return status;
-- 
2.43.0


From b5898272a0d06c4cbffe8046d3cff7e5901cbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 51/54] fix: refuse to update unhealthy databases by Clear,
 Rebuild and setters of metadata

---
 tkrzw_dbm_hash.cc | 12 ++++++++++++
 tkrzw_dbm_skip.cc | 12 ++++++++++++
 tkrzw_dbm_tree.cc |  8 +++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index ba949bc..35af760 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -662,6 +662,9 @@ Status HashDBMImpl::Clear() {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   if (update_logger_ != nullptr) {
     const Status status = update_logger_->WriteClear();
     if (status != Status::SUCCESS) {
@@ -702,6 +705,9 @@ Status HashDBMImpl::Rebuild(
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   if (!rebuild_mutex_.try_lock()) {
     return Status(Status::SUCCESS);
   }
@@ -898,6 +904,9 @@ Status HashDBMImpl::SetDatabaseTypeMetadata(uint32_t db_type) {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   db_type_ = db_type;
   return Status(Status::SUCCESS);
 }
@@ -918,6 +927,9 @@ Status HashDBMImpl::SetOpaqueMetadata(const std::string& opaque) {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   opaque_ = opaque;
   return Status(Status::SUCCESS);
 }
diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 330c2fe..799f6d4 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -691,6 +691,9 @@ Status SkipDBMImpl::Clear() {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   if (update_logger_ != nullptr) {
     const Status status = update_logger_->WriteClear();
     if (status != Status::SUCCESS) {
@@ -730,6 +733,9 @@ Status SkipDBMImpl::Rebuild(
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   if (updated_) {
     const Status status = FinishStorage(nullptr);
     if (status != Status::SUCCESS) {
@@ -996,6 +1002,9 @@ Status SkipDBMImpl::SetDatabaseTypeMetadata(uint32_t db_type) {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   db_type_ = db_type;
   return Status(Status::SUCCESS);
 }
@@ -1016,6 +1025,9 @@ Status SkipDBMImpl::SetOpaqueMetadata(const std::string& opaque) {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   opaque_ = opaque;
   return Status(Status::SUCCESS);
 }
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 8c187b6..1c7c79a 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -528,7 +528,7 @@ Status TreeDBMImpl::Close() {
   }
   status |= FlushLeafCacheAll(true);
   status |= FlushInnerCacheAll(true);
-  if (writable_) {
+  if (writable_ && healthy_) {
     status |= SaveMetadata();
   }
   status |= hash_dbm_->Close();
@@ -819,6 +819,9 @@ Status TreeDBMImpl::Clear() {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   if (update_logger_ != nullptr) {
     const Status status = update_logger_->WriteClear();
     if (status != Status::SUCCESS) {
@@ -1118,6 +1121,9 @@ Status TreeDBMImpl::SetOpaqueMetadata(const std::string& opaque) {
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable database");
   }
+  if (!healthy_) {
+    return Status(Status::PRECONDITION_ERROR, "not healthy database");
+  }
   mini_opaque_ = opaque;
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From fbbd1ec3225de2c16b2685ff83c3be0b786079fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 52/54] fix: forget records of a damaged file whose import
 failed

---
 tkrzw_dbm_baby.cc  | 7 +++++++
 tkrzw_dbm_cache.cc | 4 ++++
 tkrzw_dbm_std.cc   | 3 +++
 tkrzw_dbm_tiny.cc  | 6 ++++++
 4 files changed, 20 insertions(+)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 80e0a95..382651c 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -382,6 +382,13 @@ Status BabyDBMImpl::Open(const std::string& path, bool writable, int32_t options
   status = ImportRecords();
   if (status != Status::SUCCESS) {
     file_->Close();
+    for (auto* iterator : iterators_) {
+      iterator->ClearPosition();
+    }
+    FreeNodes();
+    InitializeNodes();
+    num_records_.store(0);
+    timestamp_ = 0;
     return status;
   }
   open_ = true;
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index a3b8acf..2d49717 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -631,6 +631,10 @@ Status CacheDBMImpl::Open(const std::string& path, bool writable, int32_t option
   status = ImportRecords();
   if (status != Status::SUCCESS) {
     file_->Close();
+    CleanUpAllSlots();
+    CancelIterators();
+    InitAllSlots();
+    timestamp_ = 0;
     return status;
   }
   open_ = true;
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 4b9f5c1..ccf7cb4 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -138,6 +138,9 @@ Status StdDBMImpl<STRMAP>::Open(const std::string& path, bool writable, int32_t
   status = ImportRecords();
   if (status != Status::SUCCESS) {
     file_->Close();
+    CancelIterators();
+    map_.clear();
+    timestamp_ = 0;
     return status;
   }
   open_ = true;
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 4861467..f9a530f 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -244,6 +244,12 @@ Status TinyDBMImpl::Open(const std::string& path, bool writable, int32_t options
   status = ImportRecords();
   if (status != Status::SUCCESS) {
     file_->Close();
+    ReleaseAllRecords();
+    CancelIterators();
+    xfree(buckets_);
+    InitializeBuckets();
+    timestamp_ = 0;
+    num_records_.store(0);
     return status;
   }
   open_ = true;
-- 
2.43.0


From 54188bf954d18a576fe2f739722edfd23348ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:33 +0000
Subject: [PATCH 53/54] fix: AsyncDBM::SetMulti respects the overwrite flag

---
 tkrzw_dbm_async.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_async.h b/tkrzw_dbm_async.h
index 77479f4..1e37074 100644
--- a/tkrzw_dbm_async.h
+++ b/tkrzw_dbm_async.h
@@ -223,7 +223,7 @@ class AsyncDBM final {
    */
   std::future<Status> SetMulti(
       const std::map<std::string, std::string>& records, bool overwrite = true) {
-    return SetMulti(MakeStrViewMapFromRecords(records));
+    return SetMulti(MakeStrViewMapFromRecords(records), overwrite);
   }
 
   /**
-- 
2.43.0


From 7387e740f5203da5296ca863e0e1b7a56297b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:33 +0000
Subject: [PATCH 54/54] fix: order search accepts capacity 0 as unlimited and
 clears the result first

---
 tkrzw_dbm_common_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 278628e..11d839a 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -113,6 +113,10 @@ Status SearchDBMLambda(
 Status SearchDBMOrder(DBM* dbm, std::string_view pattern, bool upper, bool inclusive,
                       std::vector<std::string>* matched, size_t capacity) {
   assert(dbm != nullptr && matched != nullptr);
+  if (capacity == 0) {
+    capacity = SIZE_MAX;
+  }
+  matched->clear();
   auto iter = dbm->MakeIterator();
   Status status =
       upper ? iter->JumpUpper(pattern, inclusive) : iter->JumpLower(pattern, inclusive);
-- 
2.43.0

