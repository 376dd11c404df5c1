From 92e067941d76c89df4601d226c2507516b9b9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 01/31] fix: a refused priority leaves the table unchanged and
 its worker running

Table stored an item before its selectors accepted the priority, so that an
item with a NaN or negative priority stayed in a table with a prioritized
selector without ever being selectable or evictable, and made the table
worker terminate.
---
 reverb/cc/table.cc | 44 +++++++++++++++++++++++++++++++-------------
 reverb/cc/table.h  |  4 ++++
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 89ccc23..7778a53 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -237,8 +237,11 @@ absl::Status Table::TableWorkerLoop() {
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
           rate_limiter_->CreateInstantInsertEvent(&mu_);
-          REVERB_RETURN_IF_ERROR(
-              InsertOrAssignInternal(current_inserts[insert_idx++]));
+          // An item with an invalid priority must not stop the worker.
+          auto status = InsertOrAssignInternal(current_inserts[insert_idx++]);
+          REVERB_LOG_IF(REVERB_ERROR, !status.ok())
+              << "Item could not be inserted into table " << name_ << ": "
+              << status;
           progress++;
         }
         // Skip sampling requests which timed out already.
@@ -513,10 +516,15 @@ absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
     // Set the insertion timestamp after the lock has been acquired as this
     // represents the order it was inserted into the sampler and remover.
     EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());
-    data_[key] = std::make_shared<Item>(std::move(item));
 
-    REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
-    REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
+    // The selectors reject invalid priorities. Nothing is changed in that case
+    // and another insert is allowed to proceed.
+    auto status = InsertIntoSelectors(key, priority);
+    if (!status.ok()) {
+      rate_limiter_->MaybeSignalCondVars(&mu_);
+      return status;
+    }
+    data_[key] = std::make_shared<Item>(std::move(item));
 
     auto it = data_.find(key);
     ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
@@ -583,10 +591,9 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
   // Set the insertion timestamp after the lock has been acquired as this
   // represents the order it was inserted into the sampler and remover.
   EncodeAsTimestampProto(absl::Now(), item->item.mutable_inserted_at());
-  data_[key] = std::move(item);
 
-  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
-  REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
+  REVERB_RETURN_IF_ERROR(InsertIntoSelectors(key, priority));
+  data_[key] = std::move(item);
 
   auto it = data_.find(key);
   ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
@@ -905,14 +912,27 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
   }
 }
 
+absl::Status Table::InsertIntoSelectors(Key key, double priority) {
+  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
+  auto status = remover_->Insert(key, priority);
+  if (!status.ok()) {
+    REVERB_CHECK_OK(sampler_->Delete(key));
+  }
+  return status;
+}
+
 absl::Status Table::UpdateItem(Key key, double priority) {
   auto it = data_.find(key);
   if (it == data_.end()) {
     return absl::OkStatus();
   }
-  it->second->item.set_priority(priority);
   REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));
-  REVERB_RETURN_IF_ERROR(remover_->Update(key, priority));
+  auto status = remover_->Update(key, priority);
+  if (!status.ok()) {
+    REVERB_CHECK_OK(sampler_->Update(key, it->second->item.priority()));
+    return status;
+  }
+  it->second->item.set_priority(priority);
   ExtensionOperation(ExtensionRequest::CallType::kUpdate, it->second);
 
   return absl::OkStatus();
@@ -1005,9 +1025,7 @@ absl::Status Table::InsertCheckpointItem(Table::Item item) {
       << item.item.key();
 
   REVERB_RETURN_IF_ERROR(
-      sampler_->Insert(item.item.key(), item.item.priority()));
-  REVERB_RETURN_IF_ERROR(
-      remover_->Insert(item.item.key(), item.item.priority()));
+      InsertIntoSelectors(item.item.key(), item.item.priority()));
 
   const auto key = item.item.key();
   auto it = data_.emplace(key, std::make_shared<Item>(std::move(item))).first;
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 4c27e75..6400564 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -383,6 +383,10 @@ class Table {
   // and performs enqueued table operations (inserts, mutations, sampling...).
   absl::Status TableWorkerLoop();
 
+  // Inserts the key into both selectors or, on error, into neither of them.
+  absl::Status InsertIntoSelectors(Key key, double priority)
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Updates item priority in `data_`, `samper_`, `remover_` and calls
   // `OnUpdate` on all extensions.
   absl::Status UpdateItem(Key key, double priority)
-- 
2.43.0


From fadb09edf1a4b889837ba2e934e481f1c8726584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 02/31] fix: the rate limiter event history includes the newest
 completed event

GetEventHistory dropped the last event before the first active one (or the
newest event of all), although all completed events since the requested id
are documented to be returned.
---
 reverb/cc/rate_limiter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/rate_limiter.cc b/reverb/cc/rate_limiter.cc
index 0563005..3d5b7e1 100644
--- a/reverb/cc/rate_limiter.cc
+++ b/reverb/cc/rate_limiter.cc
@@ -302,11 +302,11 @@ std::vector<RateLimiterEvent> RateLimiter::StatsManager::GetEventHistory(
   const size_t max_event_id =
       active_.empty() ? next_event_id_
                       : *std::min_element(active_.begin(), active_.end());
-  if (max_event_id < min_event_id + 1) {
+  if (max_event_id <= min_event_id) {
     return {};
   }
 
-  std::vector<RateLimiterEvent> copy(max_event_id - min_event_id - 1);
+  std::vector<RateLimiterEvent> copy(max_event_id - min_event_id);
   for (size_t i = 0; i < copy.size(); i++) {
     copy[i] = events_[(min_event_id + i) % events_.size()];
   }
-- 
2.43.0


From fba79a07627dac495566694e71d2c224fc9b05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 03/31] fix: a checkpoint whose data could not be written is
 not marked complete

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 81848d5..1ca0549 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -184,6 +184,9 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
         table_writer->WriteRecord(checkpoint.checkpoint.SerializeAsString())));
   }
 
+  // `Close` does not flush the underlying file so without the explicit flush a
+  // failed write would go unnoticed.
+  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(table_writer->Flush()));
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(table_writer->Close()));
   table_writer = nullptr;
 
@@ -195,6 +198,7 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
     REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
         chunk_writer->WriteRecord(chunk->data().SerializeAsString())));
   }
+  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(chunk_writer->Flush()));
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(chunk_writer->Close()));
   chunk_writer = nullptr;
 
-- 
2.43.0


From e2f4e4a0540b61e5216216cff3aaf4b5106240b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 04/31] fix: checkpoint names order by time across changes of
 the UTC offset

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 1ca0549..1806148 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -167,8 +167,11 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
         "Setting non-empty group is not supported");
   }
 
-  std::string dir_path =
-      tensorflow::io::JoinPath(root_dir_, absl::FormatTime(absl::Now()));
+  // Checkpoints are ordered by name so the name must not depend on the UTC
+  // offset of the local time zone, which changes with daylight saving time.
+  std::string dir_path = tensorflow::io::JoinPath(
+      root_dir_, absl::FormatTime(absl::RFC3339_full, absl::Now(),
+                                  absl::UTCTimeZone()));
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
       tensorflow::Env::Default()->RecursivelyCreateDir(dir_path)));
 
-- 
2.43.0


From 392b51180a5ab2bf10e516f3af560e2b77595fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 05/31] fix: interrupted checkpoints do not count towards
 keep_latest

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 1806148..09f8a50 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -217,7 +217,11 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
   std::sort(filenames.begin(), filenames.end());
   int history_counter = 0;
   for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
-    if (++history_counter > keep_latest) {
+    if (history_counter < keep_latest) {
+      // Checkpoints that were never completed cannot be loaded and thus must
+      // not take the place of one that can.
+      if (HasDone(*it)) history_counter++;
+    } else {
       tensorflow::int64 undeleted_files;
       tensorflow::int64 undeleted_dirs;
       REVERB_RETURN_IF_ERROR(
-- 
2.43.0


From 747987b71c230e50d5f935dc020bf97104991a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 06/31] fix: a complete batch is handed out after the last item
 was pushed

---
 reverb/cc/support/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/support/queue.h b/reverb/cc/support/queue.h
index 2858ed6..19c99f1 100644
--- a/reverb/cc/support/queue.h
+++ b/reverb/cc/support/queue.h
@@ -116,7 +116,7 @@ class Queue {
       return absl::CancelledError("Queue is closed.");
     }
 
-    if (last_item_pushed_) {
+    if (last_item_pushed_ && pushes_ - pops_ < batch_size) {
       return absl::ResourceExhaustedError(absl::StrCat(
           "The last item have been pushed to the queue and the current size (",
           pushes_ - pops_, ") is less than the batch size (", batch_size, ").")
-- 
2.43.0


From 783194f9d5c56e016aff8765a433b6775569a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 07/31] fix: the chunk store cleaner keeps a chunk that was
 inserted again

---
 reverb/cc/chunk_store.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/chunk_store.cc b/reverb/cc/chunk_store.cc
index 96f10cb..08cffc3 100644
--- a/reverb/cc/chunk_store.cc
+++ b/reverb/cc/chunk_store.cc
@@ -123,7 +123,11 @@ bool ChunkStore::CleanupInternal(int num_chunks) {
 
   absl::WriterMutexLock data_lock(&mu_);
   for (const Key& key : popped_keys) {
-    data_.erase(key);
+    // The key may have been inserted again since its previous chunk expired.
+    auto it = data_.find(key);
+    if (it != data_.end() && it->second.expired()) {
+      data_.erase(it);
+    }
   }
 
   return true;
-- 
2.43.0


From 4a8f4da9c4015db87b812d7bf5b0343ddb255428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 08/31] fix: delta encoding of a tensor without rows reads
 nothing

---
 reverb/cc/tensor_compression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/tensor_compression.cc b/reverb/cc/tensor_compression.cc
index 169a5eb..1dfbfa5 100644
--- a/reverb/cc/tensor_compression.cc
+++ b/reverb/cc/tensor_compression.cc
@@ -55,7 +55,7 @@ tensorflow::Tensor DeltaEncode(const tensorflow::Tensor& tensor, bool encode) {
 }  // namespace
 
 tensorflow::Tensor DeltaEncode(const tensorflow::Tensor& tensor, bool encode) {
-  if (tensor.dims() < 2) return tensor;
+  if (tensor.dims() < 2 || tensor.NumElements() == 0) return tensor;
 
   switch (tensor.dtype()) {
 #define DELTA_ENCODE(T)                      \
-- 
2.43.0


From 881a5e213f869d7a83d79decd466d59c6db4fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 09/31] fix: slices with a negative or overflowing length, or
 of a scalar, are rejected

---
 reverb/cc/support/trajectory_util.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/support/trajectory_util.cc b/reverb/cc/support/trajectory_util.cc
index 704c697..71b8184 100644
--- a/reverb/cc/support/trajectory_util.cc
+++ b/reverb/cc/support/trajectory_util.cc
@@ -163,10 +163,12 @@ absl::Status UnpackChunkColumnAndSlice(const ChunkData& chunk_data, int column,
                                        tensorflow::Tensor* out) {
   REVERB_RETURN_IF_ERROR(UnpackChunkColumn(chunk_data, column, out));
 
-  if (offset < 0 || offset + length > out->shape().dim_size(0)) {
+  const int64_t end = static_cast<int64_t>(offset) + length;
+  if (out->dims() == 0 || offset < 0 || length < 0 ||
+      end > out->shape().dim_size(0)) {
     return absl::InvalidArgumentError(absl::StrCat(
-        "Cannot slice (", offset, ", ", offset + length,
-        ") out of tensor with shape ", out->shape().DebugString(), "."));
+        "Cannot slice (", offset, ", ", end, ") out of tensor with shape ",
+        out->shape().DebugString(), "."));
   }
 
   *out = out->Slice(offset, offset + length);
-- 
2.43.0


From b278ce5084f1b52b6f25f70007dedd2a28c7c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 10/31] fix: copies of chunker options keep whether to delta
 encode

---
 reverb/cc/chunker.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/chunker.cc b/reverb/cc/chunker.cc
index e1b15ed..07ad803 100644
--- a/reverb/cc/chunker.cc
+++ b/reverb/cc/chunker.cc
@@ -382,8 +382,8 @@ void ConstantChunkerOptions::OnItemFinalized(
     absl::Span<const std::shared_ptr<CellRef>> refs) {}
 
 std::shared_ptr<ChunkerOptions> ConstantChunkerOptions::Clone() const {
-  return std::make_shared<ConstantChunkerOptions>(max_chunk_length_,
-                                                  num_keep_alive_refs_);
+  return std::make_shared<ConstantChunkerOptions>(
+      max_chunk_length_, num_keep_alive_refs_, delta_encode_);
 }
 
 AutoTunedChunkerOptions::AutoTunedChunkerOptions(int num_keep_alive_refs,
@@ -536,8 +536,8 @@ void AutoTunedChunkerOptions::PushChunks(
 }
 
 std::shared_ptr<ChunkerOptions> AutoTunedChunkerOptions::Clone() const {
-  return std::make_shared<AutoTunedChunkerOptions>(num_keep_alive_refs_,
-                                                   throughput_weight_);
+  return std::make_shared<AutoTunedChunkerOptions>(
+      num_keep_alive_refs_, throughput_weight_, delta_encode_);
 }
 
 }  // namespace reverb
-- 
2.43.0


From 16adae6daa4b8a6c38718e7b260ca16bce55d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 11/31] fix: only subsequent rows of a chunk are merged into
 one slice

---
 reverb/cc/trajectory_writer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index d60bf52..22c20ca 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -52,7 +52,9 @@ std::vector<FlatTrajectory::ChunkSlice> MergeAdjacent(
     std::shared_ptr<CellRef> ref_sp = ref.lock();
     REVERB_CHECK(ref_sp);
 
-    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key()) {
+    // Only references to subsequent rows of the same chunk can share a slice.
+    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key() ||
+        slices.back().offset() + slices.back().length() != ref_sp->offset()) {
       FlatTrajectory::ChunkSlice slice;
       slice.set_chunk_key(ref_sp->chunk_key());
       slice.set_offset(ref_sp->offset());
-- 
2.43.0


From 3dec3a40de2411bb086c472bf5d8fd808f1f285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 12/31] fix: a trajectory column without rows is rejected

---
 reverb/cc/trajectory_writer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index 22c20ca..453090e 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -672,6 +672,11 @@ absl::Status TrajectoryColumn::Validate() const {
     return absl::InvalidArgumentError("Column contains expired CellRef.");
   }
 
+  if (locked_refs.empty()) {
+    return absl::InvalidArgumentError(
+        "TrajectoryColumn must contain at least one row.");
+  }
+
   if (squeeze_ && locked_refs.size() != 1) {
     return absl::InvalidArgumentError(
         absl::StrCat("TrajectoryColumn must contain exactly one row when "
-- 
2.43.0


From 20736dcdf4cfea85af35940e2a3fff7297c09526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 13/31] fix: columns are not added while the stream worker
 iterates over them

---
 reverb/cc/trajectory_writer.cc | 37 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index 453090e..66291a2 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -212,19 +212,24 @@ absl::Status TrajectoryWriter::AppendInternal(
 
   // If this is the first time the column has been present in the data then
   // create a chunker using the spec of the item.
-  for (int i = 0; i < data.size(); i++) {
-    if (data[i].has_value() && !chunkers_.contains(i)) {
-      const tensorflow::Tensor& tensor = data[i].value();
-      // If the new column has been configured with `ConfigureChunker` then we
-      // use the overrided options. If not then we use the default in
-      // `options_.chunker_options`.
-      const std::shared_ptr<ChunkerOptions>& chunker_options =
-          options_override_.contains(i) ? options_override_[i]
-                                        : options_.chunker_options;
-      chunkers_[i] = std::make_shared<Chunker>(
-          internal::TensorSpec{std::to_string(i), tensor.dtype(),
-                               tensor.shape()},
-          chunker_options->Clone());
+  // The stream worker iterates over the chunkers so the map must not be
+  // modified without the lock.
+  {
+    absl::MutexLock lock(&mu_);
+    for (int i = 0; i < data.size(); i++) {
+      if (data[i].has_value() && !chunkers_.contains(i)) {
+        const tensorflow::Tensor& tensor = data[i].value();
+        // If the new column has been configured with `ConfigureChunker` then we
+        // use the overrided options. If not then we use the default in
+        // `options_.chunker_options`.
+        const std::shared_ptr<ChunkerOptions>& chunker_options =
+            options_override_.contains(i) ? options_override_[i]
+                                          : options_.chunker_options;
+        chunkers_[i] = std::make_shared<Chunker>(
+            internal::TensorSpec{std::to_string(i), tensor.dtype(),
+                                 tensor.shape()},
+            chunker_options->Clone());
+      }
     }
   }
 
@@ -527,10 +532,10 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
       // Remove keys of expired chunks from streamed_chunk_keys to avoid OOM
       // issues caused by the otherwise indefinitely growing hash set.
       streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);
-    }
 
-    for (auto& [_, chunker] : chunkers_) {
-      chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
+      for (auto& [_, chunker] : chunkers_) {
+        chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
+      }
     }
 
     // All chunks have been written to the stream so the item can now be
-- 
2.43.0


From f312c874011b5dd57bff92ab13257b312b375e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 14/31] fix: closing a trajectory writer does not hang on an
 incomplete item

---
 reverb/cc/trajectory_writer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index 66291a2..abc544c 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -520,8 +520,9 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
         // Do a final check that the chunks didn't change since the lock was
         // last held. If the item still references incomplete chunks then we
         // sleep until the chunks changed. If all the chunks are now completed
-        // then we move straight to the top of the loop.
-        if (!AllReady(item_and_refs.refs)) {
+        // then we move straight to the top of the loop. We must not sleep if
+        // the writer was closed in the meantime as no further signal is sent.
+        if (!closed_ && !AllReady(item_and_refs.refs)) {
           data_cv_.Wait(&mu_);
         }
         continue;
-- 
2.43.0


From 3618e7c25ed809d55bccf0de951e5cb1c133f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 15/31] fix: items unconfirmed when a stream breaks are sent
 again

---
 reverb/cc/trajectory_writer.cc | 44 +++++++++++++++++++++++++++-------
 reverb/cc/trajectory_writer.h  |  7 ++++++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index abc544c..381a735 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -416,6 +416,17 @@ absl::Status TrajectoryWriter::SetContextAndCreateStream(
   if (closed_) {
     return absl::CancelledError("TrajectoryWriter::Close has been called.");
   }
+  // Items sent on a previous stream without being confirmed may not have reached
+  // the server so they have to be sent again.
+  for (; !unconfirmed_items_.empty(); unconfirmed_items_.pop_back()) {
+    ItemAndRefs& item_and_refs = unconfirmed_items_.back();
+    if (in_flight_items_.contains(item_and_refs.item.key())) {
+      write_queue_.push_front(std::move(item_and_refs));
+    }
+  }
+  in_flight_items_.clear();
+  stream_ended_ = false;
+
   context_ = absl::make_unique<grpc::ClientContext>();
   context_->set_wait_for_ready(false);
   *stream = stub_->InsertStream(context_.get());
@@ -427,11 +438,12 @@ bool TrajectoryWriter::GetNextPendingItem(
   absl::MutexLock lock(&mu_);
   mu_.Await(absl::Condition(
       +[](const TrajectoryWriter* w) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
-        return !w->write_queue_.empty() || w->closed_;
+        return !w->write_queue_.empty() || w->closed_ ||
+               (w->stream_ended_ && !w->in_flight_items_.empty());
       },
       this));
 
-  if (closed_) return false;
+  if (closed_ || (stream_ended_ && !in_flight_items_.empty())) return false;
 
   *item_and_refs = write_queue_.front();
 
@@ -492,7 +504,18 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
           for (uint64_t key : response.keys()) {
             in_flight_items_.erase(key);
           }
+          while (!unconfirmed_items_.empty() &&
+                 !in_flight_items_.contains(
+                     unconfirmed_items_.front().item.key())) {
+            unconfirmed_items_.pop_front();
+          }
         }
+
+        // Wake up the worker as the items which are still unconfirmed have to
+        // be sent again on a new stream.
+        absl::MutexLock lock(&mu_);
+        stream_ended_ = true;
+        data_cv_.Signal();
       });
 
   internal::flat_hash_set<uint64_t> streamed_chunk_keys;
@@ -521,8 +544,10 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
         // last held. If the item still references incomplete chunks then we
         // sleep until the chunks changed. If all the chunks are now completed
         // then we move straight to the top of the loop. We must not sleep if
-        // the writer was closed in the meantime as no further signal is sent.
-        if (!closed_ && !AllReady(item_and_refs.refs)) {
+        // the writer was closed, or the stream ended with items unconfirmed, in
+        // the meantime as no further signal is sent.
+        if (!closed_ && !(stream_ended_ && !in_flight_items_.empty()) &&
+            !AllReady(item_and_refs.refs)) {
           data_cv_.Wait(&mu_);
         }
         continue;
@@ -551,13 +576,14 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
     }
     request.Clear();
 
-    // Item has been sent so we can now pop it from the queue. Note that by
-    // deallocating the ItemAndRefs object we are allowing the underlying
-    // ChunkData to be deallocated.
+    // Item has been sent so we can now pop it from the queue. The item and its
+    // references are kept until the item has been confirmed by the server as it
+    // otherwise could not be sent again if the stream breaks.
     {
       absl::MutexLock lock(&mu_);
-      // TODO(b/178090185): Maybe keep the item and references around until the
-      // item has been confirmed by the server.
+      if (in_flight_items_.contains(write_queue_.front().item.key())) {
+        unconfirmed_items_.push_back(std::move(write_queue_.front()));
+      }
       write_queue_.pop_front();
     }
   }
diff --git a/reverb/cc/trajectory_writer.h b/reverb/cc/trajectory_writer.h
index f165286..da60539 100644
--- a/reverb/cc/trajectory_writer.h
+++ b/reverb/cc/trajectory_writer.h
@@ -298,6 +298,13 @@ class TrajectoryWriter {
   // confirmation has yet been received from the server.
   internal::flat_hash_set<uint64_t> in_flight_items_ ABSL_GUARDED_BY(mu_);
 
+  // Items which have been sent but are yet to be confirmed, in the order they
+  // were sent. These are sent again if the stream is broken.
+  std::deque<ItemAndRefs> unconfirmed_items_ ABSL_GUARDED_BY(mu_);
+
+  // True if nothing more can be read from the current stream.
+  bool stream_ended_ ABSL_GUARDED_BY(mu_) = false;
+
   // We signal when a chunk is flushed in case the stream worker backed off due
   // to the front item of `write_queue_` referencing incomplete chunks.
   absl::CondVar data_cv_ ABSL_GUARDED_BY(mu_);
-- 
2.43.0


From bde809401eff1e68c0f212cff880ca8c5a9c4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 16/31] fix: Writer::CreateItem counts the timesteps that are
 available

A chunk created by Flush can be shorter than chunk_length, so multiplying the
number of chunks by chunk_length overestimates how many timesteps exist (items
got negative offsets) and evicted chunks that max_timesteps still covers. Items
without timesteps are rejected.
---
 reverb/cc/writer.cc | 24 ++++++++++++++++++++----
 reverb/cc/writer.h  |  3 +++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index a61580c..ae7134d 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -55,6 +55,13 @@ int PositiveModulo(int value, int divisor) {
   }
 }
 
+// The number of timesteps in `chunk`. This is smaller than `chunk_length_` if
+// the chunk was created by a `Flush` of a partially filled buffer.
+int ChunkLength(const ChunkData& chunk) {
+  const auto& range = chunk.sequence_range();
+  return range.end() - range.start() + 1;
+}
+
 }  // namespace
 
 Writer::Writer(std::shared_ptr</* grpc_gen:: */ReverbService::StubInterface> stub,
@@ -156,7 +163,10 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
     return absl::FailedPreconditionError(
         "Calling method CreateItem after Close has been called");
   }
-  if (num_timesteps > chunks_.size() * chunk_length_ + buffer_.size()) {
+  if (num_timesteps < 1) {
+    return absl::InvalidArgumentError("`num_timesteps` must be >= 1");
+  }
+  if (num_timesteps > NumChunkedTimesteps() + buffer_.size()) {
     return absl::InvalidArgumentError(
         "Argument `num_timesteps` is larger than number of buffered "
         "timesteps.");
@@ -245,8 +255,7 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
   // Traverse historic chunks backwards until trajectory complete.
   for (auto rit = chunks_.rbegin(); remaining > 0 && rit != chunks_.rend();
        ++rit) {
-    const auto& range = rit->sequence_range();
-    chunk_lengths.push_back(range.end() - range.start() + 1);
+    chunk_lengths.push_back(ChunkLength(*rit));
     chunk_keys.push_back(rit->chunk_key());
     remaining -= chunk_lengths.back();
   }
@@ -438,7 +447,8 @@ absl::Status Writer::Finish(bool retry_on_unavailable) {
     index_within_episode_ += buffer_.size();
     buffer_.clear();
     next_chunk_key_ = NewID();
-    while ((chunks_.size() - 1) * chunk_length_ >= max_timesteps_) {
+    while (NumChunkedTimesteps() - ChunkLength(chunks_.front()) >=
+           max_timesteps_) {
       streamed_chunk_keys_.erase(chunks_.front().chunk_key());
       chunks_.pop_front();
     }
@@ -542,6 +552,12 @@ bool Writer::WritePendingData() {
   return true;
 }
 
+int Writer::NumChunkedTimesteps() const {
+  int num_timesteps = 0;
+  for (const auto& chunk : chunks_) num_timesteps += ChunkLength(chunk);
+  return num_timesteps;
+}
+
 uint64_t Writer::NewID() {
   return absl::Uniform<uint64_t>(bit_gen_, 0, UINT64_MAX);
 }
diff --git a/reverb/cc/writer.h b/reverb/cc/writer.h
index 1a28e78..e10c8ec 100644
--- a/reverb/cc/writer.h
+++ b/reverb/cc/writer.h
@@ -117,6 +117,9 @@ class Writer {
   // items in `pending_items_`
   bool WritePendingData();
 
+  // The number of timesteps in `chunks_`.
+  int NumChunkedTimesteps() const;
+
   // Helper for generating a random ID.
   uint64_t NewID();
 
-- 
2.43.0


From 3485943f0e5d70839d88eb45741638c7037978aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 17/31] fix: Writer::Flush waits for confirmation of the items
 it sends

As documented, Flush blocks until the server has confirmed all items iff
max_in_flight_items is set. It returned without waiting when it had items to
send.
---
 reverb/cc/writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index ae7134d..db0ffeb 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -289,7 +289,7 @@ absl::Status Writer::Flush() {
   }
 
   if (!pending_items_.empty()) {
-    return Finish(/*retry_on_unavailable=*/true);
+    REVERB_RETURN_IF_ERROR(Finish(/*retry_on_unavailable=*/true));
   }
   if (!ConfirmItems(0)) {
     return absl::InternalError(
-- 
2.43.0


From adcc6da7b859508fd2099dd22549f4f7575f6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 18/31] fix: Writer gives up the stream also when confirmations
 were lost

When a write failed with items unconfirmed, the writer returned DataLoss but
kept the half-closed stream and its in-flight count: the next call wrote to a
stream after WritesDone (an assertion in gRPC).
---
 reverb/cc/writer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index db0ffeb..5d10b77 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -328,14 +328,15 @@ absl::Status Writer::StopItemConfirmationWorker() {
   item_confirmation_worker_stop_requested_ = false;
   item_confirmation_worker_thread_ = nullptr;
 
-  if (num_items_in_flight_ > 0) {
+  const int num_unconfirmed_items = num_items_in_flight_;
+  num_items_in_flight_ = 0;
+  if (num_unconfirmed_items > 0) {
     return absl::DataLossError(absl::StrCat(
-        "Item confirmation worker were stopped when ", num_items_in_flight_,
+        "Item confirmation worker were stopped when ", num_unconfirmed_items,
         " unconfirmed items (sent to server but validation "
         "response not yet "
         "received)."));
   }
-  num_items_in_flight_ = 0;
   return absl::OkStatus();
 }
 
@@ -462,9 +463,10 @@ absl::Status Writer::WriteWithRetries(bool retry_on_unavailable) {
   while (true) {
     if (WritePendingData()) return absl::OkStatus();
     stream_->WritesDone();
-    REVERB_RETURN_IF_ERROR(StopItemConfirmationWorker());
+    auto confirmation_status = StopItemConfirmationWorker();
     auto status = FromGrpcStatus(stream_->Finish());
     stream_ = nullptr;
+    REVERB_RETURN_IF_ERROR(confirmation_status);
     if (!absl::IsUnavailable(status) || !retry_on_unavailable) {
       return status;
     }
-- 
2.43.0


From 9a0043f69e63aee92ae3a7bc9fee9e3f2ba03ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 19/31] fix: a sample whose columns are chunked differently can
 be read by timestep

is_composed_of_timesteps compared the lengths of the remaining chunks without
subtracting the timesteps already emitted from the first one, so reading failed
with InvalidArgument (or a CHECK) part way through such a sample.
---
 reverb/cc/sampler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/sampler.cc b/reverb/cc/sampler.cc
index 0109576..f1b9167 100644
--- a/reverb/cc/sampler.cc
+++ b/reverb/cc/sampler.cc
@@ -779,7 +779,8 @@ bool Sample::is_composed_of_timesteps() const {
       // Note that we can safely assume that the tensor is not a scalar since a
       // batch dimension is always added when building a chunk. A scalar would
       // thus be represented as a tensor of shape [1].
-      column_length += column_slice.tensor.dim_size(0);
+      // Timesteps that have already been emitted do not count.
+      column_length += column_slice.tensor.dim_size(0) - column_slice.offset;
     }
 
     if (prev_column_length != -1 && prev_column_length != column_length) {
-- 
2.43.0


From 650619c581de46d665de02b2c07d2b7559e0d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 20/31] fix: table worker doesn't miss mutations and resets
 made while it is about to sleep

MutateItems and Reset only signalled a sleeping worker. A change made after the
worker had looked at the table, but before it went to sleep, was not noticed,
nor were the deletions of a MutateItems call which failed half way.
---
 reverb/cc/table.cc | 21 +++++++++++++++------
 reverb/cc/table.h  |  4 ++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 7778a53..f949b91 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -294,10 +294,12 @@ absl::Status Table::TableWorkerLoop() {
         // rate limiter until the worker is put to sleep again.
         rate_limited = false;
       }
-      if (progress != last_progress) {
-        // There was progress executing insert/sample requests,
+      if (progress != last_progress || table_changed_) {
+        // There was progress executing insert/sample requests (or the table was
+        // changed by someone else, which might unblock some of the requests),
         // so continue without handling timeouts.
         last_progress = progress;
+        table_changed_ = false;
         continue;
       }
       auto deadline = absl::Now();
@@ -619,24 +621,30 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
 absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
                                 absl::Span<const Key> deletes) {
   std::vector<std::shared_ptr<Item>> deleted_items(deletes.size());
-  {
-    absl::MutexLock lock(&mu_);
+  auto mutate = [&]() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) -> absl::Status {
     for (int i = 0; i < deletes.size(); i++) {
       REVERB_RETURN_IF_ERROR(DeleteItem(deletes[i], &deleted_items[i]));
     }
     for (const auto& item : updates) {
       REVERB_RETURN_IF_ERROR(UpdateItem(item.key(), item.priority()));
     }
+    return absl::OkStatus();
+  };
+  absl::Status status;
+  {
+    absl::MutexLock lock(&mu_);
+    status = mutate();
   }
   // Table worker doesn't listen on rate_limiter, so need to wake it up
-  // explicitly.
+  // explicitly (also after an error, as some items might have been deleted).
   if (table_worker_) {
     absl::MutexLock lock(&worker_mu_);
+    table_changed_ = true;
     if (worker_state_ != TableWorkerState::kRunning) {
       wakeup_worker_.Signal();
     }
   }
-  return absl::OkStatus();
+  return status;
 }
 
 absl::Status Table::Sample(SampledItem* sampled_item, absl::Duration timeout) {
@@ -974,6 +982,7 @@ absl::Status Table::Reset() {
     deleted_items_.clear();
     // Wakeup worker in case it has pending inserts which couldn't make progress
     // before.
+    table_changed_ = true;
     wakeup_worker_.Signal();
   }
   return absl::OkStatus();
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 6400564..e89c691 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -512,6 +512,10 @@ class Table {
   // worker.
   bool stop_worker_ ABSL_GUARDED_BY(worker_mu_) = false;
 
+  // Set when the table has been changed by another thread than the worker. The
+  // worker doesn't go to sleep before it has considered the change.
+  bool table_changed_ ABSL_GUARDED_BY(worker_mu_) = false;
+
   // Used for waking up a table worker when asleep.
   absl::CondVar wakeup_worker_ ABSL_GUARDED_BY(worker_mu_);
 
-- 
2.43.0


From 402b104def4f37ce6b3f26b747e6790cd27fae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 21/31] fix: asynchronous sample requests don't hold back
 sampled items

The table worker waited until the whole (flexible) batch had been sampled. Items
which had been taken from the table were kept from the client until the rate
limiter allowed for the rest of the batch and were lost if the request timed
out.
---
 reverb/cc/table.cc | 11 ++++++++---
 reverb/cc/table.h  |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index f949b91..3982c75 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -260,12 +260,17 @@ absl::Status Table::TableWorkerLoop() {
             // Capacity of the samples collection indicates how many items
             // should be sampled.
             if (request->samples.capacity() == request->samples.size()) {
-              // Finalized request is moved out of sampling_requests.
-              FinalizeSampleRequest(std::move(request), absl::OkStatus());
-              sample_idx++;
               break;
             }
           }
+          // A request is done once at least one item has been sampled, there
+          // is no waiting for more (see SampleFlexibleBatch). Otherwise sampled
+          // items would be held back, and lost if the request times out.
+          if (!request->samples.empty()) {
+            // Finalized request is moved out of sampling_requests.
+            FinalizeSampleRequest(std::move(request), absl::OkStatus());
+            sample_idx++;
+          }
         }
       }
     }
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index e89c691..9fcfe1e 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -224,7 +224,8 @@ class Table {
   // All queued sampling operations are a subject to the table's sampling
   // strategy defined by the `rate_limiter_`. Sampled element which has reached
   // `max_times_sampled_` are deleted from the table, so it cannot be
-  // sampled again.
+  // sampled again. As for `SampleFlexibleBatch` the request is done when it has
+  // at least one item and `rate_limiter_` doesn't allow for more.
   void EnqueSampleRequest(int num_samples,
                           std::weak_ptr<SamplingCallback> callback,
                           absl::Duration timeout = kDefaultTimeout);
-- 
2.43.0


From 231095432f743d3cc444b43a779ae6159bb4cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 22/31] fix: table operations don't release the lock half way
 to wait for the extension worker

With a full extension buffer an insert, sample, update or delete released the
table's lock in the middle. A concurrent Reset or deletion could then free the
item which was being handled. Operations now wait before they start. The
extension worker wakes up all waiting threads, doesn't miss being stopped while
it is about to sleep, and outlives the table worker which might wait for it, so
destroying a table neither hangs nor drops extension calls.
---
 reverb/cc/table.cc | 37 ++++++++++++++++++++++---------------
 reverb/cc/table.h  | 11 ++++++++++-
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 3982c75..2f7bfcd 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -162,14 +162,15 @@ Table::~Table() {
     stop_worker_ = true;
     wakeup_worker_.Signal();
   }
+  // Join the worker thread. The extension worker is still running as the table
+  // worker might wait for it.
+  table_worker_ = nullptr;
   {
     absl::MutexLock lock(&mu_);
-    extension_buffer_available_cv_.SignalAll();
+    stop_extension_worker_ = true;
     extension_work_available_cv_.SignalAll();
   }
-  // Join the worker thread
-  table_worker_ = nullptr;
-  // Join the extension worker thread.
+  // Join the extension worker thread (once it has processed all requests).
   extension_worker_ = nullptr;
   rate_limiter_->UnregisterTable(&mu_, this);
   for (auto& extension : sync_extensions_) {
@@ -233,6 +234,7 @@ absl::Status Table::TableWorkerLoop() {
       int64_t prev_progress = progress - 1;
       while (prev_progress < progress) {
         prev_progress = progress;
+        AwaitExtensionBuffer();
         // Try processing an insert request.
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
@@ -262,6 +264,7 @@ absl::Status Table::TableWorkerLoop() {
             if (request->samples.capacity() == request->samples.size()) {
               break;
             }
+            AwaitExtensionBuffer();
           }
           // A request is done once at least one item has been sampled, there
           // is no waiting for more (see SampleFlexibleBatch). Otherwise sampled
@@ -366,9 +369,6 @@ absl::Status Table::ExtensionsWorkerLoop() {
   while (true) {
     {
       absl::MutexLock lock(&worker_mu_);
-      if (stop_worker_) {
-        return absl::OkStatus();
-      }
       if (deleted_items_.empty() && !deleted_items.empty()) {
         // Deleted items are freed by the clients to spread the load.
         // Previous deletion batch has been processed, give clients a new batch.
@@ -378,7 +378,10 @@ absl::Status Table::ExtensionsWorkerLoop() {
     {
       absl::MutexLock lock(&mu_);
       REVERB_CHECK(extension_requests.empty());
-      if (extension_requests_.empty()) {
+      while (extension_requests_.empty()) {
+        if (stop_extension_worker_) {
+          return absl::OkStatus();
+        }
         // No more work to do, go to sleep.
         extension_worker_sleeps_ = true;
         extension_work_available_cv_.Wait(&mu_);
@@ -386,9 +389,9 @@ absl::Status Table::ExtensionsWorkerLoop() {
       }
       std::swap(extension_requests_, extension_requests);
       if (extension_requests.size() >= max_enqueued_extension_ops_) {
-        // Table worker may be blocked, let know there is place to add more
-        // extension requests now.
-        extension_buffer_available_cv_.Signal();
+        // Table worker and clients may be blocked, let know there is place to
+        // add more extension requests now.
+        extension_buffer_available_cv_.SignalAll();
       }
     }
     {
@@ -638,6 +641,7 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
   absl::Status status;
   {
     absl::MutexLock lock(&mu_);
+    AwaitExtensionBuffer();
     status = mutate();
   }
   // Table worker doesn't listen on rate_limiter, so need to wake it up
@@ -913,10 +917,6 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
     // otherwise no need to enqueue the operation.
     return;
   }
-  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
-    // TODO(stanczyk): Track time spent waiting here.
-    extension_buffer_available_cv_.Wait(&mu_);
-  }
   ExtensionItem e_item(item);
   ExtensionRequest request{type, e_item};
   extension_requests_.push_back(request);
@@ -925,6 +925,13 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
   }
 }
 
+void Table::AwaitExtensionBuffer() {
+  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
+    // TODO(stanczyk): Track time spent waiting here.
+    extension_buffer_available_cv_.Wait(&mu_);
+  }
+}
+
 absl::Status Table::InsertIntoSelectors(Key key, double priority) {
   REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
   auto status = remover_->Insert(key, priority);
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 9fcfe1e..61d5a0d 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -424,6 +424,11 @@ class Table {
                           const std::shared_ptr<Item>& item)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
 
+  // Waits until further extension requests may be enqueued. As `mu_` is released
+  // while waiting this must be called before an operation on the table is
+  // started, never in the middle of it.
+  void AwaitExtensionBuffer() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Extensions worker execution loop. It is executed by a dedicated thread
   // and it performs enqueued extension operations. Operations are executed in
   // the order enqueued, but they run without holding table's lock.
@@ -465,7 +470,8 @@ class Table {
   // further inserts.
   const int64_t max_enqueued_inserts_;
 
-  // Maximum number of allowed enqueued extension operations.
+  // Number of enqueued extension operations from which on no further operations
+  // on the table are started.
   const int64_t max_enqueued_extension_ops_;
 
   // Maximum number of times an item can be sampled before it is deleted.
@@ -540,6 +546,9 @@ class Table {
   absl::CondVar extension_buffer_available_cv_ ABSL_GUARDED_BY(mu_);
   bool extension_worker_sleeps_ ABSL_GUARDED_BY(mu_) = true;
 
+  // Should the extension worker terminate once it has no more work to do.
+  bool stop_extension_worker_ ABSL_GUARDED_BY(mu_) = false;
+
   // Extensions implement hooks that are executed as part of insert, delete,
   // update or reset operations. There are two types of extensions supported:
   //   - synchronous, which run while holding table's `mu_` mutex.
-- 
2.43.0


From f227695b9c4c7e413414211298eba08c1e95f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 23/31] fix: asynchronous extensions added after enabling the
 table worker are called

---
 reverb/cc/table.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 2f7bfcd..8e915c5 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -1081,6 +1081,7 @@ void Table::UnsafeAddExtension(std::shared_ptr<TableExtension> extension) {
   REVERB_CHECK(data_.empty());
   if (extension->CanRunAsync() && extension_worker_) {
     absl::MutexLock lock(&async_extensions_mu_);
+    has_async_extensions_ = true;
     async_extensions_.push_back(std::move(extension));
   } else {
     sync_extensions_.push_back(std::move(extension));
@@ -1129,6 +1130,7 @@ std::vector<std::shared_ptr<TableExtension>> Table::UnsafeClearExtensions() {
       extensions.push_back(extension);
     }
     async_extensions_.clear();
+    has_async_extensions_ = false;
   }
 
   for (auto& extension : extensions) {
-- 
2.43.0


From c1e2a948c957aa98b7a621c4b386f8b68de67d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 24/31] fix: a malformed insert request ends its stream instead
 of the server

---
 reverb/cc/reverb_service_async_impl.cc | 17 ++++++++++++-----
 reverb/cc/reverb_service_impl.cc       |  5 +++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 2915243..d314ab4 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -192,7 +192,6 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
 
     grpc::Status ProcessIncomingRequest(InsertStreamRequest* request) override
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
-      REVERB_CHECK(!request->chunks().empty() || request->has_item());
       if (auto status = SaveChunks(request); !status.ok()) {
         return status;
       }
@@ -205,7 +204,11 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       if (auto status = GetItemWithChunks(&item, request); !status.ok()) {
         return status;
       }
-      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
+      if (auto status =
+              ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
+          !status.ok()) {
+        return status;
+      }
       const auto& table_name = item.item.table();
       // Check that table name is valid.
       auto table = server_->TableByName(table_name);
@@ -267,7 +270,12 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       return grpc::Status::OK;
     }
 
-    void ReleaseOutOfRangeChunks(absl::Span<const uint64_t> keep_keys) {
+    grpc::Status ReleaseOutOfRangeChunks(absl::Span<const uint64_t> keep_keys) {
+      for (ChunkStore::Key key : keep_keys) {
+        if (!chunks_.contains(key)) {
+          return Internal("Kept less chunks than expected.");
+        }
+      }
       for (auto it = chunks_.cbegin(); it != chunks_.cend();) {
         if (std::find(keep_keys.begin(), keep_keys.end(), it->first) ==
             keep_keys.end()) {
@@ -276,8 +284,7 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
           ++it;
         }
       }
-      REVERB_CHECK_EQ(chunks_.size(), keep_keys.size())
-          << "Kept less chunks than expected.";
+      return grpc::Status::OK;
     }
 
     // Incoming messages are handled one at a time. That is StartRead is not
diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 148946f..e514105 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -231,8 +231,9 @@ grpc::Status ReverbServiceImpl::InsertStreamInternal(
           ++it;
         }
       }
-      REVERB_CHECK_EQ(chunks.size(), keep_keys.size())
-          << "Kept less chunks than expected.";
+      if (chunks.size() != keep_keys.size()) {
+        return Internal("Kept less chunks than expected.");
+      }
     }
   }
 
-- 
2.43.0


From 0f8bc236d8ebe4e88e7f0d97e0bb2eb3d775a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 25/31] fix: an asynchronous insert stream outlives its pending
 continuation

---
 reverb/cc/reverb_service_async_impl.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index d314ab4..ce7cc91 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -169,6 +169,10 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
     InsertStreamResponse payload;
   };
 
+  // How often to check whether callback execution finished before deleting
+  // reactor.
+  static constexpr absl::Duration kCallbackWaitTime = absl::Milliseconds(1);
+
   class WorkerlessInsertReactor : public ReverbServerTableReactor<
       InsertStreamRequest, InsertStreamResponse, InsertStreamResponseCtx> {
    public:
@@ -190,6 +194,17 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       MaybeStartRead();
     }
 
+    ~WorkerlessInsertReactor() {
+      // As callback references Reactor's memory make sure it can't be executed
+      // anymore.
+      std::weak_ptr<std::function<void(const absl::Status&)>> weak_ptr =
+          continue_inserts_;
+      continue_inserts_.reset();
+      while (weak_ptr.lock()) {
+        absl::SleepFor(kCallbackWaitTime);
+      }
+    }
+
     grpc::Status ProcessIncomingRequest(InsertStreamRequest* request) override
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
       if (auto status = SaveChunks(request); !status.ok()) {
-- 
2.43.0


From e7d81e23ba98020468d4104d29d1f4f4f1bfa4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 26/31] fix: a cancelled asynchronous stream ends also while it
 is idle

---
 reverb/cc/reverb_server_table_reactor.h | 29 +++++++++++++++++++++----
 reverb/cc/reverb_service_async_impl.cc  |  4 ++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/reverb/cc/reverb_server_table_reactor.h b/reverb/cc/reverb_server_table_reactor.h
index 84cc327..719569b 100644
--- a/reverb/cc/reverb_server_table_reactor.h
+++ b/reverb/cc/reverb_server_table_reactor.h
@@ -73,6 +73,9 @@ class ReverbServerTableReactor
   // Schedules another read if possible. Should be called after OnReadDone.
   void MaybeStartRead();
 
+  // Schedules another read.
+  void StartNextRead() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Finishes the reactor. It fails if any of the conditions to finish the
   // reactor doesn't hold. The conditions are:
   //   * The reactor cannot be already set as finished.
@@ -103,6 +106,9 @@ class ReverbServerTableReactor
   // Queued responses to be sent to the client.
   std::queue<ResponseCtx> responses_to_send_ ABSL_GUARDED_BY(mu_);
 
+  // Whether a read has been started for which OnReadDone has yet to be called.
+  bool is_reading_ ABSL_GUARDED_BY(mu_) = false;
+
   // When false, it means that the client has notified that it is not writing
   // anymore, or that the stream has been finished/cancelled.
   bool still_reading_ ABSL_GUARDED_BY(mu_) = true;
@@ -137,10 +143,13 @@ void ReverbServerTableReactor<Request, Response, ResponseCtx>::OnReadDone(
   // Read until the client sends a HalfClose or the stream is cancelled.
   absl::MutexLock lock(&mu_);
 
-  if (!ok || is_finished_) {
+  is_reading_ = false;
+
+  if (!ok || is_finished_ || is_cancelled_) {
     // A half close has been received and thus there will be no more reads.
-    // Or SetReactorAsFinished was called before we acquire the lock (it
-    // can be called by the TaskWorkers, outside of the reactor).
+    // Or the stream was cancelled or SetReactorAsFinished was called before we
+    // acquire the lock (it can be called by the TaskWorkers, outside of the
+    // reactor).
     still_reading_ = false;
 
     // Close the reactor iff all pending tasks are done AND all pending
@@ -201,6 +210,11 @@ void ReverbServerTableReactor<Request, Response, ResponseCtx>::OnCancel() {
   absl::MutexLock lock(&mu_);
   still_reading_ = false;
   is_cancelled_ = true;
+  // If neither a read nor a write is in flight (e.g. the next read has to await
+  // a table) then there will be no further calls in which to finish.
+  if (!is_reading_ && ShouldFinish()) {
+    SetReactorAsFinished(grpc::Status::CANCELLED);
+  }
 }
 
 template <class Request, class Response, class ResponseCtx>
@@ -208,10 +222,17 @@ void ReverbServerTableReactor<Request, Response,
                               ResponseCtx>::MaybeStartRead() {
   absl::MutexLock lock(&mu_);
   if (still_reading_ && !is_cancelled_ && !is_finished_) {
-    grpc::ServerBidiReactor<Request, Response>::StartRead(&request_);
+    StartNextRead();
   }
 }
 
+template <class Request, class Response, class ResponseCtx>
+void ReverbServerTableReactor<Request, Response,
+                              ResponseCtx>::StartNextRead() {
+  is_reading_ = true;
+  grpc::ServerBidiReactor<Request, Response>::StartRead(&request_);
+}
+
 template <class Request, class Response, class ResponseCtx>
 void ReverbServerTableReactor<
     Request, Response, ResponseCtx>::SetReactorAsFinished(grpc::Status status)
diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index ce7cc91..6b1c7c1 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -212,7 +212,7 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       }
       if (!request->has_item()) {
         // No item to add to the table - continue reading next requests.
-        StartRead(&request_);
+        StartNextRead();
         return grpc::Status::OK;
       }
       Table::Item item;
@@ -240,7 +240,7 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       if (can_insert) {
         // Insert didn't exceed table's buffer, we can continue reading next
         // requests.
-        StartRead(&request_);
+        StartNextRead();
       }
       if (send_confirmation) {
         // The first element is the one in flight, modify not yet in flight
-- 
2.43.0


From df00bf7c668a2da8998603328c31e6cc889fc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 27/31] fix: an error of an asynchronous stream follows the
 queued responses

---
 reverb/cc/reverb_server_table_reactor.h | 24 ++++++++++++++++++++++--
 reverb/cc/reverb_service_async_impl.cc  |  8 ++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/reverb_server_table_reactor.h b/reverb/cc/reverb_server_table_reactor.h
index 719569b..4dbb1ec 100644
--- a/reverb/cc/reverb_server_table_reactor.h
+++ b/reverb/cc/reverb_server_table_reactor.h
@@ -83,6 +83,11 @@ class ReverbServerTableReactor
   void SetReactorAsFinished(grpc::Status status)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
 
+  // Stops reading and finishes the reactor with the (error) status once the
+  // responses already queued have been sent.
+  void FinishAfterResponses(grpc::Status status)
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Returns true if the conditions to finish the reactor are met:
   // * The reactor is not already finished.
   // * The reactor is not still waiting for more requests.
@@ -113,6 +118,9 @@ class ReverbServerTableReactor
   // anymore, or that the stream has been finished/cancelled.
   bool still_reading_ ABSL_GUARDED_BY(mu_) = true;
 
+  // Status to finish with when all responses have been sent.
+  grpc::Status final_status_ ABSL_GUARDED_BY(mu_);
+
   // Once this is true, we cannot write or read. It is used to signal that
   // Finish has been called.
   bool is_finished_ ABSL_GUARDED_BY(mu_) = false;
@@ -163,7 +171,7 @@ void ReverbServerTableReactor<Request, Response, ResponseCtx>::OnReadDone(
   }
 
   GRPC_CALL_AND_RETURN_IF_ERROR(ProcessIncomingRequest(&request_),
-                                SetReactorAsFinished);
+                                FinishAfterResponses);
 }
 
 template <class Request, class Response, class ResponseCtx>
@@ -189,7 +197,7 @@ void ReverbServerTableReactor<Request, Response, ResponseCtx>::OnWriteDone(
   // There are no pending writes so if we are no longer reading from the
   // stream and there are no pending tasks then we are done.
   if (!still_reading_ && responses_to_send_.empty()) {
-    SetReactorAsFinished(grpc::Status::OK);
+    SetReactorAsFinished(final_status_);
     return;
   }
   MaybeSendNextResponse();
@@ -249,6 +257,18 @@ void ReverbServerTableReactor<
   grpc::ServerBidiReactor<Request, Response>::Finish(status);
 }
 
+template <class Request, class Response, class ResponseCtx>
+void ReverbServerTableReactor<
+    Request, Response, ResponseCtx>::FinishAfterResponses(grpc::Status status)
+    ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
+  still_reading_ = false;
+  if (responses_to_send_.empty()) {
+    SetReactorAsFinished(status);
+  } else {
+    final_status_ = status;
+  }
+}
+
 template <class Request, class Response, class ResponseCtx>
 bool ReverbServerTableReactor<Request, Response, ResponseCtx>::ShouldFinish()
     ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 6b1c7c1..a524daa 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -185,7 +185,7 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
                     if (!status.ok()) {
                       absl::MutexLock lock(&mu_);
                       if (!is_finished_) {
-                        SetReactorAsFinished(ToGrpcStatus(status));
+                        FinishAfterResponses(ToGrpcStatus(status));
                       }
                       return;
                     }
@@ -514,7 +514,7 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
                   waiting_for_enqueued_sample_ = false;
                   if (!sample->status.ok()) {
                     if (!is_finished_) {
-                      SetReactorAsFinished(ToGrpcStatus(sample->status));
+                      FinishAfterResponses(ToGrpcStatus(sample->status));
                     }
                     return;
                   }
@@ -594,6 +594,10 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
 
    private:
     void MaybeStartSampling() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
+      if (!still_reading_ || is_finished_) {
+        // The stream is being closed, no more samples will be sent.
+        return;
+      }
       const int next_batch_size = task_info_.NextSampleSize();
       if (next_batch_size == 0) {
         // Current request has been fully processed.
-- 
2.43.0


From d0d324ce6be2edfc533ff4a1a3a3df1e58ae3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 28/31] fix: sample requests with counts beyond 32 bits are
 served

---
 reverb/cc/reverb_service_impl.cc | 14 ++++++++------
 reverb/cc/task_worker.h          | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index e514105..1d34a00 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -39,6 +39,7 @@
 #include "reverb/cc/support/queue.h"
 #include "reverb/cc/support/trajectory_util.h"
 #include "reverb/cc/support/uint128.h"
+#include "reverb/cc/task_worker.h"
 
 namespace deepmind {
 namespace reverb {
@@ -304,15 +305,16 @@ grpc::Status ReverbServiceImpl::SampleStreamInternal(
     if (table == nullptr) return TableNotFound(request.table());
     int32_t default_flexible_batch_size = table->DefaultFlexibleBatchSize();
 
-    int count = 0;
+    int64_t count = 0;
 
     while (!context->IsCancelled() && count != request.num_samples()) {
       std::vector<Table::SampledItem> samples;
-      int32_t max_batch_size = std::min<int32_t>(
-          request.flexible_batch_size() == Sampler::kAutoSelectValue
-              ? default_flexible_batch_size
-              : request.flexible_batch_size(),
-          request.num_samples() - count);
+      int32_t max_batch_size = std::min<int64_t>(
+          {SampleTaskInfo::kMaxBatchSize,
+           request.flexible_batch_size() == Sampler::kAutoSelectValue
+               ? default_flexible_batch_size
+               : request.flexible_batch_size(),
+           request.num_samples() - count});
       if (auto status =
               table->SampleFlexibleBatch(&samples, max_batch_size, timeout);
           !status.ok()) {
diff --git a/reverb/cc/task_worker.h b/reverb/cc/task_worker.h
index b62d9c2..a016a64 100644
--- a/reverb/cc/task_worker.h
+++ b/reverb/cc/task_worker.h
@@ -15,6 +15,7 @@
 #ifndef REVERB_CC_TASK_WORKER_H_
 #define REVERB_CC_TASK_WORKER_H_
 
+#include <algorithm>
 #include <string>
 
 #include "absl/strings/str_format.h"
@@ -42,11 +43,15 @@ struct InsertTaskInfo {
 };
 
 struct SampleTaskInfo {
+  // Upper bound on the number of items sampled with a single call to the table,
+  // whatever the batch size requested by the client.
+  static constexpr int64_t kMaxBatchSize = 1 << 16;
+
   absl::Duration timeout;        // Timeout used when running the callback.
   std::shared_ptr<Table> table;  // Table to sample from.
-  int32_t flexible_batch_size;     // Batch size for sampling.
-  int32_t fetched_samples;  // Number of samples fetched before this task.
-  int32_t requested_samples;  // Number of total samples requested.
+  int64_t flexible_batch_size;     // Batch size for sampling.
+  int64_t fetched_samples;  // Number of samples fetched before this task.
+  int64_t requested_samples;  // Number of total samples requested.
   std::string DebugString() const {
     return absl::StrFormat(
         "SampleTask{table: %s, requested_samples: %d, samples_fetched_so_far: "
@@ -54,8 +59,8 @@ struct SampleTaskInfo {
         table->name(), requested_samples, fetched_samples);
   }
   int NextSampleSize() const {
-    return std::min<int>(flexible_batch_size,
-                         requested_samples - fetched_samples);
+    return std::min<int64_t>({kMaxBatchSize, flexible_batch_size,
+                              requested_samples - fetched_samples});
   }
 };
 
-- 
2.43.0


From 7b8fb6be5dc31c148037af6f72f8285f25a56dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 29/31] fix: every sample request has its own timeout

---
 reverb/cc/reverb_service_async_impl.cc |  2 +-
 reverb/cc/reverb_service_impl.cc       | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index a524daa..aa53555 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -571,7 +571,7 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
                          request->flexible_batch_size(), "."));
       }
       if (request->has_rate_limiter_timeout() &&
-          request->rate_limiter_timeout().milliseconds() > 0) {
+          request->rate_limiter_timeout().milliseconds() >= 0) {
         task_info_.timeout =
             absl::Milliseconds(request->rate_limiter_timeout().milliseconds());
       } else {
diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 1d34a00..4fcba15 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -283,13 +283,13 @@ grpc::Status ReverbServiceImpl::SampleStreamInternal(
   if (!stream->Read(&request)) {
     return Internal("Could not read initial request");
   }
-  absl::Duration timeout =
-      absl::Milliseconds(request.has_rate_limiter_timeout()
-                             ? request.rate_limiter_timeout().milliseconds()
-                             : -1);
-  if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();
 
   do {
+    absl::Duration timeout =
+        absl::Milliseconds(request.has_rate_limiter_timeout()
+                               ? request.rate_limiter_timeout().milliseconds()
+                               : -1);
+    if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();
     if (request.num_samples() <= 0) {
       return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,
                           "`num_samples` must be > 0.");
-- 
2.43.0


From 16de23b55b1e5ecd2661b53fd81048f6a95acd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 30/31] fix: an unconfirmed connection is finished once

---
 reverb/cc/reverb_service_async_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index aa53555..a838b64 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -383,6 +383,7 @@ ReverbServiceAsyncImpl::InitializeConnection(
 
       if (!request_.ownership_transferred()) {
         Finish(Internal("Received unexpected request"));
+        return;
       }
 
       Finish(grpc::Status::OK);
-- 
2.43.0


From a553bafe02b25ee75f265c5437595e7d7df0fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 31/31] fix: the timeout of ServerInfo is not cut to whole
 seconds

---
 reverb/cc/client.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reverb/cc/client.cc b/reverb/cc/client.cc
index 486d5e6..e843caa 100644
--- a/reverb/cc/client.cc
+++ b/reverb/cc/client.cc
@@ -312,8 +312,7 @@ absl::Status Client::GetServerInfo(absl::Duration timeout,
   grpc::ClientContext context;
   context.set_wait_for_ready(true);
   if (timeout != absl::InfiniteDuration()) {
-    context.set_deadline(std::chrono::system_clock::now() +
-                         absl::ToChronoSeconds(timeout));
+    context.set_deadline(absl::ToChronoTime(absl::Now() + timeout));
   }
 
   ServerInfoRequest request;
-- 
2.43.0

