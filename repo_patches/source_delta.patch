From bd0ccebdf6373eb794918b6f2e5970ee05526f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 01/15] fix: keep iterators inside the deque in
 MemoryStorage::Entries

begin() + lo was formed before offset was subtracted; with a compacted or
snapshotted log that reads past the deque's map.
---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..d5f2e73 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -75,7 +75,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0


From 171b2eed495fc1a94477b472274b74878c1d1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 02/15] fix: Inflights::FreeFirstOne is a no-op when nothing is
 inflight

---
 src/tracker/inflights.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 47145b5..dbfc305 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -63,7 +63,12 @@ void Inflights::FreeLE(uint64_t to) {
   }
 }
 
-void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
+void Inflights::FreeFirstOne() {
+  if (count_ == 0) {
+    return;
+  }
+  FreeLE(buffer_[start_]);
+}
 
 void Inflights::Grow() {
   int32_t new_size = buffer_.size() * 2;
-- 
2.43.0


From 7a92f25d7fbaa22cd9c31aea6d0b6ddf7ea7e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 03/15] fix: keep inflight positions in 64 bits, as the window
 size is

---
 src/tracker/inflights.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index dbfc305..ed7e69d 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -21,12 +21,12 @@ void Inflights::Add(uint64_t inflight) {
   if (Full()) {
     CRAFT_LOG_FATAL(logger_, "cannot add into a Full inflights");
   }
-  int32_t next = start_ + count_;
-  int32_t size = size_;
+  int64_t next = start_ + count_;
+  int64_t size = size_;
   if (next >= size) {
     next -= size;
   }
-  if (next >= static_cast<int32_t>(buffer_.size())) {
+  if (next >= static_cast<int64_t>(buffer_.size())) {
     Grow();
   }
   buffer_[next] = inflight;
@@ -39,8 +39,8 @@ void Inflights::FreeLE(uint64_t to) {
     return;
   }
 
-  int32_t idx = start_;
-  int32_t i;
+  int64_t idx = start_;
+  int64_t i;
   for (i = 0; i < count_; i++) {
     if (to < buffer_[idx]) {  // found the first large inflight
       break;
@@ -71,7 +71,7 @@ void Inflights::FreeFirstOne() {
 }
 
 void Inflights::Grow() {
-  int32_t new_size = buffer_.size() * 2;
+  int64_t new_size = buffer_.size() * 2;
   if (new_size == 0) {
     new_size = 1;
   } else if (new_size > size_) {
-- 
2.43.0


From 533eb7a7e0b3a66c6e63ae48d0c2bd37f8cd9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 04/15] fix: MemoryStorage::CreateSnapshot leaves snapshots
 already handed out alone

---
 src/storage.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index d5f2e73..a7eff2a 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,16 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
+  // Build a new snapshot, the current one may have been handed out.
+  auto snapshot = std::make_shared<raftpb::Snapshot>(*snapshot_);
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = *cs;
   }
 
-  *(snapshot_->mutable_data()) = data;
+  *(snapshot->mutable_data()) = data;
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From 77568c56c052b4e65879b012658bb676ef91d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 05/15] fix: refuse configuration-change text whose node number
 is no number or overflows

---
 src/raftpb/confchange.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 9882217..b2258e0 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -13,6 +13,7 @@
 // limitations under the License.
 #include "src/raftpb/confchange.h"
 
+#include <charconv>
 #include <sstream>
 
 #include "src/logger.h"
@@ -113,11 +114,11 @@ std::tuple<std::vector<raftpb::ConfChangeSingle>, Status> ConfChangesFromString(
     } else {
       return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow input: %s", token.c_str()));
     }
-    uint64_t id;
-    try {
-      id = std::strtoull(token.data()+1, nullptr, 10);
-    } catch (const std::exception& e) {
-      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", e.what()));
+    uint64_t id = 0;
+    const char* end = token.data() + token.size();
+    auto [ptr, ec] = std::from_chars(token.data() + 1, end, id);
+    if (ec != std::errc() || ptr != end) {
+      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", token.c_str()));
     }
     cc.set_node_id(id);
     ccs.emplace_back(cc);
-- 
2.43.0


From 3313f3c3ff02996767b57f69cbe2d17be13cf6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 06/15] fix: a delayed rejection no longer moves Next to or
 below Match

---
 src/tracker/progress.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/progress.cc b/src/tracker/progress.cc
index 7bb53cf..13ab0b7 100644
--- a/src/tracker/progress.cc
+++ b/src/tracker/progress.cc
@@ -107,7 +107,8 @@ bool Progress::MaybeDecrTo(uint64_t rejected, uint64_t match_hint) {
     return false;
   }
 
-  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), 1);
+  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1),
+                             match_ + 1);
   probe_sent_ = false;
   return true;
 }
-- 
2.43.0


From c1b9881ba2a35d1df2bd02366dc1f1bc40ab23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 07/15] fix: AcceptReady remembers the ready that Advance
 acknowledges

---
 src/rawnode.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..0e28ddf 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -157,9 +157,9 @@ Status RawNode::Step(MsgPtr m) {
 }
 
 std::shared_ptr<Ready> RawNode::GetReady() {
-  ready_ = ReadyWithoutAccept();
-  AcceptReady(ready_);
-  return ready_;
+  auto rd = ReadyWithoutAccept();
+  AcceptReady(rd);
+  return rd;
 }
 
 std::shared_ptr<Ready> RawNode::ReadyWithoutAccept() {
@@ -167,6 +167,7 @@ std::shared_ptr<Ready> RawNode::ReadyWithoutAccept() {
 }
 
 void RawNode::AcceptReady(std::shared_ptr<Ready> rd) {
+  ready_ = rd;
   if (rd->soft_state.has_value()) {
     prev_soft_st_ = *(rd->soft_state);
   }
-- 
2.43.0


From 94a8636026cc362b64cc9429c859f9f2874528c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 08/15] fix: Bootstrap refuses a nonempty Storage as documented

---
 src/rawnode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index 0e28ddf..a597976 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,6 +60,9 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
 
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
-- 
2.43.0


From bbb62b16dfe09d05363389136d31c66451d7cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 09/15] fix: a leader that is no voter does not answer reads
 alone when one voter remains

---
 src/raft.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..f531e8f 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1038,8 +1038,9 @@ Status Raft::StepLeader(MsgPtr m) {
       return Status::OK();
     }
     case raftpb::MessageType::MsgReadIndex: {
-      // only one voting member (the leader) in the cluster
-      if (trk_.IsSingleton()) {
+      // only one voting member (the leader) in the cluster; a leader that was
+      // removed or demoted still has to ask the remaining voter.
+      if (trk_.IsSingleton() && trk_.GetConfig().voters.IDs().count(id_) != 0) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From 225115a791d9a7cbcd42a67ab21c719b830b14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:53 +0000
Subject: [PATCH 10/15] fix: Ready::String prints the snapshot when there is
 one instead of dereferencing a missing one

---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index f531e8f..e7ebbb9 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -123,7 +123,7 @@ std::string Ready::String() const {
     ss << "]" << std::endl;
   };
 
-  if (!snapshot) {
+  if (!IsEmptySnap(snapshot)) {
     ss << "snapshot index=" << snapshot->metadata().index() << " term=" << snapshot->metadata().term() << std::endl;
     print_vec(snapshot->metadata().conf_state().voters(), "voters");
     print_vec(snapshot->metadata().conf_state().learners(), "learners");
-- 
2.43.0


From bc6e86889c2b8a1033d3cb4f207d030ea1a54497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:53 +0000
Subject: [PATCH 11/15] fix: Ready::AppliedCursor copes with a Ready that holds
 no snapshot

---
 src/raft.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index e7ebbb9..017247b 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -79,9 +79,8 @@ uint64_t Ready::AppliedCursor() const {
   if (n > 0) {
     return committed_entries[n - 1]->index();
   }
-  auto index = snapshot->metadata().index();
-  if (index > 0) {
-    return index;
+  if (!IsEmptySnap(snapshot)) {
+    return snapshot->metadata().index();
   }
   return 0;
 }
-- 
2.43.0


From 762e164ed3e98300d72d1ee5b17324797e3a4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 12/15] fix: JointConfig::At bounds the index by the number of
 halves, not by their size in bytes

---
 src/quorum/joint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quorum/joint.h b/src/quorum/joint.h
index ce559e5..ae86222 100644
--- a/src/quorum/joint.h
+++ b/src/quorum/joint.h
@@ -34,7 +34,7 @@ class JointConfig {
       : configs_{std::move(c1), std::move(c2)} {}
 
   MajorityConfig& At(size_t i) {
-    if (i < 0 || i >= sizeof(configs_)) {
+    if (i < 0 || i >= sizeof(configs_) / sizeof(configs_[0])) {
       return configs_[0];
     }
     return configs_[i];
-- 
2.43.0


From d2c5accfe57f142e3afa8ecc834953770e0d8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 13/15] fix: MemoryStorage::InitialState read the hard state
 and the snapshot without taking the lock that protects them

---
 src/storage.cc | 1 +
 src/storage.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index a7eff2a..d8c34cc 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -39,6 +39,7 @@ MemoryStorage::MemoryStorage(std::shared_ptr<Logger> logger)
 
 std::tuple<raftpb::HardState, raftpb::ConfState, Status>
 MemoryStorage::InitialState() const {
+  std::shared_lock<std::shared_mutex> guard(mutex_);
   return std::make_tuple(hard_state_, snapshot_->metadata().conf_state(), Status::OK());
 }
 
diff --git a/src/storage.h b/src/storage.h
index a60705d..ab5ece9 100644
--- a/src/storage.h
+++ b/src/storage.h
@@ -156,7 +156,7 @@ class MemoryStorage : public Storage {
   // Protects access to all fields. Most methods of MemoryStorage are
   // run on the raft thread, but Append() is run on an application
   // thread.
-  std::shared_mutex mutex_;
+  mutable std::shared_mutex mutex_;
   raftpb::HardState hard_state_;
   SnapshotPtr snapshot_;
   // ents[i] has raft log position i+snapshot.Metadata.Index
-- 
2.43.0


From 7e18acc8e608f4ac1c62498d7790243cfd46d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 14/15] fix: MemoryStorage::CreateSnapshot of an entry that is
 already compacted read outside the log

---
 src/storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index d8c34cc..4302b68 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -145,6 +145,10 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
 
   assert(!ents_.empty());
   uint64_t offset = ents_[0]->index();
+  if (i < offset) {
+    return std::make_tuple(SnapshotPtr(), Status::Error(kErrCompacted));
+  }
+
   if (i > LastIndexUnSafe()) {
     // panic
     CRAFT_LOG_FATAL(logger_, "snapshot %d is out of bound lastindex(%d)", i,
-- 
2.43.0


From b528cef917dd20efd890253dfbd5b2ba561b05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:49 +0000
Subject: [PATCH 15/15] fix: refuse a conf change without changes but with a
 transition while joint

It was admitted as one that leaves the joint configuration, yet applying it
enters a joint configuration from a joint one, which is fatal on every node.
---
 src/raft.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 017247b..405a69e 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1008,14 +1008,18 @@ Status Raft::StepLeader(MsgPtr m) {
         if (!cc.IsNull()) {
           auto already_pending = pending_conf_index_ > raft_log_->Applied();
           auto already_joint = trk_.GetConfig().voters.At(1).Size() > 0;
-          auto wants_leave_joint = cc.AsV2().changes().size() == 0;
+          auto v2 = cc.AsV2();
+          auto no_changes = v2.changes().size() == 0;
+          // A change without changes that names a transition does not leave the
+          // joint config; applying it there would be fatal on every node.
+          auto wants_leave_joint = LeaveJoint(v2);
 
           std::string refused;
           if (already_pending) {
             refused = "possible unapplied conf change";
           } else if (already_joint && !wants_leave_joint) {
             refused = "must transition out of joint config first";
-          } else if (!already_joint && wants_leave_joint) {
+          } else if (!already_joint && no_changes) {
             refused = "not in joint state; refusing empty conf change";
           }
           if (!refused.empty()) {
-- 
2.43.0

