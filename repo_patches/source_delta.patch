From 72d4c1b822e3d6a828c0a4f1398b34018703b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 01/27] fix: a leader outside a single-voter configuration must
 not answer reads alone

---
 src/raft.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..0f3ff7d 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1038,8 +1038,10 @@ Status Raft::StepLeader(MsgPtr m) {
       return Status::OK();
     }
     case raftpb::MessageType::MsgReadIndex: {
-      // only one voting member (the leader) in the cluster
-      if (trk_.IsSingleton()) {
+      // Only one voting member in the cluster, and it is the leader itself. A
+      // leader that was removed or demoted must ask the remaining voter.
+      if (trk_.IsSingleton() &&
+          trk_.GetConfig().voters.Incoming().Exist(id_)) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From 1b83c135b1f8e7339468c04d598b9fcb550f52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 02/27] fix: a removed leader leaving a joint configuration
 dereferenced its missing progress

---
 src/raft.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 0f3ff7d..195b151 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -523,7 +523,12 @@ bool Raft::AppendEntry(const EntryPtrs& es) {
   }
   // use latest "last" index after truncate/append
   li = raft_log_->Append(es);
-  trk_.GetProgress(id_)->MaybeUpdate(li);
+  // A leader that was removed from the configuration tracks no progress of its
+  // own, but still has to append the entry that leaves a joint configuration.
+  auto pr = trk_.GetProgress(id_);
+  if (pr) {
+    pr->MaybeUpdate(li);
+  }
   // Regardless of maybeCommit's return, our caller will call bcastAppend.
   MaybeCommit();
   return true;
-- 
2.43.0


From 7d64073df77bc9bb76011b41b2af71899b5618c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 03/27] fix: Ready::String skipped every snapshot and
 dereferenced a null one

---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 195b151..48419df 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -123,7 +123,7 @@ std::string Ready::String() const {
     ss << "]" << std::endl;
   };
 
-  if (!snapshot) {
+  if (!IsEmptySnap(snapshot)) {
     ss << "snapshot index=" << snapshot->metadata().index() << " term=" << snapshot->metadata().term() << std::endl;
     print_vec(snapshot->metadata().conf_state().voters(), "voters");
     print_vec(snapshot->metadata().conf_state().learners(), "learners");
-- 
2.43.0


From b3d7da3361dc45fbc9b22a62751afe80bfe6c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 04/27] fix: Bootstrap did not refuse a nonempty storage

---
 src/rawnode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..00035b9 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,6 +60,9 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
 
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
-- 
2.43.0


From 5bfbb53ad98dfd34482da58495b66a175e66951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 05/27] fix: Inflights::FreeFirstOne read past an empty buffer

---
 src/tracker/inflights.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 47145b5..5f726bc 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -63,7 +63,11 @@ void Inflights::FreeLE(uint64_t to) {
   }
 }
 
-void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
+void Inflights::FreeFirstOne() {
+  if (count_ > 0) {
+    FreeLE(buffer_[start_]);
+  }
+}
 
 void Inflights::Grow() {
   int32_t new_size = buffer_.size() * 2;
-- 
2.43.0


From 81f00e4236caa8ae9f88fdc65167189890b310b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 06/27] fix: ConfChangesFromString accepted malformed node ids

---
 src/raftpb/confchange.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 9882217..6c81c70 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -13,6 +13,8 @@
 // limitations under the License.
 #include "src/raftpb/confchange.h"
 
+#include <cerrno>
+#include <cstdlib>
 #include <sstream>
 
 #include "src/logger.h"
@@ -113,11 +115,10 @@ std::tuple<std::vector<raftpb::ConfChangeSingle>, Status> ConfChangesFromString(
     } else {
       return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow input: %s", token.c_str()));
     }
-    uint64_t id;
-    try {
-      id = std::strtoull(token.data()+1, nullptr, 10);
-    } catch (const std::exception& e) {
-      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", e.what()));
+    errno = 0;
+    uint64_t id = std::strtoull(token.c_str() + 1, nullptr, 10);
+    if (errno != 0 || token.find_first_not_of("0123456789", 1) != std::string::npos) {
+      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", token.c_str()));
     }
     cc.set_node_id(id);
     ccs.emplace_back(cc);
-- 
2.43.0


From e6444963306f8693dc0916e93647cbd014fb303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 07/27] fix: ConfChangeI::AsV2 dereferenced an unset change

---
 src/raftpb/confchange.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 6c81c70..e9fea34 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -25,6 +25,9 @@ namespace craft {
 raftpb::ConfChangeV2 ConfChangeI::AsV2() const {
   if (!cc_v2_) {
     raftpb::ConfChangeV2 cc_v2;
+    if (!cc_) {
+      return cc_v2;
+    }
     auto change_single = cc_v2.add_changes();
     change_single->set_type(cc_->type());
     change_single->set_node_id(cc_->node_id());
-- 
2.43.0


From 0daaa49923d3a994ef4d79f093a1a08bca56708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/27] fix: JointConfig::At checked its index against a byte
 count

---
 src/quorum/joint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quorum/joint.h b/src/quorum/joint.h
index ce559e5..f39932c 100644
--- a/src/quorum/joint.h
+++ b/src/quorum/joint.h
@@ -34,7 +34,7 @@ class JointConfig {
       : configs_{std::move(c1), std::move(c2)} {}
 
   MajorityConfig& At(size_t i) {
-    if (i < 0 || i >= sizeof(configs_)) {
+    if (i >= sizeof(configs_) / sizeof(configs_[0])) {
       return configs_[0];
     }
     return configs_[i];
-- 
2.43.0


From 0460aa521f7d53b4f4698817dde55a90a7072f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 09/27] fix: CreateSnapshot modified snapshots it had returned
 before

---
 src/storage.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..1b33694 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,6 +150,9 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
+  // The current snapshot may have been handed out already, so that it must not
+  // change.
+  snapshot_ = std::make_shared<raftpb::Snapshot>(*snapshot_);
   snapshot_->mutable_metadata()->set_index(i);
   snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-- 
2.43.0


From 6324cd0766c840333b878ad4de2acf19bf70e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 10/27] fix: MemoryStorage::InitialState read shared state
 without the lock

---
 src/storage.cc | 1 +
 src/storage.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 1b33694..956eb2c 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -39,6 +39,7 @@ MemoryStorage::MemoryStorage(std::shared_ptr<Logger> logger)
 
 std::tuple<raftpb::HardState, raftpb::ConfState, Status>
 MemoryStorage::InitialState() const {
+  std::shared_lock<std::shared_mutex> guard(mutex_);
   return std::make_tuple(hard_state_, snapshot_->metadata().conf_state(), Status::OK());
 }
 
diff --git a/src/storage.h b/src/storage.h
index a60705d..ab5ece9 100644
--- a/src/storage.h
+++ b/src/storage.h
@@ -156,7 +156,7 @@ class MemoryStorage : public Storage {
   // Protects access to all fields. Most methods of MemoryStorage are
   // run on the raft thread, but Append() is run on an application
   // thread.
-  std::shared_mutex mutex_;
+  mutable std::shared_mutex mutex_;
   raftpb::HardState hard_state_;
   SnapshotPtr snapshot_;
   // ents[i] has raft log position i+snapshot.Metadata.Index
-- 
2.43.0


From 0b28591ea9fbade0397377f02f21aad780d0a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 11/27] fix: a read request without entries read out of bounds

---
 src/raft.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 48419df..dbbda75 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1043,6 +1043,11 @@ Status Raft::StepLeader(MsgPtr m) {
       return Status::OK();
     }
     case raftpb::MessageType::MsgReadIndex: {
+      if (m->entries().empty()) {
+        CRAFT_LOG_INFO(logger_,
+            "%llu ignoring MsgReadIndex without entries from %llu", id_, m->from());
+        return Status::OK();
+      }
       // Only one voting member in the cluster, and it is the leader itself. A
       // leader that was removed or demoted must ask the remaining voter.
       if (trk_.IsSingleton() &&
-- 
2.43.0


From 405c16508f3e27ae97c006b45c4a9343cebd40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 12/27] fix: a conf change dropped for its size blocked the
 automatic leave of a joint configuration

---
 src/raft.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index dbbda75..d90e34f 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -995,6 +995,7 @@ Status Raft::StepLeader(MsgPtr m) {
         return Status::Error(kErrProposalDropped);
       }
 
+      auto prev_pending_conf_index = pending_conf_index_;
       for (int i = 0; i < m->entries_size(); i++) {
         auto& e = m->entries()[i];
         ConfChangeI cc;
@@ -1037,6 +1038,8 @@ Status Raft::StepLeader(MsgPtr m) {
       }
 
       if (!AppendEntry(Util::MakeEntries(m))) {
+        // Nothing was appended, so no conf change became pending either.
+        pending_conf_index_ = prev_pending_conf_index;
         return Status::Error(kErrProposalDropped);
       }
       BcastAppend();
-- 
2.43.0


From ec68e844a99b0c57c8ab0cb364836f369dc3a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 13/27] fix: a node with a higher term than the leader could
 stay unreplicated forever

Messages of a leader at a lower term were only answered with checkQuorum or
Pre-Vote. Without them a learner, or a voter whose outdated configuration does
not include the leader, never made the leader learn about the higher term.
---
 src/raft.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index d90e34f..837a5cd 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -807,9 +807,8 @@ Status Raft::Step(MsgPtr m) {
       }
     }
   } else if (m->term() < term_) {
-    if ((check_quorum_ || pre_vote_) &&
-        (m->type() == raftpb::MessageType::MsgHeartbeat ||
-         m->type() == raftpb::MessageType::MsgApp)) {
+    if (m->type() == raftpb::MessageType::MsgHeartbeat ||
+        m->type() == raftpb::MessageType::MsgApp) {
       // We have received messages from a leader at a lower term. It is possible
       // that these messages were simply delayed in the network, but this could
       // also mean that this node has advanced its term number during a network
@@ -831,6 +830,10 @@ Status Raft::Step(MsgPtr m) {
       // with "pb.MsgAppResp" of higher term would force leader to step down.
       // However, this disruption is inevitable to free this stuck node with
       // fresh election. This can be prevented with Pre-Vote phase.
+      //
+      // Without checkQuorum and Pre-Vote the answer is needed as well: a learner
+      // never sends MsgVote, and a node whose configuration is outdated may not
+      // send it to the leader, which would then never learn about the term.
       auto msg = std::make_shared<raftpb::Message>();
       msg->set_to(m->from());
       msg->set_type(raftpb::MessageType::MsgAppResp);
-- 
2.43.0


From ad12e5ae3f303fadcd7ef30dc4e1908d64115c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 14/27] fix: a candidate at an outdated term was not told about
 the current one

Two nodes whose configurations differ could campaign next to each other without
the only electable one ever reaching the term of the voter it needs.
---
 src/raft.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 837a5cd..395bdae 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -854,6 +854,16 @@ Status Raft::Step(MsgPtr m) {
       msg->set_type(raftpb::MessageType::MsgPreVoteResp);
       msg->set_reject(true);
       Send(msg);
+    } else if (m->type() == raftpb::MessageType::MsgVote) {
+      // Let the candidate catch up with the term. Otherwise it may keep
+      // campaigning at outdated terms, when this node, campaigning as well, does
+      // not know about the candidate.
+      auto msg = std::make_shared<raftpb::Message>();
+      msg->set_to(m->from());
+      msg->set_term(term_);
+      msg->set_type(raftpb::MessageType::MsgVoteResp);
+      msg->set_reject(true);
+      Send(msg);
     } else {
       // ignore other cases
       CRAFT_LOG_INFO(logger_,
-- 
2.43.0


From 9a59555be2331eb67659a9fabc29e918edfe1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 15/27] fix: a removed leader went on transferring to a node
 that was demoted with it

---
 src/raft.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 395bdae..b831e08 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1755,6 +1755,13 @@ raftpb::ConfState Raft::SwitchToConfig(const ProgressTracker::Config& cfg,
 	// node is removed.
   is_learner_ = pr && pr->IsLearner();
 
+  // If the leadTransferee was removed or demoted, abort the leadership
+  // transfer.
+  if (trk_.GetConfig().voters.IDs().count(lead_transferee_) == 0 &&
+      lead_transferee_ != 0) {
+    AbortLeaderTransfer();
+  }
+
   // Update whether the node itself is a learner, resetting to false when the
   // node is removed.
   if ((!pr || pr->IsLearner()) && state_ == RaftStateType::kLeader) {
@@ -1787,12 +1794,6 @@ raftpb::ConfState Raft::SwitchToConfig(const ProgressTracker::Config& cfg,
     trk_.Visit(
         [this](uint64_t id, ProgressPtr& pr) { MaybeSendAppend(id, false); });
   }
-  // If the leadTransferee was removed or demoted, abort the leadership
-  // transfer.
-  if (trk_.GetConfig().voters.IDs().count(lead_transferee_) == 0 &&
-      lead_transferee_ != 0) {
-    AbortLeaderTransfer();
-  }
   return cs;
 }
 
-- 
2.43.0


From 96de8a9afdccbeeea4ddfbf19bf972f4ef30d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 16/27] fix: CreateSnapshot read out of bounds below a
 compacted index

---
 src/storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index 956eb2c..162032e 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -145,6 +145,10 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
 
   assert(!ents_.empty());
   uint64_t offset = ents_[0]->index();
+  if (i < offset) {
+    // the term of the entry is no longer known.
+    return std::make_tuple(SnapshotPtr(), Status::Error(kErrCompacted));
+  }
   if (i > LastIndexUnSafe()) {
     // panic
     CRAFT_LOG_FATAL(logger_, "snapshot %d is out of bound lastindex(%d)", i,
-- 
2.43.0


From dd58f982aabe7e8ba4e87c16928cecc2afb36a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 17/27] fix: MemoryStorage::Entries copied an inverted range
 out of bounds

---
 src/storage.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index 162032e..6f2184f 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -69,6 +69,11 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
               LastIndexUnSafe());
   }
 
+  if (lo > hi) {
+    // panic
+    CRAFT_LOG_FATAL(logger_, "entries' lo(%d) is after hi(%d)", lo, hi);
+  }
+
   // only contains dummy entries.
   if (ents_.size() == 1) {
     return std::make_tuple(EntryPtrs(), Status::Error(kErrUnavailable));
-- 
2.43.0


From cdafa6300726c2b9deb58e25c53c370253ea22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 18/27] fix: appending entries beyond the end of the log erased
 out of bounds

An append whose previous index lies beyond the last index and whose previous
term is zero matches (Term is zero there), and Unstable::TruncateAndAppend then
erased from beyond its end. Report it as fatal, as Unstable::Slice does.
---
 src/log_unstable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_unstable.cc b/src/log_unstable.cc
index adb1937..b577444 100644
--- a/src/log_unstable.cc
+++ b/src/log_unstable.cc
@@ -99,6 +99,7 @@ void Unstable::TruncateAndAppend(const EntryPtrs& ents) {
   } else {
     // truncate to after and copy to u.entries
     // then append
+    MustCheckOutOfBounds(offset_, after);
     entries_.erase(entries_.begin() + (after - offset_), entries_.end());
 
     entries_.insert(entries_.end(), ents.begin(), ents.end());
-- 
2.43.0


From 57cd238f1ca5b943a990b731da8140502e9c55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 19/27] fix: Advance after AcceptReady dereferenced a null
 Ready

AcceptReady is public but did not remember the Ready it accepted, so that the
Advance that follows it dereferenced null, and so did an Advance without any
Ready.
---
 src/rawnode.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index 00035b9..751507e 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -160,9 +160,9 @@ Status RawNode::Step(MsgPtr m) {
 }
 
 std::shared_ptr<Ready> RawNode::GetReady() {
-  ready_ = ReadyWithoutAccept();
-  AcceptReady(ready_);
-  return ready_;
+  auto rd = ReadyWithoutAccept();
+  AcceptReady(rd);
+  return rd;
 }
 
 std::shared_ptr<Ready> RawNode::ReadyWithoutAccept() {
@@ -170,6 +170,7 @@ std::shared_ptr<Ready> RawNode::ReadyWithoutAccept() {
 }
 
 void RawNode::AcceptReady(std::shared_ptr<Ready> rd) {
+  ready_ = rd;
   if (rd->soft_state.has_value()) {
     prev_soft_st_ = *(rd->soft_state);
   }
@@ -202,6 +203,10 @@ bool RawNode::HasReady() const {
 }
 
 void RawNode::Advance() {
+  if (!ready_) {
+    // No Ready has been accepted since the last call.
+    return;
+  }
   if (!IsEmptyHardState(ready_->hard_state)) {
     prev_hard_st_ = ready_->hard_state;
   }
-- 
2.43.0


From ec4438ce442a55ac69dd8c5f8e6a5cd85afead9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 20/27] fix: a restored configuration that differs from the
 stored one went unnoticed without assertions

The comparison was an assert, so that a release build went on with another
configuration than the one in the storage or snapshot. Report it as fatal.
---
 src/raft.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index b831e08..e2f609d 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -218,7 +218,9 @@ std::unique_ptr<Raft> Raft::New(Raft::Config& c) {
   }
 
   auto cs2 = r->SwitchToConfig(cfg, prs);
-  assert(cs == cs2);
+  if (!(cs == cs2)) {
+    CRAFT_LOG_FATAL(c.logger, "config restored from storage is not equivalent");
+  }
 
   if (!IsEmptyHardState(hs)) {
     r->LoadState(hs);
@@ -1698,7 +1700,9 @@ bool Raft::Restore(SnapshotPtr s) {
   }
 
   auto cs2 = SwitchToConfig(cfg, prs);
-  assert(cs == cs2);
+  if (!(cs == cs2)) {
+    CRAFT_LOG_FATAL(logger_, "config restored from snapshot is not equivalent");
+  }
 
   auto pr = trk_.GetProgress(id_);
   pr->MaybeUpdate(pr->Next() -
-- 
2.43.0


From eb1e03d41a7f427734dfebb4f5c33aea1f532f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 21/27] fix: MemoryStorage::Entries computed iterators far
 outside of a compacted log

begin() + lo is evaluated before the offset is subtracted, and a deque iterator
reads the node it points to, which crashes once the log starts at a large
index.
---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 6f2184f..5c2e5a7 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -81,7 +81,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0


From f9a261b1a904426eab2ef9d2889cdee1b44f7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 22/27] fix: a snapshot at the largest index made the log read
 out of bounds

The offset after such a snapshot overflows to zero, so that the last index was
looked up among the unstable entries.
---
 src/log_unstable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_unstable.cc b/src/log_unstable.cc
index b577444..b55e214 100644
--- a/src/log_unstable.cc
+++ b/src/log_unstable.cc
@@ -49,7 +49,8 @@ std::tuple<uint64_t, bool> Unstable::MaybeTerm(uint64_t i) const {
   if (!ok) {
     return std::make_tuple(0, false);
   }
-  if (i > last) {
+  // The second condition matters when the index after the snapshot overflows.
+  if (i > last || i - offset_ >= entries_.size()) {
     return std::make_tuple(0, false);
   }
 
-- 
2.43.0


From d149526b883b47fa6ef9717637d9a02084d922b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 23/27] fix: a candidate that was removed while campaigning
 dereferenced its missing progress

An application that applies a change after Advance can remove or demote a
candidate. Winning the election afterwards, it must not become the leader.
---
 src/raft.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index e2f609d..c3d6ecc 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1430,7 +1430,10 @@ Status Raft::StepCandidate(MsgPtr m) {
     CRAFT_LOG_INFO(logger_, "%llu has received %lld %s votes and %lld vote rejections", id_,
               gr, raftpb::MessageType_Name(m->type()).c_str(), rj);
     if (res == VoteState::kVoteWon) {
-      if (state_ == RaftStateType::kPreCandidate) {
+      if (!Promotable()) {
+        // This node was removed or demoted while it was campaigning.
+        BecomeFollower(term_, kNone);
+      } else if (state_ == RaftStateType::kPreCandidate) {
         Campaign(CampaignType::kElection);
       } else {
         BecomeLeader();
-- 
2.43.0


From f6a4895c76892d61247a85513b003e3622b3080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 24/27] fix: election timeouts of 2^31 ticks or more drew the
 wait from an invalid range

---
 src/raft.cc | 3 +--
 src/util.cc | 4 ++--
 src/util.h  | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index c3d6ecc..1e771ce 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1820,8 +1820,7 @@ bool Raft::PastElectionTimeout() const {
 }
 
 void Raft::ResetRandomizedElectionTimeout() {
-  auto random = Util::Random(0, static_cast<int>(election_timeout_-1));
-  randomized_election_timeout_ = election_timeout_ + static_cast<int64_t>(random);
+  randomized_election_timeout_ = election_timeout_ + Util::Random(0, election_timeout_ - 1);
 }
 
 void Raft::SendTimeoutNow(uint64_t to) {
diff --git a/src/util.cc b/src/util.cc
index b43e322..cd6534c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -104,8 +104,8 @@ bool Util::IsResponseMsg(raftpb::MessageType msgt) {
          msgt == raftpb::MessageType::MsgPreVoteResp;
 }
 
-int Util::Random(int lower_bound, int upper_bound) {
-  std::uniform_int_distribution<int> distribution(lower_bound, upper_bound);
+int64_t Util::Random(int64_t lower_bound, int64_t upper_bound) {
+  std::uniform_int_distribution<int64_t> distribution(lower_bound, upper_bound);
   return distribution(gen_);
 }
 
diff --git a/src/util.h b/src/util.h
index 25cb49c..03e05a6 100644
--- a/src/util.h
+++ b/src/util.h
@@ -55,7 +55,7 @@ class Util {
   static bool IsResponseMsg(raftpb::MessageType msgt);
 
   // [lower_bound, upper_bound]
-  static int Random(int lower_bound, int upper_bound);
+  static int64_t Random(int64_t lower_bound, int64_t upper_bound);
 
  private:
   static thread_local std::mt19937 gen_;
-- 
2.43.0


From 87ee4631b401150076587080cb0bbaeb626236d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 25/27] fix: windows of 2^31 or more in-flight messages were
 truncated to 32 bits and written out of bounds

---
 src/tracker/inflights.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 5f726bc..d3cc70a 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -21,12 +21,12 @@ void Inflights::Add(uint64_t inflight) {
   if (Full()) {
     CRAFT_LOG_FATAL(logger_, "cannot add into a Full inflights");
   }
-  int32_t next = start_ + count_;
-  int32_t size = size_;
+  int64_t next = start_ + count_;
+  int64_t size = size_;
   if (next >= size) {
     next -= size;
   }
-  if (next >= static_cast<int32_t>(buffer_.size())) {
+  if (next >= static_cast<int64_t>(buffer_.size())) {
     Grow();
   }
   buffer_[next] = inflight;
@@ -39,8 +39,8 @@ void Inflights::FreeLE(uint64_t to) {
     return;
   }
 
-  int32_t idx = start_;
-  int32_t i;
+  int64_t idx = start_;
+  int64_t i;
   for (i = 0; i < count_; i++) {
     if (to < buffer_[idx]) {  // found the first large inflight
       break;
@@ -70,7 +70,7 @@ void Inflights::FreeFirstOne() {
 }
 
 void Inflights::Grow() {
-  int32_t new_size = buffer_.size() * 2;
+  int64_t new_size = buffer_.size() * 2;
   if (new_size == 0) {
     new_size = 1;
   } else if (new_size > size_) {
-- 
2.43.0


From 96627a48d2bbfc6ae48fab1eec1fdb34ae1b79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 26/27] fix: a MsgApp with entries out of sequence corrupted
 the log and made a later leader replicate endlessly

---
 src/raft.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 1e771ce..16fe650 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1538,6 +1538,15 @@ Status Raft::StepFollower(MsgPtr m) {
 }
 
 void Raft::HandleAppendEntries(MsgPtr m) {
+  for (int i = 0; i < m->entries_size(); i++) {
+    if (m->entries(i).index() != m->index() + 1 + i) {
+      CRAFT_LOG_WARNING(logger_,
+          "%llu ignored a MsgApp from %llu: entry %llu is out of sequence after index %llu",
+          id_, m->from(), m->entries(i).index(), m->index() + i);
+      return;
+    }
+  }
+
   if (m->index() < raft_log_->Committed()) {
     auto resp = std::make_shared<raftpb::Message>();
     resp->set_to(m->from());
-- 
2.43.0


From 3521841b123df7b2b2749c099611abcac1da6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 27/27] fix: requests to transfer leadership put off the quorum
 check of a cut-off leader

---
 src/raft.cc | 17 +++++++++++------
 src/raft.h  |  2 ++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 16fe650..2b5b638 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -261,6 +261,7 @@ Raft::Raft(const Config& c, std::unique_ptr<RaftLog>&& raft_log)
       is_learner_(false),
       lead_(kNone),
       lead_transferee_(kNone),
+      transfer_elapsed_(0),
       pending_conf_index_(0),
       uncommitted_size_(0),
       read_only_(std::make_unique<ReadOnly>(c.logger, c.read_only_option)),
@@ -566,9 +567,13 @@ void Raft::TickHeartbeat() {
                   status.Str());
       }
     }
-    // If current leader cannot transfer leadership in electionTimeout, it
-    // becomes leader again.
-    if (state_ == RaftStateType::kLeader && lead_transferee_ != kNone) {
+  }
+
+  // If current leader cannot transfer leadership in electionTimeout, it
+  // becomes leader again.
+  if (state_ == RaftStateType::kLeader && lead_transferee_ != kNone) {
+    transfer_elapsed_++;
+    if (transfer_elapsed_ >= election_timeout_) {
       AbortLeaderTransfer();
     }
   }
@@ -1377,9 +1382,9 @@ Status Raft::StepLeader(MsgPtr m) {
       // Transfer leadership to third party.
       CRAFT_LOG_INFO(logger_, "%llu [term %llu] starts to transfer leadership to %llu", id_,
                term_, lead_transferee);
-      // Transfer leadership should be finished in one electionTimeout, so reset
-      // r.electionElapsed.
-      election_elapsed_ = 0;
+      // Transfer leadership should be finished in one electionTimeout. It has
+      // a clock of its own: requests must not put off the quorum check.
+      transfer_elapsed_ = 0;
       lead_transferee_ = lead_transferee;
       if (pr->Match() == raft_log_->LastIndex()) {
         SendTimeoutNow(lead_transferee);
diff --git a/src/raft.h b/src/raft.h
index dea74e3..37cb7f5 100644
--- a/src/raft.h
+++ b/src/raft.h
@@ -471,6 +471,8 @@ class Raft {
   // lead_transferee_ is id of the leader transfer target when its value is not
   // zero. Follow the procedure defined in raft thesis 3.10.
   uint64_t lead_transferee_;
+  // number of ticks since the leader transfer in progress was requested.
+  int64_t transfer_elapsed_;
 
   // Only one conf change may be pending (in the log, but not yet
   // applied) at a time. This is enforced via pendingConfIndex, which
-- 
2.43.0

