From 43c78e60b50da7a3e833d652a06f44fbee633204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 01/22] fix: a leader that starts an election gives up its
 current leadership

---
 openraft/src/engine/engine_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..3add463 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -212,6 +212,11 @@ where C: RaftTypeConfig
         let new_term = self.state.vote.leader_id().term + 1;
         let new_vote = Vote::new(new_term, self.config.id);
 
+        // If this node is the Leader(an election may be triggered by the application at any time),
+        // it gives up the current leadership:
+        // the vote is about to be replaced, thus the `Leader` can not propose or commit any more.
+        self.leader = None;
+
         let candidate = self.new_candidate(new_vote);
 
         tracing::info!("{}, new candidate: {}", func_name!(), candidate);
-- 
2.43.0


From e3981e42137b484d015a5103e84945b7b944bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 02/22] fix: keep progress values greater than the granted
 sorted in VecProgress

An update to a progress that is already greater than the granted value did not
move it up, so a later update counted a node with a smaller value as one that
had granted the value.
---
 openraft/src/progress/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..8ce9581 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,15 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        if new_gt_granted {
+            // Values greater than the granted have to be always sorted,
+            // even if this update itself does not affect the granted value.
             let new_index = self.move_up(index);
 
+            if !prev_le_granted {
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From 786d25b5cc5e2faef1fcd6f5cb6d893871a11da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 03/22] fix: heartbeat rejected by a higher vote is not an
 acknowledgement

---
 openraft/src/core/heartbeat/worker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..0831939 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -93,6 +94,10 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                // A node with a higher vote does not acknowledge this leader.
+                Ok(Ok(AppendEntriesResponse::HigherVote(higher))) => {
+                    tracing::warn!("{} is rejected by a higher vote: {}", self, higher);
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From 80d7ceae297e8a2c89356cbda3a00e965787124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 04/22] fix: a newer snapshot than the scheduled one may have
 been sent to a follower

The debug assertion required the acknowledged snapshot to be exactly the one
known when the replication was scheduled, and stopped the leader otherwise.
---
 openraft/src/progress/inflight/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/inflight/mod.rs b/openraft/src/progress/inflight/mod.rs
index 42b7afe..e94d2da 100644
--- a/openraft/src/progress/inflight/mod.rs
+++ b/openraft/src/progress/inflight/mod.rs
@@ -116,7 +116,9 @@ where C: RaftTypeConfig
                 }
             }
             Inflight::Snapshot { last_log_id } => {
-                debug_assert_eq!(&upto, last_log_id);
+                // The snapshot to send is read after this inflight state is created,
+                // thus a newer one may have been sent.
+                debug_assert!(&upto >= last_log_id);
                 *self = Inflight::None;
             }
         }
-- 
2.43.0


From 2cee779ecb5610ef589f2fe03f338d393a3df952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 05/22] fix: replication does not panic if the logs to send are
 removed

A replication task of a node that just lost leadership may find the logs it is
about to send truncated or purged.
---
 openraft/src/replication/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openraft/src/replication/mod.rs b/openraft/src/replication/mod.rs
index fbbe46e..82eac78 100644
--- a/openraft/src/replication/mod.rs
+++ b/openraft/src/replication/mod.rs
@@ -397,8 +397,12 @@ where
                 // limited_get_log_entries will return logs smaller than the range [start, end).
                 let logs = self.log_reader.limited_get_log_entries(start, end).await?;
 
-                let first = *logs.first().map(|x| x.get_log_id()).unwrap();
-                let last = *logs.last().map(|x| x.get_log_id()).unwrap();
+                // The logs are removed(truncated or purged) after this node is no longer the Leader.
+                // Such logs must not be replicated and this replication is about to be closed.
+                let (Some(first), Some(last)) = (logs.first(), logs.last()) else {
+                    return Err(ReplicationClosed::new("logs to replicate are removed").into());
+                };
+                let (first, last) = (*first.get_log_id(), *last.get_log_id());
 
                 debug_assert!(
                     !logs.is_empty() && logs.len() <= (end - start) as usize,
-- 
2.43.0


From 2062325649285d1a0600d0f20f7bbe45cbb8cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:26 +0000
Subject: [PATCH 06/22] fix: clients waiting for logs covered by an installed
 snapshot are answered

A deposed leader that received a snapshot purged the logs it had proposed
without informing the clients waiting for them, they waited forever.
---
 openraft/src/core/raft_core.rs | 47 ++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..c44b695 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -779,6 +779,29 @@ where
         }
     }
 
+    /// Inform clients whose logs won't be applied by this node to retry on the leader.
+    fn forward_clients_to_leader(&self, removed: BTreeMap<u64, ResponderOf<C>>) {
+        if removed.is_empty() {
+            return;
+        }
+
+        let leader_id = self.current_leader();
+        let leader_node = self.get_leader_node(leader_id);
+
+        // False positive lint warning(`non-binding `let` on a future`): https://github.com/rust-lang/rust-clippy/issues/9932
+        #[allow(clippy::let_underscore_future)]
+        let _ = C::spawn(async move {
+            for (log_index, tx) in removed.into_iter() {
+                tx.send(Err(ClientWriteError::ForwardToLeader(ForwardToLeader {
+                    leader_id,
+                    leader_node: leader_node.clone(),
+                })));
+
+                tracing::debug!("sent ForwardToLeader for log_index: {}", log_index,);
+            }
+        });
+    }
+
     /// Send result of applying a log entry to its client.
     #[tracing::instrument(level = "debug", skip_all)]
     pub(super) fn send_response(entry: ApplyingEntry<C>, resp: C::R, tx: Option<ResponderOf<C>>) {
@@ -1484,6 +1507,12 @@ where
                             let st = self.engine.state.io_state_mut();
                             st.update_applied(meta.last_log_id);
                             st.update_snapshot(meta.last_log_id);
+
+                            // The logs covered by the snapshot won't be applied one by one on this node,
+                            // clients waiting for them will never get a response of applying.
+                            let after = self.client_resp_channels.split_off(&meta.last_log_id.next_index());
+                            let covered = std::mem::replace(&mut self.client_resp_channels, after);
+                            self.forward_clients_to_leader(covered);
                         }
                     }
                     sm::Response::Apply(res) => {
@@ -1722,23 +1751,7 @@ where
 
                 // Inform clients waiting for logs to be applied.
                 let removed = self.client_resp_channels.split_off(&since.index);
-                if !removed.is_empty() {
-                    let leader_id = self.current_leader();
-                    let leader_node = self.get_leader_node(leader_id);
-
-                    // False positive lint warning(`non-binding `let` on a future`): https://github.com/rust-lang/rust-clippy/issues/9932
-                    #[allow(clippy::let_underscore_future)]
-                    let _ = C::spawn(async move {
-                        for (log_index, tx) in removed.into_iter() {
-                            tx.send(Err(ClientWriteError::ForwardToLeader(ForwardToLeader {
-                                leader_id,
-                                leader_node: leader_node.clone(),
-                            })));
-
-                            tracing::debug!("sent ForwardToLeader for log_index: {}", log_index,);
-                        }
-                    });
-                }
+                self.forward_clients_to_leader(removed);
             }
             Command::SendVote { vote_req } => {
                 self.spawn_parallel_vote_requests(&vote_req).await;
-- 
2.43.0


From 836184c3b99a425d380d5de31f2c826014566b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 07/22] fix: ignore transferring leadership to a node that is
 not another voter

---
 openraft/src/engine/engine_impl.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 3add463..3f544b9 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -623,6 +623,17 @@ where C: RaftTypeConfig
             return;
         };
 
+        // Only another voter is able to take over the leadership.
+        // Otherwise, this Leader would stop proposing and sending heartbeat, with no one to replace it.
+        if to == lh.config.id || !lh.state.membership_state.effective().is_voter(&to) {
+            tracing::warn!(
+                to = display(to),
+                "{}: target is not another voter, ignore transfer Leader",
+                func_name!()
+            );
+            return;
+        }
+
         lh.transfer_leader(to);
     }
 }
-- 
2.43.0


From 4edb0c57145f6a8e024a74b2bde0eb652fed7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 08/22] fix: a removed leader that has not yet stepped down may
 propose membership

---
 openraft/src/engine/handler/replication_handler/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index bb438a7..1bcc154 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -60,8 +60,10 @@ where C: RaftTypeConfig
             self.state.server_state == ServerState::Leader,
             "Only leader is allowed to call update_effective_membership()"
         );
+        // A leader that is removed from the membership keeps working until it steps down.
         debug_assert!(
-            self.state.is_leader(&self.config.id),
+            self.state.vote_ref().is_committed()
+                && self.state.vote_ref().leader_id().voted_for().as_ref() == Some(&self.config.id),
             "Only leader is allowed to call update_effective_membership()"
         );
 
-- 
2.43.0


From 90e56c54f274323bc06dd0527585aa2c3faf767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 09/22] fix: a snapshot built slower than a newer one is
 installed does not revert the snapshot state

---
 openraft/src/core/raft_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index c44b695..935a0d3 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1491,7 +1491,10 @@ where
                         self.engine.finish_building_snapshot(meta);
 
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        // A greater snapshot may have been installed while this one was being built.
+                        if last_log_id.as_ref() > st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From a0c089ea389ec019f3756c7cc1b18c3ebdbc0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 10/22] fix: on startup truncate stale logs that a newer state
 machine supersedes

---
 openraft/src/storage/helper.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openraft/src/storage/helper.rs b/openraft/src/storage/helper.rs
index d188654..13e722b 100644
--- a/openraft/src/storage/helper.rs
+++ b/openraft/src/storage/helper.rs
@@ -99,8 +99,6 @@ where
             last_applied = committed;
         }
 
-        let mem_state = self.get_membership().await?;
-
         // Clean up dirty state: snapshot is installed but logs are not cleaned.
         if last_log_id < last_applied {
             tracing::info!(
@@ -110,11 +108,23 @@ where
                 last_applied.display(),
             );
 
+            // Logs after `last_applied`, with smaller log id, conflict with the installed snapshot.
+            if last_applied.next_index() < last_log_id.next_index() {
+                let next = last_applied.next_index();
+                let conflict = log_reader.try_get_log_entries(next..=next).await?;
+                if let Some(ent) = conflict.first() {
+                    self.log_store.truncate(*ent.get_log_id()).await?;
+                }
+            }
+
             self.log_store.purge(last_applied.unwrap()).await?;
             last_log_id = last_applied;
             last_purged_log_id = last_applied;
         }
 
+        // Membership is loaded after cleaning up, otherwise it may be read from a stale log.
+        let mem_state = self.get_membership().await?;
+
         tracing::info!(
             "load key log ids from ({},{}]",
             last_purged_log_id.display(),
-- 
2.43.0


From d51318903f18451ef7d6b8dba1f3fec0348eff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 11/22] fix: applying logs does not panic if a snapshot
 covering them is received meanwhile

---
 openraft/src/core/raft_core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 935a0d3..52772c1 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1774,7 +1774,12 @@ where
                 already_committed,
                 upto,
             } => {
-                let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();
+                // If a snapshot is received while this command is pending, the logs to apply are already purged
+                // from the engine state, but they stay in the log store until the snapshot is installed.
+                // In such case only the index of the first log is known.
+                let index = already_committed.next_index();
+                let first =
+                    self.engine.state.get_log_id(index).unwrap_or_else(|| LogId::new(upto.leader_id, index));
                 self.apply_to_state_machine(first, upto).await?;
             }
             Command::Replicate { req, target } => {
-- 
2.43.0


From 22e382d014777f51a065f3ff28356a5acc2144bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 12/22] fix: a restarted leader serves reads only after its
 previous logs are committed

---
 openraft/src/engine/handler/leader_handler/mod.rs |  4 +++-
 openraft/src/proposer/leader.rs                   | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/openraft/src/engine/handler/leader_handler/mod.rs b/openraft/src/engine/handler/leader_handler/mod.rs
index 368f09e..2a9d01e 100644
--- a/openraft/src/engine/handler/leader_handler/mod.rs
+++ b/openraft/src/engine/handler/leader_handler/mod.rs
@@ -112,7 +112,9 @@ where C: RaftTypeConfig
     pub(crate) fn get_read_log_id(&self) -> Option<LogIdOf<C>> {
         let committed = self.state.committed().copied();
         // noop log id is the first log this leader proposed.
-        std::cmp::max(self.leader.noop_log_id, committed)
+        let read_log_id = std::cmp::max(self.leader.noop_log_id, committed);
+        // A restarted leader does not know whether the logs it proposed before are committed.
+        std::cmp::max(read_log_id, self.leader.restored_log_id)
     }
 
     /// Disable proposing new logs for this Leader, and transfer Leader to another node
diff --git a/openraft/src/proposer/leader.rs b/openraft/src/proposer/leader.rs
index 4a81d05..e4b4849 100644
--- a/openraft/src/proposer/leader.rs
+++ b/openraft/src/proposer/leader.rs
@@ -59,6 +59,12 @@ where C: RaftTypeConfig
     /// It is set when leader established.
     pub(crate) noop_log_id: Option<LogIdOf<C>>,
 
+    /// The last log id this leader proposed before it restarted, if it restarted without losing
+    /// leadership.
+    ///
+    /// Logs up to it may already have been committed, although this leader does not know it yet.
+    pub(crate) restored_log_id: Option<LogIdOf<C>>,
+
     /// Tracks the replication progress and committed index
     pub(crate) progress: VecProgress<C::NodeId, ProgressEntry<C>, Option<LogIdOf<C>>, QS>,
 
@@ -102,7 +108,9 @@ where
         let vote_leader_id = vote.committed_leader_id();
         let first = last_leader_log_id.first();
 
-        let noop_log_id = if first.map(|x| *x.committed_leader_id()) == Some(vote_leader_id) {
+        let is_restarted = first.map(|x| *x.committed_leader_id()) == Some(vote_leader_id);
+
+        let noop_log_id = if is_restarted {
             // There is already log id proposed by the this leader.
             // E.g. the Leader is restarted without losing leadership.
             //
@@ -118,12 +126,15 @@ where
 
         let last_log_id = last_leader_log_id.last().copied();
 
+        let restored_log_id = if is_restarted { last_log_id } else { None };
+
         let leader = Self {
             transfer_to: None,
             committed_vote: vote,
             next_heartbeat: C::now(),
             last_log_id,
             noop_log_id,
+            restored_log_id,
             progress: VecProgress::new(quorum_set.clone(), learner_ids.iter().copied(), || {
                 ProgressEntry::empty(last_log_id.next_index())
             }),
-- 
2.43.0


From dfa9d016525cecfb613165a43220090742c86000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 13/22] fix: leader ignores a heartbeat acknowledged by a
 removed node

---
 openraft/src/engine/handler/replication_handler/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index 1bcc154..95054e4 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -116,11 +116,11 @@ where C: RaftTypeConfig
     pub(crate) fn update_leader_clock(&mut self, node_id: C::NodeId, t: InstantOf<C>) {
         tracing::debug!(target = display(node_id), t = display(t.display()), "{}", func_name!());
 
-        let granted = *self
-            .leader
-            .clock_progress
-            .increase_to(&node_id, Some(t))
-            .expect("it should always update existing progress");
+        let Ok(granted) = self.leader.clock_progress.increase_to(&node_id, Some(t)).copied() else {
+            // The heartbeat was sent before the target is removed from the membership.
+            tracing::debug!(target = display(node_id), "target is removed, ignore the acknowledged time");
+            return;
+        };
 
         tracing::debug!(
             granted = display(granted.as_ref().map(|x| x.display()).display()),
-- 
2.43.0


From a40064be0204b7775439b32e5dd0ca2243c82725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 14/22] fix: a snapshot that is received after the logs it
 covers does not revert the IO progress

---
 openraft/src/core/raft_core.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 52772c1..f8b5d34 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1421,7 +1421,11 @@ where
             }
 
             Notification::LocalIO { io_id } => {
-                self.engine.state.io_state.io_progress.flush(io_id);
+                // A snapshot covering this IO may have been installed before this IO is flushed.
+                let progress = &mut self.engine.state.io_state.io_progress;
+                if Some(&io_id) > progress.flushed() {
+                    progress.flush(io_id);
+                }
 
                 match io_id {
                     IOId::Log(log_io_id) => {
@@ -1504,7 +1508,11 @@ where
                             func_name!()
                         );
 
-                        self.engine.state.io_state_mut().io_progress.flush(io_id);
+                        // If the snapshot is received after the logs it covers, a greater IO may have been flushed.
+                        let progress = &mut self.engine.state.io_state.io_progress;
+                        if Some(&io_id) > progress.flushed() {
+                            progress.flush(io_id);
+                        }
 
                         if let Some(meta) = meta {
                             let st = self.engine.state.io_state_mut();
@@ -1809,7 +1817,11 @@ where
                 let io_id = command.get_submit_io();
 
                 if let Some(io_id) = io_id {
-                    self.engine.state.io_state.io_progress.submit(io_id);
+                    // If the snapshot is received after the logs it covers, a greater IO may have been submitted.
+                    let progress = &mut self.engine.state.io_state.io_progress;
+                    if Some(&io_id) > progress.submitted() {
+                        progress.submit(io_id);
+                    }
                 }
 
                 // Just forward a state machine command to the worker.
-- 
2.43.0


From b5e5a7438482fddafe720ed0a6394fb3ba76c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 15/22] fix: policy based purge does not revert a purge a user
 already scheduled

---
 openraft/src/engine/handler/log_handler/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..fd447b8 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -55,7 +55,10 @@ where C: RaftTypeConfig
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn schedule_policy_based_purge(&mut self) {
         if let Some(purge_upto) = self.calc_purge_upto() {
-            self.update_purge_upto(purge_upto);
+            // A user may have already scheduled to purge more logs than the policy requires.
+            if Some(&purge_upto) > self.state.purge_upto() {
+                self.update_purge_upto(purge_upto);
+            }
         }
     }
 
-- 
2.43.0


From eb9a5f5bbd2c8f2c1985fd8611e2deba4b923e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 16/22] fix: a deposed leader no longer replicates logs on
 behalf of its former leadership

---
 openraft/src/core/raft_core.rs  |  7 +++++++
 openraft/src/replication/mod.rs | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index f8b5d34..0ab458e 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1741,6 +1741,13 @@ where
                 self.log_store.append(entries, callback).await?;
             }
             Command::SaveVote { vote } => {
+                // Once the leadership is lost, the logs of this node may be replaced by another Leader.
+                // They must not be sent on behalf of the former leadership: close the replication tasks.
+                let is_leader = vote.is_committed() && vote.leader_id().voted_for() == Some(self.id);
+                if !is_leader {
+                    self.replications.clear();
+                }
+
                 self.engine.state.io_state_mut().io_progress.submit(IOId::new(vote));
                 self.log_store.save_vote(&vote).await?;
 
diff --git a/openraft/src/replication/mod.rs b/openraft/src/replication/mod.rs
index 82eac78..4499f82 100644
--- a/openraft/src/replication/mod.rs
+++ b/openraft/src/replication/mod.rs
@@ -397,13 +397,22 @@ where
                 // limited_get_log_entries will return logs smaller than the range [start, end).
                 let logs = self.log_reader.limited_get_log_entries(start, end).await?;
 
+                // After this node is no longer the Leader, the local logs may be replaced by the logs of another
+                // Leader. RaftCore closes this replication before that happens, so if it is not yet closed,
+                // the logs just read belong to this Leader.
+                self.try_drain_events().await?;
+
                 // The logs are removed(truncated or purged) after this node is no longer the Leader.
-                // Such logs must not be replicated and this replication is about to be closed.
+                // Such logs must not be replicated.
                 let (Some(first), Some(last)) = (logs.first(), logs.last()) else {
                     return Err(ReplicationClosed::new("logs to replicate are removed").into());
                 };
                 let (first, last) = (*first.get_log_id(), *last.get_log_id());
 
+                if first.index != start {
+                    return Err(ReplicationClosed::new("logs to replicate are purged").into());
+                }
+
                 debug_assert!(
                     !logs.is_empty() && logs.len() <= (end - start) as usize,
                     "expect logs ⊆ [{}..{}) but got {} entries, first: {}, last: {}",
-- 
2.43.0


From 227496a9faa928ccfd5c97dd0642bc3bfca3b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 17/22] fix: installing a conflicting snapshot does not
 truncate the committed membership

---
 openraft/src/engine/handler/following_handler/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..c54817f 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -308,7 +308,10 @@ where C: RaftTypeConfig
         if let Some(local) = local {
             if local != snap_last_log_id {
                 // Conflict, delete all non-committed logs.
-                self.truncate_logs(self.state.committed().next_index());
+                // The committed membership config may be greater than the committed log id, e.g., after a restart.
+                let committed_membership = *self.state.membership_state.committed().log_id();
+                let committed = std::cmp::max(self.state.committed().copied(), committed_membership);
+                self.truncate_logs(committed.next_index());
             }
         }
 
-- 
2.43.0


From c66e299ccb4e5b76f6635cbd967641f492c62980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 18/22] fix: a node that is not yet a voter does not elect when
 leadership is transferred to it

---
 openraft/src/core/raft_core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 0ab458e..8b7acd2 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1275,7 +1275,9 @@ where
                     tracing::info!("Transfer Leader from: {}, to {}", current_leader_vote, to);
 
                     self.engine.state.vote.disable_lease();
-                    if self.id == to {
+                    // This node may have not yet received the membership config in which it is a voter.
+                    let is_voter = self.engine.state.membership_state.effective().is_voter(&self.id);
+                    if self.id == to && is_voter {
                         self.engine.elect();
                     }
                 }
-- 
2.43.0


From 2fdb68deef6f29118d73a339a3ea4756a2a4ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:33 +0000
Subject: [PATCH 19/22] fix: ensure_linearizable does not wait forever for a
 log that is replaced by another leader

---
 openraft/src/raft/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/raft/mod.rs b/openraft/src/raft/mod.rs
index a44d121..2a1fbbe 100644
--- a/openraft/src/raft/mod.rs
+++ b/openraft/src/raft/mod.rs
@@ -536,8 +536,10 @@ where C: RaftTypeConfig
         let (read_log_id, applied) = self.get_read_log_id().await?;
 
         if read_log_id.index() > applied.index() {
+            // Compare the log id instead of the index:
+            // the log at `read_log_id` may be replaced by another Leader, then its index may never be reached.
             self.wait(None)
-                .applied_index_at_least(read_log_id.index(), "ensure_linearizable")
+                .metrics(|m| m.last_applied >= read_log_id, "ensure_linearizable")
                 .await
                 .map_err(|e| match e {
                     WaitError::Timeout(_, _) => {
-- 
2.43.0


From 69074e247312f24ac59c8d1ec539bf93ad417d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 20/22] fix: rebuilding replication streams does not panic if
 the leadership is lost meanwhile

---
 openraft/src/core/raft_core.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 8b7acd2..19f84c3 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1800,14 +1800,25 @@ where
                 self.apply_to_state_machine(first, upto).await?;
             }
             Command::Replicate { req, target } => {
-                let node = self.replications.get(&target).expect("replication to target node exists");
-                let _ = node.tx_repl.send(req);
+                // There is no such replication if the leadership is lost while this command is pending.
+                if let Some(node) = self.replications.get(&target) {
+                    let _ = node.tx_repl.send(req);
+                }
             }
             Command::BroadcastTransferLeader { req } => self.broadcast_transfer_leader(req).await,
 
             Command::RebuildReplicationStreams { targets } => {
                 self.remove_all_replication().await;
 
+                // While this command is pending, the leadership may be lost, or the membership may change again.
+                // In the latter case a following command rebuilds the replication streams.
+                let mut targets = targets;
+                {
+                    let effective = self.engine.state.membership_state.effective();
+                    let is_leader = self.engine.leader.is_some();
+                    targets.retain(|t| is_leader && effective.get_node(&t.0).is_some());
+                }
+
                 for ReplicationProgress(target, matching) in targets.iter() {
                     let handle = self.spawn_replication_stream(*target, *matching).await;
                     self.replications.insert(*target, handle);
-- 
2.43.0


From 44bd771ca3948934d060cde22368fbe135bedc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 21/22] hook: access to internal types, with cfg openraft_verif

---
 openraft/src/lib.rs         |   4 +
 openraft/src/verif_hooks.rs | 191 ++++++++++++++++++++++++++++++++++++
 2 files changed, 195 insertions(+)
 create mode 100644 openraft/src/verif_hooks.rs

diff --git a/openraft/src/lib.rs b/openraft/src/lib.rs
index b1d01a3..c4b53b3 100644
--- a/openraft/src/lib.rs
+++ b/openraft/src/lib.rs
@@ -8,6 +8,8 @@
 #![allow(clippy::result_large_err)]
 #![allow(clippy::type_complexity)]
 #![deny(unused_qualifications)]
+// `openraft_verif` is a cfg flag that is only set by external verification.
+#![allow(unexpected_cfgs)]
 // TODO: Enable this when doc is complete
 // #![warn(missing_docs)]
 
@@ -64,6 +66,8 @@ pub mod raft;
 pub mod storage;
 pub mod testing;
 pub mod type_config;
+#[cfg(openraft_verif)]
+pub mod verif_hooks;
 
 #[cfg(test)]
 mod feature_serde_test;
diff --git a/openraft/src/verif_hooks.rs b/openraft/src/verif_hooks.rs
new file mode 100644
index 0000000..c7bde5e
--- /dev/null
+++ b/openraft/src/verif_hooks.rs
@@ -0,0 +1,191 @@
+//! Access to internal types for external verification. Compiled only with `--cfg openraft_verif`.
+
+use std::collections::BTreeMap;
+use std::collections::BTreeSet;
+use std::sync::Arc;
+
+use crate::engine::LogIdList;
+use crate::error::ChangeMembershipError;
+use crate::progress::Progress;
+use crate::progress::VecProgress;
+use crate::quorum::AsJoint;
+use crate::quorum::Coherent;
+use crate::quorum::FindCoherent;
+use crate::quorum::Joint;
+use crate::quorum::QuorumSet;
+use crate::ChangeMembers;
+use crate::EffectiveMembership;
+use crate::LogId;
+use crate::Membership;
+use crate::RaftTypeConfig;
+use crate::StorageError;
+
+type Ids = BTreeSet<u64>;
+type JointVec = Joint<u64, Vec<u64>, Vec<Vec<u64>>>;
+
+fn to_vec(sets: &[Ids]) -> Vec<Vec<u64>> {
+    sets.iter().map(|s| s.iter().copied().collect()).collect()
+}
+
+/// Is `ids` a quorum, as decided by: a joint of vectors, a borrowed joint of sets, and every set alone.
+pub fn is_quorum(sets: &[Ids], ids: &[u64]) -> (bool, bool, Vec<bool>) {
+    let a: JointVec = Joint::from(to_vec(sets));
+    let v = sets.to_vec();
+    let b = v.as_joint();
+    let c = sets.iter().map(|s| s.is_quorum(ids.iter())).collect();
+    (a.is_quorum(ids.iter()), b.is_quorum(ids.iter()), c)
+}
+
+/// All ids of a joint.
+pub fn joint_ids(sets: &[Ids]) -> (Vec<u64>, Vec<u64>) {
+    let a: JointVec = Joint::from(to_vec(sets));
+    let v = sets.to_vec();
+    (a.ids().collect(), v.as_joint().ids().collect())
+}
+
+/// The intermediate config when changing from `sets` to `goal`.
+pub fn find_coherent(sets: &[Ids], goal: &Ids) -> Vec<Ids> {
+    Joint::from(sets.to_vec()).find_coherent(goal.clone()).children().clone()
+}
+
+/// Are two joints coherent.
+pub fn is_coherent(a: &[Ids], b: &[Ids]) -> bool {
+    let x: Joint<u64, Ids, Vec<Ids>> = Joint::from(a.to_vec());
+    let y: Joint<u64, Ids, Vec<Ids>> = Joint::from(b.to_vec());
+    x.is_coherent_with(&y)
+}
+
+/// Is `ids` a quorum of an effective membership.
+pub fn effective_is_quorum<C>(m: &Membership<C>, ids: &[C::NodeId]) -> bool
+where C: RaftTypeConfig {
+    EffectiveMembership::<C>::new(None, m.clone()).is_quorum(ids.iter())
+}
+
+/// The quorum tracker of a leader.
+pub struct Tracker {
+    inner: VecProgress<u64, u64, u64, JointVec>,
+}
+
+impl Tracker {
+    pub fn new(sets: &[Ids], learners: &[u64]) -> Self {
+        Self {
+            inner: VecProgress::new(Joint::from(to_vec(sets)), learners.iter().copied(), || 0),
+        }
+    }
+    /// Set the value of `id`; returns the granted value, `Err` if there is no such id.
+    pub fn update(&mut self, id: u64, v: u64) -> Result<u64, u64> {
+        self.inner.update(&id, v).copied().map_err(|x| *x)
+    }
+    pub fn increase_to(&mut self, id: u64, v: u64) -> Result<u64, u64> {
+        self.inner.increase_to(&id, v).copied().map_err(|x| *x)
+    }
+    pub fn update_with(&mut self, id: u64, add: u64) -> Result<u64, u64> {
+        self.inner.update_with(&id, |x| *x += add).copied().map_err(|x| *x)
+    }
+    pub fn granted(&self) -> u64 {
+        *self.inner.granted()
+    }
+    pub fn get(&self, id: u64) -> Option<u64> {
+        self.inner.try_get(&id).copied()
+    }
+    pub fn is_voter(&self, id: u64) -> Option<bool> {
+        self.inner.is_voter(&id)
+    }
+    pub fn items(&self) -> Vec<(u64, u64)> {
+        self.inner.iter().map(|x| (x.0, x.1)).collect()
+    }
+    pub fn upgrade(self, sets: &[Ids], learners: &[u64]) -> Self {
+        Self {
+            inner: self.inner.upgrade_quorum_set(Joint::from(to_vec(sets)), learners.iter().copied(), || 0),
+        }
+    }
+}
+
+/// Apply a change to a membership config.
+pub fn change<C>(m: &Membership<C>, c: ChangeMembers<C>, retain: bool) -> Result<Membership<C>, ChangeMembershipError<C>>
+where C: RaftTypeConfig {
+    m.clone().change(c, retain)
+}
+
+/// Build a config without filling in missing nodes.
+pub fn membership_unchecked<C>(sets: Vec<BTreeSet<C::NodeId>>, nodes: BTreeMap<C::NodeId, C::Node>) -> Membership<C>
+where C: RaftTypeConfig {
+    Membership::new_unchecked(sets, nodes)
+}
+
+pub fn ensure_valid<C>(m: &Membership<C>) -> Result<(), ChangeMembershipError<C>>
+where C: RaftTypeConfig {
+    m.ensure_valid()
+}
+
+/// The in-memory index of log ids.
+#[derive(Clone)]
+pub struct LogIds<C>
+where C: RaftTypeConfig
+{
+    inner: LogIdList<C>,
+}
+
+impl<C> Default for LogIds<C>
+where C: RaftTypeConfig
+{
+    fn default() -> Self {
+        Self {
+            inner: LogIdList::new(vec![]),
+        }
+    }
+}
+
+impl<C> LogIds<C>
+where C: RaftTypeConfig
+{
+    pub fn extend_from_same_leader(&mut self, ids: &[LogId<C::NodeId>]) {
+        self.inner.extend_from_same_leader(ids)
+    }
+    pub fn extend(&mut self, ids: &[LogId<C::NodeId>]) {
+        self.inner.extend(ids)
+    }
+    pub fn append(&mut self, id: LogId<C::NodeId>) {
+        self.inner.append(id)
+    }
+    pub fn truncate(&mut self, at: u64) {
+        self.inner.truncate(at)
+    }
+    pub fn purge(&mut self, upto: &LogId<C::NodeId>) {
+        self.inner.purge(upto)
+    }
+    pub fn get(&self, index: u64) -> Option<LogId<C::NodeId>> {
+        self.inner.get(index)
+    }
+    pub fn first(&self) -> Option<LogId<C::NodeId>> {
+        self.inner.first().copied()
+    }
+    pub fn last(&self) -> Option<LogId<C::NodeId>> {
+        self.inner.last().copied()
+    }
+    pub fn key_log_ids(&self) -> Vec<LogId<C::NodeId>> {
+        self.inner.key_log_ids().to_vec()
+    }
+    pub fn by_last_leader(&self) -> Vec<LogId<C::NodeId>> {
+        self.inner.by_last_leader().to_vec()
+    }
+    /// Rebuild from storage.
+    pub async fn load<S>(
+        purged: Option<LogId<C::NodeId>>,
+        last: Option<LogId<C::NodeId>>,
+        sto: &mut S,
+    ) -> Result<Self, StorageError<C>>
+    where
+        S: crate::RaftLogReader<C>,
+    {
+        let inner = LogIdList::load_log_ids(purged, last, sto).await?;
+        Ok(Self { inner })
+    }
+}
+
+/// The quorum tracker shared with an effective membership, as a leader builds it.
+pub fn effective_tracker_ids<C>(m: &Membership<C>) -> (Vec<C::NodeId>, Vec<C::NodeId>)
+where C: RaftTypeConfig {
+    let em = Arc::new(EffectiveMembership::<C>::new(None, m.clone()));
+    (em.ids().collect(), em.learner_ids().collect())
+}
-- 
2.43.0


From 5b45428b07d766f2d434aed344acaa5f43919911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 22/22] hook: probe of RaftState, with cfg openraft_verif

---
 openraft/src/verif_hooks.rs | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/openraft/src/verif_hooks.rs b/openraft/src/verif_hooks.rs
index c7bde5e..9708a25 100644
--- a/openraft/src/verif_hooks.rs
+++ b/openraft/src/verif_hooks.rs
@@ -17,8 +17,11 @@ use crate::ChangeMembers;
 use crate::EffectiveMembership;
 use crate::LogId;
 use crate::Membership;
+use crate::raft_state::LogStateReader;
+use crate::RaftState;
 use crate::RaftTypeConfig;
 use crate::StorageError;
+use crate::Vote;
 
 type Ids = BTreeSet<u64>;
 type JointVec = Joint<u64, Vec<u64>, Vec<Vec<u64>>>;
@@ -189,3 +192,38 @@ where C: RaftTypeConfig {
     let em = Arc::new(EffectiveMembership::<C>::new(None, m.clone()));
     (em.ids().collect(), em.learner_ids().collect())
 }
+
+/// Positions recorded in a `RaftState`.
+#[derive(Clone, Debug)]
+pub struct StateProbe<C>
+where C: RaftTypeConfig
+{
+    pub vote: Vote<C::NodeId>,
+    pub committed: Option<LogId<C::NodeId>>,
+    pub last: Option<LogId<C::NodeId>>,
+    pub purged: Option<LogId<C::NodeId>>,
+    pub purge_upto: Option<LogId<C::NodeId>>,
+    pub applied: Option<LogId<C::NodeId>>,
+    pub snapshot: Option<LogId<C::NodeId>>,
+    pub io_purged: Option<LogId<C::NodeId>>,
+}
+
+pub fn state_probe<C>(st: &RaftState<C>) -> StateProbe<C>
+where C: RaftTypeConfig {
+    StateProbe {
+        vote: *st.vote_ref(),
+        committed: st.committed().copied(),
+        last: st.last_log_id().copied(),
+        purged: st.last_purged_log_id().copied(),
+        purge_upto: st.purge_upto().copied(),
+        applied: st.io_applied().copied(),
+        snapshot: st.io_snapshot_last_log_id().copied(),
+        io_purged: st.io_purged().copied(),
+    }
+}
+
+/// The log id at `index`, as known in memory.
+pub fn state_log_id<C>(st: &RaftState<C>, index: u64) -> Option<LogId<C::NodeId>>
+where C: RaftTypeConfig {
+    st.get_log_id(index)
+}
-- 
2.43.0

