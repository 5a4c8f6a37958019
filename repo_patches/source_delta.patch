From 63c991c273fbfda7ebe08d9808e554352b30c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 01/40] fix: restore the term of a log entry from its own term

The redb log decoded this_clock.term from the term of the previous entry,
so the last entry of a log read back after a term change had a wrong clock.
---
 sorock/src/backends/redb/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index 84b4ae8..e8b197e 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -31,7 +31,7 @@ mod value {
             },
             this_clock: Clock {
                 index: x.cur_index,
-                term: x.prev_term,
+                term: x.cur_term,
             },
             command: x.command,
         }
-- 
2.43.0


From 7d2da26addaa5532962d20528e2366071c1c0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 02/40] fix: do not move the commit index backwards on a
 heartbeat

A new leader may know a smaller commit index than the follower.
---
 sorock/src/process/voter/heartbeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 9d7ddaf..525d2be 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -36,7 +36,7 @@ impl Voter {
             std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
         self.command_log
             .commit_pointer
-            .store(new_commit_index, Ordering::SeqCst);
+            .fetch_max(new_commit_index, Ordering::SeqCst);
 
         Ok(())
     }
-- 
2.43.0


From 2d313786ae4cd1084d1769f9c4bed6ab52d85202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 03/40] fix: do not count a removed leader in the commit quorum

---
 sorock/src/process/peer_svc/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index dd20fd6..af90353 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -188,9 +188,14 @@ impl PeerSvc {
         let mut match_indices = vec![];
 
         let last_log_index = self.command_log.get_log_last_index().await?;
-        match_indices.push(last_log_index);
+        let self_is_member = self.read_membership().contains(&self.driver.self_node_id());
 
         let peer_contexts = self.peer_contexts.read();
+        // $4.2.2
+        // A leader that is removing itself doesn't count itself in majorities.
+        if self_is_member || peer_contexts.is_empty() {
+            match_indices.push(last_log_index);
+        }
         for (_, peer) in peer_contexts.iter() {
             match_indices.push(peer.progress.match_index);
         }
-- 
2.43.0


From 60b1a71d082fbc614cc52b1dea32617d1fd3a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 04/40] fix: do not forward a configuration request to itself

A candidate has voted for itself and would forward the request to itself forever.
---
 sorock/src/process/raft_process/responder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index c7b0c7e..99c49a1 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -46,6 +46,8 @@ impl RaftProcess {
 
             rx.await?;
         } else {
+            // This check is to avoid looping.
+            ensure!(self.driver.self_node_id() != leader_id);
             let conn = self.driver.connect(leader_id);
             conn.process_kern_request(req).await?;
         }
-- 
2.43.0


From 938577c93e5904005d4bbf9bbfeb288338de77a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 05/40] fix: do not move the log pointers backwards

Receiving the snapshot that is already installed rewound the pointers and
the entries after it were processed twice. A snapshot that arrives while an
entry is processed was rewound by the completion of that entry.
---
 sorock/src/process/command_log/consumer.rs | 4 ++--
 sorock/src/process/command_log/producer.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 4ed8600..08272c3 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -106,7 +106,7 @@ impl CommandLog {
             }
         }
 
-        self.user_pointer.store(process_index, Ordering::SeqCst);
+        self.user_pointer.fetch_max(process_index, Ordering::SeqCst);
 
         Ok(())
     }
@@ -140,7 +140,7 @@ impl CommandLog {
             }
         }
 
-        self.kern_pointer.store(process_index, Ordering::SeqCst);
+        self.kern_pointer.fetch_max(process_index, Ordering::SeqCst);
 
         Ok(())
     }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index f8b5d9e..be7b92f 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -78,11 +78,11 @@ impl CommandLog {
                 self.insert_snapshot(entry).await?;
 
                 self.commit_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.kern_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.user_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
 
                 return Ok(TryInsertResult::Inserted);
             }
-- 
2.43.0


From d965ab239403350c8c47740e33ce4b8ac25ed810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 06/40] fix: commit only the entries of the current term by
 counting replicas

An entry of an earlier term on a majority may still be overwritten (5.4.2, Figure 8).
---
 sorock/src/process/thread/advance_commit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 6d078cb..76c9c2c 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -17,6 +17,12 @@ impl Thread {
         let new_commit_index = self.peers.find_new_commit_index().await?;
 
         if new_commit_index > cur_commit_index {
+            // $5.4.2
+            // Only log entries from the leader's current term are committed by counting replicas.
+            let cur_term = self.voter.read_ballot().await?.cur_term;
+            let new_commit_entry = self.command_log.get_entry(new_commit_index).await?;
+            ensure!(new_commit_entry.this_clock.term == cur_term);
+
             self.command_log
                 .commit_pointer
                 .store(new_commit_index, Ordering::SeqCst);
-- 
2.43.0


From d0fa1c860f28550454894c38ac7a5e215948dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 07/40] fix: let a follower commit only the entries that match
 the leader's log

A heartbeat has no consistency check, so a follower with conflicting entries
up to the commit index of the leader committed them.
---
 sorock/src/process/peer_svc/mod.rs    | 9 +++++++++
 sorock/src/process/voter/heartbeat.rs | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index af90353..c0fad76 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -184,6 +184,15 @@ impl PeerSvc {
         self.membership.read().clone()
     }
 
+    /// The index up to which the log of the peer is known to match.
+    pub fn read_match_index(&self, id: &NodeId) -> Result<Index> {
+        let peer_contexts = self.peer_contexts.read();
+        let peer = peer_contexts
+            .get(id)
+            .context(Error::PeerNotFound(id.clone()))?;
+        Ok(peer.progress.match_index)
+    }
+
     pub async fn find_new_commit_index(&self) -> Result<Index> {
         let mut match_indices = vec![];
 
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 525d2be..43822d3 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -43,7 +43,11 @@ impl Voter {
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
         let ballot = self.read_ballot().await?;
-        let leader_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+        // The entries of the follower after the match index may conflict with the log of the leader.
+        let leader_commit_index = std::cmp::min(
+            self.command_log.commit_pointer.load(Ordering::SeqCst),
+            self.peers.read_match_index(&follower_id)?,
+        );
         let req = request::Heartbeat {
             leader_term: ballot.cur_term,
             leader_commit_index,
-- 
2.43.0


From 43db81f6e0ed8a47df2dbf900fb92ded8fc0a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 08/40] fix: do not overwrite a committed entry

A deposed leader that doesn't know the new term yet replaced entries that
the follower had committed.
---
 sorock/src/process/command_log/producer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index be7b92f..0d24980 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -123,6 +123,8 @@ impl CommandLog {
                         // then the entry should be the same so to skip insertion.
                         return Ok(TryInsertResult::SkippedInsertion);
                     }
+                    // A stale leader may try to replace the entry.
+                    ensure!(this_index > self.commit_pointer.load(Ordering::SeqCst));
                 }
 
                 self.insert_entry(entry).await?;
-- 
2.43.0


From 2b6bcf52cc4d386e49f65fbee23deeb7353878dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 09/40] fix: serialize the membership changes

Two concurrent requests both passed the check for a pending change and the
later one lost the change of the earlier.
---
 sorock/src/process/raft_process/mod.rs       | 3 +++
 sorock/src/process/raft_process/responder.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index e06455c..7144d17 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -25,6 +25,8 @@ pub struct RaftProcess {
     peers: PeerSvc,
     query_tx: query_queue::Producer,
     driver: RaftDriver,
+    /// Lock to serialize the membership changes.
+    membership_lock: tokio::sync::Mutex<()>,
     _thread_handles: ThreadHandles,
 
     queue_tx: thread::EventProducer<thread::QueueEvent>,
@@ -105,6 +107,7 @@ impl RaftProcess {
             peers,
             query_tx,
             driver,
+            membership_lock: tokio::sync::Mutex::new(()),
             _thread_handles,
 
             queue_tx,
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 99c49a1..fd163c7 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -25,6 +25,8 @@ impl RaftProcess {
             voter::ElectionState::Leader
         ) {
             let (kern_completion, rx) = completion::prepare_kern_completion();
+            // A new configuration is built from the last one.
+            let lk = self.membership_lock.lock().await;
             let command = match kern_message::KernRequest::deserialize(&req.message).unwrap() {
                 kern_message::KernRequest::AddServer(id) => {
                     let mut membership = self.peers.read_membership();
@@ -43,6 +45,7 @@ impl RaftProcess {
                 Completion::Kern(kern_completion),
             )
             .await?;
+            drop(lk);
 
             rx.await?;
         } else {
-- 
2.43.0


From 14751effbdb2d6d02abdabd41b229e5f471e23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 10/40] fix: do not wait for a vote forever

Two candidates that request votes from each other hold their vote locks while
waiting for the response of the other, so both were stuck forever.
---
 sorock/src/process/voter/election.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 1047ebb..c96e261 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -198,10 +198,12 @@ impl Voter {
                     // We recommend the Pre-Vote extension in deployments that would benefit from additional robustness.
                     pre_vote,
                 };
-                let resp = conn.request_vote(req).await;
+                // The peer can't respond while it waits for the vote from this node.
+                let resp =
+                    tokio::time::timeout(Duration::from_secs(1), conn.request_vote(req)).await;
                 match resp {
-                    Ok(granted) => granted,
-                    Err(_) => false,
+                    Ok(Ok(granted)) => granted,
+                    _ => false,
                 }
             });
         }
-- 
2.43.0


From 13a0c5a8a0f7285a0e2232f870bbd1e9d1bdc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 11/40] fix: do not send a heartbeat at a term this node didn't
 run for

If the leader is deposed after it checked the election state, the heartbeat
carried the term of the new leader.
---
 sorock/src/process/voter/heartbeat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 43822d3..c477718 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -43,6 +43,8 @@ impl Voter {
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
         let ballot = self.read_ballot().await?;
+        // The term may be the one of a new leader.
+        ensure!(ballot.voted_for == Some(self.driver.self_node_id()));
         // The entries of the follower after the match index may conflict with the log of the leader.
         let leader_commit_index = std::cmp::min(
             self.command_log.commit_pointer.load(Ordering::SeqCst),
-- 
2.43.0


From 2b1c2c57d3daab49c3a568177a3a838386086802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 12/40] fix: do not serve a read until the barrier is committed

A new leader that doesn't know yet what the last leader committed missed
acknowledged writes.
---
 sorock/src/process/raft_process/responder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index fd163c7..18646b3 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -73,6 +73,9 @@ impl RaftProcess {
         ) {
             let (user_completion, rx) = completion::prepare_user_completion();
 
+            // The commit index of a new leader may be behind the one of the last leader
+            // until its barrier is committed.
+            ensure!(self.voter.allow_queue_new_entry().await?);
             let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
             let query = query_queue::Query {
                 message: req.message,
-- 
2.43.0


From 83d008ba3ae74fd307fc5fe02c8edd46feb7295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 13/40] fix: register the completion before the entry is
 inserted

If the entry was processed before the completion was registered, the client
never got the response.
---
 sorock/src/process/command_log/consumer.rs |  2 +-
 sorock/src/process/command_log/producer.rs | 18 ++++++++++++++++--
 sorock/src/process/raft_process/queue.rs   |  5 +----
 sorock/src/process/voter/election.rs       |  1 +
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 08272c3..8e36f01 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -92,7 +92,7 @@ impl CommandLog {
                                 // This should be queued and replicated to the followers.
                                 // Otherwise followers will never know the request is completed and the context will never be terminated.
                                 let command = Command::CompleteRequest { request_id };
-                                self.append_new_entry(Command::serialize(command), None)
+                                self.append_new_entry(Command::serialize(command), None, None)
                                     .await
                                     .ok();
                             }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 0d24980..4a03d78 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -19,7 +19,14 @@ impl CommandLog {
     /// Append a new entry to the log.
     /// If `term` is None, then the term of the last entry is used.
     /// Otherwise, the given term is used to update the term of the last entry.
-    pub async fn append_new_entry(&self, command: Bytes, term: Option<Term>) -> Result<Index> {
+    /// The completion is registered before the entry is inserted
+    /// because the entry may be processed as soon as it is inserted.
+    pub async fn append_new_entry(
+        &self,
+        command: Bytes,
+        term: Option<Term>,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
         let cur_last_log_index = self.get_log_last_index().await?;
@@ -38,7 +45,14 @@ impl CommandLog {
             this_clock,
             command,
         };
-        self.insert_entry(e).await?;
+        if let Some(completion) = completion {
+            self.register_completion(append_index, completion);
+        }
+        if let Err(err) = self.insert_entry(e).await {
+            self.user_completions.lock().split_off(&append_index);
+            self.kern_completions.lock().split_off(&append_index);
+            return Err(err);
+        }
 
         Ok(append_index)
     }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 47f2a29..9c80ba6 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -10,12 +10,9 @@ impl RaftProcess {
 
         let append_index = self
             .command_log
-            .append_new_entry(command.clone(), None)
+            .append_new_entry(command.clone(), None, Some(completion))
             .await?;
 
-        self.command_log
-            .register_completion(append_index, completion);
-
         self.process_configuration_command(&command, append_index)
             .await?;
 
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index c96e261..66249f4 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -222,6 +222,7 @@ impl Voter {
                 .append_new_entry(
                     Command::serialize(Command::Barrier(vote_term)),
                     Some(vote_term),
+                    None,
                 )
                 .await?;
             info!("noop barrier is queued at index({index}) (term={vote_term})");
-- 
2.43.0


From b42461d0cb9905ea5694d686d8f357dc1b2b4d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 14/40] fix: do not append an entry at the term of another
 leader

A leader that was deposed before the append used the term of the last entry,
which the new leader may have inserted. Two different entries had the same clock.
---
 sorock/src/process/command_log/consumer.rs | 10 +++++++---
 sorock/src/process/command_log/producer.rs | 15 +++++++--------
 sorock/src/process/raft_process/queue.rs   |  3 ++-
 sorock/src/process/voter/election.rs       |  2 +-
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 8e36f01..56ed6ed 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -92,9 +92,13 @@ impl CommandLog {
                                 // This should be queued and replicated to the followers.
                                 // Otherwise followers will never know the request is completed and the context will never be terminated.
                                 let command = Command::CompleteRequest { request_id };
-                                self.append_new_entry(Command::serialize(command), None, None)
-                                    .await
-                                    .ok();
+                                self.append_new_entry(
+                                    Command::serialize(command),
+                                    e.this_clock.term,
+                                    None,
+                                )
+                                .await
+                                .ok();
                             }
                         }
                     }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 4a03d78..b5d47e3 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -17,27 +17,24 @@ pub enum TryInsertResult {
 
 impl CommandLog {
     /// Append a new entry to the log.
-    /// If `term` is None, then the term of the last entry is used.
-    /// Otherwise, the given term is used to update the term of the last entry.
+    /// Fails if the log already has an entry of a newer term.
+    /// Appending an entry after it is not allowed because this node is not the leader of the term.
     /// The completion is registered before the entry is inserted
     /// because the entry may be processed as soon as it is inserted.
     pub async fn append_new_entry(
         &self,
         command: Bytes,
-        term: Option<Term>,
+        term: Term,
         completion: Option<Completion>,
     ) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
         let cur_last_log_index = self.get_log_last_index().await?;
         let prev_clock = self.get_entry(cur_last_log_index).await?.this_clock;
+        ensure!(prev_clock.term <= term);
         let append_index = cur_last_log_index + 1;
-        let this_term = match term {
-            Some(t) => t,
-            None => prev_clock.term,
-        };
         let this_clock = Clock {
-            term: this_term,
+            term,
             index: append_index,
         };
         let e = Entry {
@@ -103,6 +100,8 @@ impl CommandLog {
             _ => {}
         }
 
+        let _g = self.append_lock.lock().await;
+
         let Clock {
             term: _,
             index: prev_index,
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 9c80ba6..4673787 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -6,11 +6,12 @@ impl RaftProcess {
         command: Bytes,
         completion: Completion,
     ) -> Result<Index> {
+        let cur_term = self.voter.read_ballot().await?.cur_term;
         ensure!(self.voter.allow_queue_new_entry().await?);
 
         let append_index = self
             .command_log
-            .append_new_entry(command.clone(), None, Some(completion))
+            .append_new_entry(command.clone(), cur_term, Some(completion))
             .await?;
 
         self.process_configuration_command(&command, append_index)
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 66249f4..50f84ce 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -221,7 +221,7 @@ impl Voter {
                 .command_log
                 .append_new_entry(
                     Command::serialize(Command::Barrier(vote_term)),
-                    Some(vote_term),
+                    vote_term,
                     None,
                 )
                 .await?;
-- 
2.43.0


From d5041cbd297985154d31362cb6cc691ebfdee9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 15/40] fix: do not accept entries from a node other than the
 known leader

The stream doesn't have the term of the leader, so a deposed leader could
replace the entries of the new leader.
---
 sorock/src/process/raft_process/responder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 18646b3..e1908d1 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -5,6 +5,11 @@ impl RaftProcess {
         &self,
         req: request::ReplicationStream,
     ) -> Result<response::ReplicationStream> {
+        // A deposed leader may not know the new leader yet.
+        if let Some(leader_id) = self.voter.read_ballot().await?.voted_for {
+            ensure!(leader_id == req.sender_id);
+        }
+
         let n_inserted = self.queue_received_entries(req).await?;
         let resp = response::ReplicationStream {
             n_inserted,
-- 
2.43.0


From 245bb0a411d14165478a9f786bbd1e7158e3bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 16/40] fix: do not move the commit index backwards after
 losing the leadership

---
 sorock/src/process/thread/advance_commit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 76c9c2c..005f9ec 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -25,7 +25,7 @@ impl Thread {
 
             self.command_log
                 .commit_pointer
-                .store(new_commit_index, Ordering::SeqCst);
+                .fetch_max(new_commit_index, Ordering::SeqCst);
             self.producer.push_event(CommitEvent);
         }
 
-- 
2.43.0


From 0898e8fbea2ee5aa5282b31cd0a385775e725ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 17/40] fix: delete the entries that conflict with the leader's
 log

A node that kept them reported the clock of a deleted entry as the one of
its last entry and could vote for a candidate without a committed entry.
---
 sorock/src/backends/redb/log.rs            | 10 ++++++++++
 sorock/src/process/command_log/producer.rs | 15 ++++++++++++++-
 sorock/src/process/mod.rs                  |  3 +++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index e8b197e..a5c4c53 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -142,6 +142,16 @@ impl RaftLogStore for LogStore {
         Ok(())
     }
 
+    async fn delete_entries_from(&self, i: Index) -> Result<()> {
+        let tx = self.db.begin_write()?;
+        {
+            let mut tbl = tx.open_table(table_def(&self.space))?;
+            tbl.retain_in(i.., |_, _| false)?;
+        }
+        tx.commit()?;
+        Ok(())
+    }
+
     async fn get_entry(&self, i: Index) -> Result<Option<Entry>> {
         let tx = self.db.begin_read()?;
         let tbl = tx.open_table(table_def(&self.space))?;
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index b5d47e3..29dd565 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -86,7 +86,18 @@ impl CommandLog {
                     return Err(e);
                 }
 
-                self.insert_snapshot(entry).await?;
+                {
+                    let _g = self.append_lock.lock().await;
+
+                    // Unless the log has the entry, the entries after it conflict with the leader's log.
+                    let found = self.storage.get_entry(snapshot_index).await?;
+                    let has_entry = snapshot_index <= self.commit_pointer.load(Ordering::SeqCst)
+                        || found.map(|x| x.this_clock) == Some(entry.this_clock);
+                    self.insert_snapshot(entry).await?;
+                    if !has_entry {
+                        self.storage.delete_entries_from(snapshot_index + 1).await?;
+                    }
+                }
 
                 self.commit_pointer
                     .fetch_max(snapshot_index - 1, Ordering::SeqCst);
@@ -138,6 +149,8 @@ impl CommandLog {
                     }
                     // A stale leader may try to replace the entry.
                     ensure!(this_index > self.commit_pointer.load(Ordering::SeqCst));
+                    // The entry and all that follow it conflict with the leader's log.
+                    self.storage.delete_entries_from(this_index).await?;
                 }
 
                 self.insert_entry(entry).await?;
diff --git a/sorock/src/process/mod.rs b/sorock/src/process/mod.rs
index 47f897e..58e9c03 100644
--- a/sorock/src/process/mod.rs
+++ b/sorock/src/process/mod.rs
@@ -129,6 +129,9 @@ pub trait RaftLogStore: Sync + Send + 'static {
     /// Delete all the entries in `[, i)` from the log.
     async fn delete_entries_before(&self, i: Index) -> Result<()>;
 
+    /// Delete all the entries in `[i, ]` from the log.
+    async fn delete_entries_from(&self, i: Index) -> Result<()>;
+
     /// Get the entry at index `i` from the log.
     async fn get_entry(&self, i: Index) -> Result<Option<Entry>>;
 
-- 
2.43.0


From 77c8fb1a68a0bcc47f113aeaab97955b13a167df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 18/40] fix: roll back the membership when its entry is
 overwritten

---
 sorock/src/process/raft_process/queue.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 4673787..1d8d82d 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -43,8 +43,15 @@ impl RaftProcess {
                 .await?
             {
                 command_log::TryInsertResult::Inserted => {
-                    self.process_configuration_command(&command, insert_index)
-                        .await?
+                    // The last configuration may have been deleted from the log.
+                    let membership_index =
+                        self.command_log.membership_pointer.load(Ordering::SeqCst);
+                    if insert_index <= membership_index {
+                        self.peers.restore_state(Ref(self.voter.clone())).await?;
+                    } else {
+                        self.process_configuration_command(&command, insert_index)
+                            .await?
+                    }
                 }
                 command_log::TryInsertResult::SkippedInsertion => {}
                 command_log::TryInsertResult::InconsistentInsertion { want, found } => {
-- 
2.43.0


From e52c1da45b67a1f2e87825af20637bd8d27e818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 19/40] fix: restore the snapshot index on restart

An older snapshot could be inserted until the index was found again.
---
 sorock/src/process/command_log/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index ccc0bb5..cc29b23 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -69,6 +69,8 @@ impl CommandLog {
             // so we can restart from installing the snapshot.
             snapshot_index - 1
         };
+        self.snapshot_pointer
+            .store(snapshot_index, Ordering::SeqCst);
         self.commit_pointer.store(start_index, Ordering::SeqCst);
         self.kern_pointer.store(start_index, Ordering::SeqCst);
         self.user_pointer.store(start_index, Ordering::SeqCst);
-- 
2.43.0


From e571d4b94f7efcbc30ced7dcd074b1a240933cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 20/40] fix: process the heartbeats of all shards even if one
 fails

---
 sorock/src/raft_service/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 0440cd8..4d559a0 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -206,7 +206,10 @@ impl raft::raft_server::Raft for RaftService {
                 futs.push(async move { process.receive_heartbeat(leader_id, req).await });
             }
         }
-        futures::future::try_join_all(futs).await.unwrap();
+        // A failure of a shard shouldn't cancel the heartbeats of the other shards.
+        for res in futures::future::join_all(futs).await {
+            res.unwrap();
+        }
         Ok(tonic::Response::new(()))
     }
 
-- 
2.43.0


From 2691a21468a6349cc338fdb0e8d0d7b75fafcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 21/40] fix: fail the requests that a received snapshot skips

---
 sorock/src/process/command_log/producer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 29dd565..4800e53 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -97,6 +97,14 @@ impl CommandLog {
                     if !has_entry {
                         self.storage.delete_entries_from(snapshot_index + 1).await?;
                     }
+
+                    // The entries covered by the snapshot and the deleted ones are never processed.
+                    let mut user_completions = self.user_completions.lock();
+                    let mut kern_completions = self.kern_completions.lock();
+                    let user_rest = user_completions.split_off(&(snapshot_index + 1));
+                    let kern_rest = kern_completions.split_off(&(snapshot_index + 1));
+                    *user_completions = if has_entry { user_rest } else { BTreeMap::new() };
+                    *kern_completions = if has_entry { kern_rest } else { BTreeMap::new() };
                 }
 
                 self.commit_pointer
-- 
2.43.0


From cebf7b551e9cbdfaf8caf742faec17f32f39eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:55 +0000
Subject: [PATCH 22/40] fix: ignore the response to a replication of a previous
 leadership

---
 sorock/src/process/peer_svc/mod.rs         |  4 ++++
 sorock/src/process/peer_svc/replication.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index c0fad76..cc13491 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -23,6 +23,8 @@ impl ReplicationProgress {
 #[derive(Clone)]
 pub struct PeerContexts {
     progress: ReplicationProgress,
+    /// Incremented when this node becomes a leader.
+    epoch: u64,
 }
 
 #[allow(dead_code)]
@@ -109,6 +111,7 @@ impl PeerSvc {
             id.clone(),
             PeerContexts {
                 progress: init_progress,
+                epoch: 0,
             },
         );
 
@@ -221,6 +224,7 @@ impl PeerSvc {
         let mut peer_contexts = self.peer_contexts.write();
         for (_, peer) in peer_contexts.iter_mut() {
             peer.progress = ReplicationProgress::new(init_next_index);
+            peer.epoch += 1;
         }
     }
 
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 38a24bf..1e535ce 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -98,11 +98,13 @@ impl PeerSvc {
             },
         };
 
-        self.peer_contexts
-            .write()
+        let mut peer_contexts = self.peer_contexts.write();
+        let new_context = peer_contexts
             .get_mut(&follower_id)
-            .context(Error::PeerNotFound(follower_id.clone()))?
-            .progress = new_progress;
+            .context(Error::PeerNotFound(follower_id.clone()))?;
+        // The response may be the one to a previous leadership.
+        ensure!(new_context.epoch == peer_context.epoch);
+        new_context.progress = new_progress;
 
         Ok(())
     }
-- 
2.43.0


From a7aa60e9d4fa308bd85c338fc38c011433bd1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 23/40] fix: do not mix the entries of two logs in a
 replication stream

---
 sorock/src/process/peer_svc/replication.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 1e535ce..ebfda56 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -10,15 +10,20 @@ impl PeerSvc {
     ) -> Result<request::ReplicationStream> {
         let head = command_log.get_entry(l).await?;
 
+        let mut prev_clock = head.prev_clock;
         let st = async_stream::stream! {
             for idx in l..r {
                 let x = command_log.get_entry(idx).await;
                 let e = match x {
-                    Ok(x) => Some(request::ReplicationStreamElem {
-                        this_clock: x.this_clock,
-                        command: x.command,
-                    }),
-                    Err(_) => None,
+                    // The log may have been replaced by another leader in the meantime.
+                    Ok(x) if x.prev_clock == prev_clock => {
+                        prev_clock = x.this_clock;
+                        Some(request::ReplicationStreamElem {
+                            this_clock: x.this_clock,
+                            command: x.command,
+                        })
+                    }
+                    _ => None,
                 };
                 yield e;
             }
-- 
2.43.0


From 1cff455c3f649c0b57f47b5df6744ea37a50a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:11 +0000
Subject: [PATCH 24/40] fix: change the membership for one received entry at a
 time

---
 sorock/src/process/raft_process/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 1d8d82d..cacb902 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -43,6 +43,8 @@ impl RaftProcess {
                 .await?
             {
                 command_log::TryInsertResult::Inserted => {
+                    // Another activity may be changing the membership for an entry of its own.
+                    let _lk = self.membership_lock.lock().await;
                     // The last configuration may have been deleted from the log.
                     let membership_index =
                         self.command_log.membership_pointer.load(Ordering::SeqCst);
-- 
2.43.0


From e4f99f7c7c2610cb109c30845adb3fca9ae5f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:11 +0000
Subject: [PATCH 25/40] fix: do not take over a snapshot that is still being
 received

---
 sorock/src/process/command_log/consumer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 56ed6ed..836833a 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -16,7 +16,10 @@ impl CommandLog {
     pub async fn advance_snapshot_index(&self) -> Result<()> {
         let cur_snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
         let proposed_snapshot_index = self.app.get_latest_snapshot().await?;
-        if proposed_snapshot_index > cur_snapshot_index {
+        // A snapshot ahead of the application is one being received from the leader.
+        let applied_index = self.user_pointer.load(Ordering::SeqCst);
+        if proposed_snapshot_index > cur_snapshot_index && proposed_snapshot_index <= applied_index
+        {
             info!("found a newer proposed snapshot@{proposed_snapshot_index} > {cur_snapshot_index}. will move the snapshot index.");
 
             // Calculate membership at the new snapshot index
-- 
2.43.0


From b3c1220779b6ef175e28bf7f119ef996d35161fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 26/40] fix: keep the last membership found after a log
 compaction

---
 sorock/src/process/command_log/consumer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 836833a..bbdb5d6 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -44,6 +44,9 @@ impl CommandLog {
             };
 
             self.insert_snapshot(new_snapshot_entry).await?;
+            // The entry of the last membership will be deleted.
+            self.membership_pointer
+                .fetch_max(proposed_snapshot_index, Ordering::SeqCst);
         }
 
         Ok(())
-- 
2.43.0


From 823888a772ef2ccd2b79da342d7e0a99d5cb8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 27/40] fix: a received snapshot never lets replaced entries be
 processed

---
 sorock/src/process/command_log/consumer.rs | 8 ++++++--
 sorock/src/process/command_log/producer.rs | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index bbdb5d6..038ebca 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -54,8 +54,10 @@ impl CommandLog {
 
     /// Advance user process once.
     pub(crate) async fn advance_user_process(&self, app: App) -> Result<()> {
+        // The pointer to follow must be read first. A received snapshot may move both.
+        let cur_kern_index = self.kern_pointer.load(Ordering::SeqCst);
         let cur_user_index = self.user_pointer.load(Ordering::SeqCst);
-        ensure!(cur_user_index < self.kern_pointer.load(Ordering::SeqCst));
+        ensure!(cur_user_index < cur_kern_index);
 
         let process_index = cur_user_index + 1;
         let e = self.get_entry(process_index).await?;
@@ -123,8 +125,10 @@ impl CommandLog {
 
     /// Advance kernel process once.
     pub(crate) async fn advance_kern_process(&self, voter: Voter) -> Result<()> {
+        // The pointer to follow must be read first. A received snapshot may move both.
+        let cur_commit_index = self.commit_pointer.load(Ordering::SeqCst);
         let cur_kern_index = self.kern_pointer.load(Ordering::SeqCst);
-        ensure!(cur_kern_index < self.commit_pointer.load(Ordering::SeqCst));
+        ensure!(cur_kern_index < cur_commit_index);
 
         let process_index = cur_kern_index + 1;
         let e = self.get_entry(process_index).await?;
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 4800e53..e056acd 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -107,11 +107,13 @@ impl CommandLog {
                     *kern_completions = if has_entry { kern_rest } else { BTreeMap::new() };
                 }
 
-                self.commit_pointer
+                // The entries before the snapshot may not be the committed ones.
+                // Each pointer is moved before the one it follows so they are never processed.
+                self.user_pointer
                     .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.kern_pointer
                     .fetch_max(snapshot_index - 1, Ordering::SeqCst);
-                self.user_pointer
+                self.commit_pointer
                     .fetch_max(snapshot_index - 1, Ordering::SeqCst);
 
                 return Ok(TryInsertResult::Inserted);
-- 
2.43.0


From 0edeba83244169ae19651934eedd0a04544bb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 28/40] fix: queries wait until a received snapshot is
 installed

---
 sorock/src/process/thread/query_execution.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sorock/src/process/thread/query_execution.rs b/sorock/src/process/thread/query_execution.rs
index 08ba8d8..553c6ec 100644
--- a/sorock/src/process/thread/query_execution.rs
+++ b/sorock/src/process/thread/query_execution.rs
@@ -10,6 +10,10 @@ struct Thread {
 impl Thread {
     async fn advance_once(&self) -> bool {
         let last_applied = self.command_log.user_pointer.load(Ordering::SeqCst);
+        // The application is behind until it installs the received snapshot.
+        if last_applied < self.command_log.snapshot_pointer.load(Ordering::SeqCst) {
+            return false;
+        }
         self.query_queue.process(last_applied).await > 0
     }
 
-- 
2.43.0


From 15b59fc8ab6d9663d650b62cebc0f60afbbcc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 29/40] fix: a candidate whose election failed stands again

---
 sorock/src/process/voter/election.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 50f84ce..e1179e2 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -146,9 +146,12 @@ impl Voter {
             .await
             .unwrap_or(false);
 
-        self.post_election(vote_term, ok).await?;
-
-        Ok(())
+        let res = self.post_election(vote_term, ok).await;
+        if res.is_err() {
+            // A node that stays Candidate never starts another election.
+            self.write_election_state(ElectionState::Follower);
+        }
+        res
     }
 
     /// Request votes to the peers in the cluster and returns whether it got enough votes.
-- 
2.43.0


From 149b78952f8add47bc88832922b943e72bb2387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 30/40] fix: carry out a request to the end even if its client
 gives up

---
 sorock/src/raft_service/mod.rs | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 4d559a0..2e3a47c 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -16,6 +16,14 @@ pub struct RaftService {
     node: RaftNode,
 }
 
+/// Execute a request to the end even if the client gives up waiting for the response,
+/// so that the request is never left half done.
+async fn run_to_end<T: Send + 'static>(
+    fut: impl std::future::Future<Output = Result<T>> + Send + 'static,
+) -> Result<T> {
+    tokio::spawn(fut).await?
+}
+
 #[tonic::async_trait]
 impl raft::raft_server::Raft for RaftService {
     type GetSnapshotStream = stream::SnapshotStreamOut;
@@ -30,12 +38,12 @@ impl raft::raft_server::Raft for RaftService {
             message: req.message,
             request_id: req.request_id,
         };
-        let resp = self
+        let process = self
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
-            .process_user_write_request(req)
+            .unwrap();
+        let resp = run_to_end(async move { process.process_user_write_request(req).await })
             .await
             .unwrap();
         Ok(tonic::Response::new(raft::Response { message: resp }))
@@ -70,11 +78,12 @@ impl raft::raft_server::Raft for RaftService {
         let req = request::KernRequest {
             message: req.message,
         };
-        self.node
+        let process = self
+            .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
-            .process_kern_request(req)
+            .unwrap();
+        run_to_end(async move { process.process_kern_request(req).await })
             .await
             .unwrap();
         Ok(tonic::Response::new(()))
@@ -121,11 +130,12 @@ impl raft::raft_server::Raft for RaftService {
         let req = request::AddServer {
             server_id: req.server_id.parse().unwrap(),
         };
-        self.node
+        let process = self
+            .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
-            .add_server(req)
+            .unwrap();
+        run_to_end(async move { process.add_server(req).await })
             .await
             .unwrap();
         Ok(tonic::Response::new(()))
@@ -156,12 +166,12 @@ impl raft::raft_server::Raft for RaftService {
     ) -> std::result::Result<tonic::Response<raft::ReplicationStreamResponse>, tonic::Status> {
         let st = request.into_inner();
         let (shard_id, st) = stream::into_internal_replication_stream(st).await.unwrap();
-        let resp = self
+        let process = self
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
-            .send_replication_stream(st)
+            .unwrap();
+        let resp = run_to_end(async move { process.send_replication_stream(st).await })
             .await
             .unwrap();
         Ok(tonic::Response::new(raft::ReplicationStreamResponse {
@@ -219,11 +229,12 @@ impl raft::raft_server::Raft for RaftService {
     ) -> std::result::Result<tonic::Response<()>, tonic::Status> {
         let req = req.into_inner();
         let shard_id = req.shard_id;
-        self.node
+        let process = self
+            .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
-            .send_timeout_now()
+            .unwrap();
+        run_to_end(async move { process.send_timeout_now().await })
             .await
             .unwrap();
         Ok(tonic::Response::new(()))
-- 
2.43.0


From bcefff8e19f5175f45ceb9e674cacd6013b207bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 31/40] fix: stop the threads for the peers when a process is
 dropped

---
 sorock/src/process/peer_svc/mod.rs     | 5 +++++
 sorock/src/process/raft_process/mod.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index cc13491..6529cee 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -130,6 +130,11 @@ impl PeerSvc {
         Ok(())
     }
 
+    /// Stop the threads for all the peers.
+    pub fn stop_threads(&self) {
+        self.peer_threads.lock().clear();
+    }
+
     fn remove_peer(&self, id: NodeId) {
         self.peer_threads.lock().remove(&id);
         self.peer_contexts.write().remove(&id);
diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index 7144d17..c9630fd 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -115,3 +115,11 @@ impl RaftProcess {
         })
     }
 }
+
+impl Drop for RaftProcess {
+    fn drop(&mut self) {
+        // The threads for the peers refer to the struct that keeps their handles,
+        // so they don't stop unless the handles are dropped explicitly.
+        self.peers.stop_threads();
+    }
+}
-- 
2.43.0


From a076ab00e696f823037116a6ff811012d67fbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 32/40] fix: end the writer of the database with its last store

---
 sorock/src/backends/redb/log.rs | 9 ++++++---
 sorock/src/backends/redb/mod.rs | 4 +---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index a5c4c53..a952aa5 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -66,9 +66,12 @@ impl Reaper {
         (this, tx)
     }
 
-    pub fn reap(&self) -> Result<()> {
+    /// Returns false if nothing will be queued any more.
+    pub fn reap(&self) -> Result<bool> {
         // Blocked until the first element is received.
-        let head = self.rx.recv()?;
+        let Ok(head) = self.rx.recv() else {
+            return Ok(false);
+        };
         let tail = self.rx.drain();
 
         let mut notifiers = vec![];
@@ -89,7 +92,7 @@ impl Reaper {
         for notifier in notifiers {
             notifier.send(()).ok();
         }
-        Ok(())
+        Ok(true)
     }
 }
 
diff --git a/sorock/src/backends/redb/mod.rs b/sorock/src/backends/redb/mod.rs
index 701a072..83b36a6 100644
--- a/sorock/src/backends/redb/mod.rs
+++ b/sorock/src/backends/redb/mod.rs
@@ -18,9 +18,7 @@ impl Backend {
         let db = Arc::new(redb);
 
         let (reaper, tx) = log::Reaper::new(db.clone());
-        std::thread::spawn(move || loop {
-            reaper.reap().ok();
-        });
+        std::thread::spawn(move || while reaper.reap().unwrap_or(true) {});
 
         Self { db, tx }
     }
-- 
2.43.0


From 1d26e79f1bc2502abc87adf8d1e1c2a6943344dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 33/40] fix: count replicas and announce the leadership only
 within one term

The ballot, the election state and the progress of the peers were read one after
another, so an activity that was delayed in between could combine the progress of
an old leadership with the term of a new leader and commit an entry that only this
node has, or announce the term of a candidate as the one of a leader.
---
 sorock/src/process/thread/advance_commit.rs | 5 ++++-
 sorock/src/process/voter/heartbeat.rs       | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 005f9ec..cbbef4c 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -10,6 +10,8 @@ pub struct Thread {
 }
 impl Thread {
     async fn run_once(&self) -> Result<()> {
+        // The term is read before anything else and again at last: it should not change in between.
+        let cur_term = self.voter.read_ballot().await?.cur_term;
         let election_state = self.voter.read_election_state();
         ensure!(std::matches!(election_state, voter::ElectionState::Leader));
 
@@ -19,9 +21,10 @@ impl Thread {
         if new_commit_index > cur_commit_index {
             // $5.4.2
             // Only log entries from the leader's current term are committed by counting replicas.
-            let cur_term = self.voter.read_ballot().await?.cur_term;
             let new_commit_entry = self.command_log.get_entry(new_commit_index).await?;
             ensure!(new_commit_entry.this_clock.term == cur_term);
+            // The replicas counted may be the ones of another leadership.
+            ensure!(self.voter.read_ballot().await?.cur_term == cur_term);
 
             self.command_log
                 .commit_pointer
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index c477718..d8ce68d 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -42,14 +42,22 @@ impl Voter {
     }
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
+        // The term is read before anything else and again at last: it should not change in between.
         let ballot = self.read_ballot().await?;
         // The term may be the one of a new leader.
         ensure!(ballot.voted_for == Some(self.driver.self_node_id()));
+        // Or this node may still be a candidate of the term.
+        ensure!(std::matches!(
+            self.read_election_state(),
+            ElectionState::Leader
+        ));
         // The entries of the follower after the match index may conflict with the log of the leader.
         let leader_commit_index = std::cmp::min(
             self.command_log.commit_pointer.load(Ordering::SeqCst),
             self.peers.read_match_index(&follower_id)?,
         );
+        // The indices may be the ones of another term.
+        ensure!(self.read_ballot().await?.cur_term == ballot.cur_term);
         let req = request::Heartbeat {
             leader_term: ballot.cur_term,
             leader_commit_index,
-- 
2.43.0


From 40086176ec9b0120b97a2dc6b124557df862ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 34/40] fix: do not store entries of the old leader after
 voting for another node

The leader was checked only when a stream of entries began, and a node that had
voted for nobody took the entries of anyone. An entry stored after the log was
compared for a vote is one the candidate may not have, but it was acknowledged to
the old leader, which could commit it.
---
 sorock/src/process/command_log/producer.rs   | 9 +++++++++
 sorock/src/process/raft_process/queue.rs     | 7 ++++++-
 sorock/src/process/raft_process/responder.rs | 4 +---
 sorock/src/process/voter/election.rs         | 3 +++
 sorock/src/process/voter/mod.rs              | 5 +++++
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index e056acd..574be24 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -16,6 +16,11 @@ pub enum TryInsertResult {
 }
 
 impl CommandLog {
+    /// Keep the log from being changed.
+    pub async fn lock_append(&self) -> tokio::sync::MutexGuard<'_, ()> {
+        self.append_lock.lock().await
+    }
+
     /// Append a new entry to the log.
     /// Fails if the log already has an entry of a newer term.
     /// Appending an entry after it is not allowed because this node is not the leader of the term.
@@ -59,6 +64,7 @@ impl CommandLog {
         entry: Entry,
         sender_id: NodeId,
         driver: RaftDriver,
+        voter: Voter,
     ) -> Result<TryInsertResult> {
         // If the entry is snapshot then we should insert this entry without consistency checks.
         // Old entries before the new snapshot will be garbage collected.
@@ -88,6 +94,7 @@ impl CommandLog {
 
                 {
                     let _g = self.append_lock.lock().await;
+                    ensure!(voter.follows(&sender_id).await?);
 
                     // Unless the log has the entry, the entries after it conflict with the leader's log.
                     let found = self.storage.get_entry(snapshot_index).await?;
@@ -122,6 +129,8 @@ impl CommandLog {
         }
 
         let _g = self.append_lock.lock().await;
+        // This node may have voted for another node in the meantime.
+        ensure!(voter.follows(&sender_id).await?);
 
         let Clock {
             term: _,
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index cacb902..abf9903 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -39,7 +39,12 @@ impl RaftProcess {
             let command = entry.command.clone();
             match self
                 .command_log
-                .try_insert_entry(entry, req.sender_id.clone(), self.driver.clone())
+                .try_insert_entry(
+                    entry,
+                    req.sender_id.clone(),
+                    self.driver.clone(),
+                    self.voter.clone(),
+                )
                 .await?
             {
                 command_log::TryInsertResult::Inserted => {
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index e1908d1..90be1e6 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -6,9 +6,7 @@ impl RaftProcess {
         req: request::ReplicationStream,
     ) -> Result<response::ReplicationStream> {
         // A deposed leader may not know the new leader yet.
-        if let Some(leader_id) = self.voter.read_ballot().await?.voted_for {
-            ensure!(leader_id == req.sender_id);
-        }
+        ensure!(self.voter.follows(&req.sender_id).await?);
 
         let n_inserted = self.queue_received_entries(req).await?;
         let resp = response::ReplicationStream {
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index e1179e2..bc8374c 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -37,6 +37,9 @@ impl Voter {
             }
         }
 
+        // Nothing should be inserted after the log was compared until the vote is stored
+        // otherwise the old leader may commit an entry that the candidate doesn't have.
+        let _g = self.command_log.lock_append().await;
         let last_log_clock = {
             let cur_last_index = self.command_log.get_log_last_index().await?;
             if cur_last_index == 0 {
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 34c4a21..fa3e1da 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -70,6 +70,11 @@ impl Voter {
         self.ballot.save_ballot(b).await
     }
 
+    /// Is the node the one this node voted for or the leader of the current term?
+    pub async fn follows(&self, node_id: &NodeId) -> Result<bool> {
+        Ok(self.read_ballot().await?.voted_for.as_ref() == Some(node_id))
+    }
+
     pub fn commit_safe_term(&self, term: Term) {
         info!("commit safe term={term}");
         self.safe_term.store(term, Ordering::SeqCst);
-- 
2.43.0


From 56d7d2ca953fe15ea85556bdd34d69a3fa3e0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 35/40] fix: append entries for clients only while leading the
 term they get

---
 sorock/src/process/raft_process/queue.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index abf9903..3255207 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -6,7 +6,13 @@ impl RaftProcess {
         command: Bytes,
         completion: Completion,
     ) -> Result<Index> {
+        // The term is read before anything else and again at last: it should not change in between.
         let cur_term = self.voter.read_ballot().await?.cur_term;
+        // This node may have been deposed meanwhile.
+        ensure!(std::matches!(
+            self.voter.read_election_state(),
+            voter::ElectionState::Leader
+        ));
         ensure!(self.voter.allow_queue_new_entry().await?);
 
         let append_index = self
-- 
2.43.0


From 06725071e8ebb01846aed16a911480600b0d66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 36/40] fix: leave the leadership before the term of the next
 election is stored

---
 sorock/src/process/voter/election.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index bc8374c..480fc9d 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -133,10 +133,14 @@ impl Voter {
             // Vote to itself
             new_ballot.cur_term = vote_term;
             new_ballot.voted_for = Some(self.driver.self_node_id());
-            self.write_ballot(new_ballot).await?;
 
             // Becoming Candidate avoids this node starts another election during this election.
+            // It shouldn't be seen as the leader of the new term.
             self.write_election_state(ElectionState::Candidate);
+            if let Err(err) = self.write_ballot(new_ballot).await {
+                self.write_election_state(ElectionState::Follower);
+                return Err(err);
+            }
             vote_term
         };
 
-- 
2.43.0


From 071e82ddd0dffd81f9084fbf82874d734b5c8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 37/40] fix: form a cluster only while no other activity does

---
 sorock/src/process/raft_process/cluster.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/raft_process/cluster.rs b/sorock/src/process/raft_process/cluster.rs
index d4f4b41..bbedd6e 100644
--- a/sorock/src/process/raft_process/cluster.rs
+++ b/sorock/src/process/raft_process/cluster.rs
@@ -40,8 +40,14 @@ impl RaftProcess {
             command: init_command.clone(),
         };
 
-        self.command_log.insert_snapshot(snapshot).await?;
-        self.process_configuration_command(&init_command, 1).await?;
+        {
+            // Another activity may have formed or joined a cluster meanwhile.
+            let _lk = self.membership_lock.lock().await;
+            ensure!(self.peers.read_membership().is_empty());
+
+            self.command_log.insert_snapshot(snapshot).await?;
+            self.process_configuration_command(&init_command, 1).await?;
+        }
 
         // After this function is called
         // this server should immediately become the leader by self-vote and advance commit index.
-- 
2.43.0


From 11a6ea8474643a4ab1f4831486b1e742ef26b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 38/40] fix: delete the entries that conflict with a received
 snapshot before it is in the log

---
 sorock/src/process/command_log/producer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 574be24..d3e348b 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -100,10 +100,11 @@ impl CommandLog {
                     let found = self.storage.get_entry(snapshot_index).await?;
                     let has_entry = snapshot_index <= self.commit_pointer.load(Ordering::SeqCst)
                         || found.map(|x| x.this_clock) == Some(entry.this_clock);
-                    self.insert_snapshot(entry).await?;
+                    // Once the snapshot is in the log the conflict can't be found again.
                     if !has_entry {
                         self.storage.delete_entries_from(snapshot_index + 1).await?;
                     }
+                    self.insert_snapshot(entry).await?;
 
                     // The entries covered by the snapshot and the deleted ones are never processed.
                     let mut user_completions = self.user_completions.lock();
-- 
2.43.0


From 2e304d36d6c35be4d430e1da493aea7331e806ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 39/40] fix: put a configuration that is in the log into effect
 without reading the log again

---
 sorock/src/process/peer_svc/mod.rs         | 28 +++++++---------------
 sorock/src/process/raft_process/cluster.rs | 12 +++-------
 sorock/src/process/raft_process/queue.rs   |  6 ++---
 3 files changed, 13 insertions(+), 33 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 6529cee..0de13f7 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -83,8 +83,7 @@ impl PeerSvc {
                     _ => unreachable!(),
                 }
             };
-            self.set_membership(last_membership, last_membership_index, voter)
-                .await?;
+            self.set_membership(last_membership, last_membership_index, voter);
         };
 
         Ok(())
@@ -92,19 +91,16 @@ impl PeerSvc {
 }
 
 impl PeerSvc {
-    async fn add_peer(&self, id: NodeId, voter: Ref<Voter>) -> Result<()> {
+    fn add_peer(&self, id: NodeId, init_next_index: Index, voter: Ref<Voter>) {
         if id == self.driver.self_node_id() {
-            return Ok(());
+            return;
         }
 
         if self.peer_contexts.read().contains_key(&id) {
-            return Ok(());
+            return;
         }
 
-        let init_progress = {
-            let last_log_index = self.command_log.get_log_last_index().await?;
-            ReplicationProgress::new(last_log_index)
-        };
+        let init_progress = ReplicationProgress::new(init_next_index);
 
         let mut peer_contexts = self.peer_contexts.write();
         peer_contexts.insert(
@@ -126,8 +122,6 @@ impl PeerSvc {
             heartbeater_handle: thread::heartbeat::new(id.clone(), voter),
         };
         self.peer_threads.lock().insert(id, thread_handles);
-
-        Ok(())
     }
 
     /// Stop the threads for all the peers.
@@ -140,12 +134,8 @@ impl PeerSvc {
         self.peer_contexts.write().remove(&id);
     }
 
-    pub async fn set_membership(
-        &self,
-        config: HashSet<NodeId>,
-        index: Index,
-        voter: Ref<Voter>,
-    ) -> Result<()> {
+    /// This can't fail because the entry with the configuration is already in the log.
+    pub fn set_membership(&self, config: HashSet<NodeId>, index: Index, voter: Ref<Voter>) {
         let cur = self.read_membership();
 
         let add_peers = {
@@ -172,7 +162,7 @@ impl PeerSvc {
         // When making cluster membership changes that require multiple single-server steps,
         // it is preferable to add servers before removing servers.
         for id in add_peers {
-            self.add_peer(id, voter.clone()).await?;
+            self.add_peer(id, index, voter.clone());
         }
         for id in remove_peers {
             self.remove_peer(id);
@@ -184,8 +174,6 @@ impl PeerSvc {
         self.command_log
             .membership_pointer
             .store(index, Ordering::SeqCst);
-
-        Ok(())
     }
 
     pub fn read_membership(&self) -> HashSet<NodeId> {
diff --git a/sorock/src/process/raft_process/cluster.rs b/sorock/src/process/raft_process/cluster.rs
index bbedd6e..e740fa8 100644
--- a/sorock/src/process/raft_process/cluster.rs
+++ b/sorock/src/process/raft_process/cluster.rs
@@ -6,11 +6,7 @@ impl RaftProcess {
     /// guarantees that majority of the servers move to the configuration when the entry is committed.
     /// Without this property, servers may still be in some old configuration which may cause split-brain
     /// by electing two leaders in a single term which is not allowed in Raft.
-    pub(crate) async fn process_configuration_command(
-        &self,
-        command: &[u8],
-        index: Index,
-    ) -> Result<()> {
+    pub(crate) fn process_configuration_command(&self, command: &[u8], index: Index) {
         let config0 = match Command::deserialize(command) {
             Command::Snapshot { membership } => Some(membership),
             Command::ClusterConfiguration { membership } => Some(membership),
@@ -18,10 +14,8 @@ impl RaftProcess {
         };
         if let Some(config) = config0 {
             self.peers
-                .set_membership(config, index, Ref(self.voter.clone()))
-                .await?;
+                .set_membership(config, index, Ref(self.voter.clone()));
         }
-        Ok(())
     }
 
     /// Forming a new cluster with a single node is called "cluster bootstrapping".
@@ -46,7 +40,7 @@ impl RaftProcess {
             ensure!(self.peers.read_membership().is_empty());
 
             self.command_log.insert_snapshot(snapshot).await?;
-            self.process_configuration_command(&init_command, 1).await?;
+            self.process_configuration_command(&init_command, 1);
         }
 
         // After this function is called
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 3255207..e4dabb5 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -20,8 +20,7 @@ impl RaftProcess {
             .append_new_entry(command.clone(), cur_term, Some(completion))
             .await?;
 
-        self.process_configuration_command(&command, append_index)
-            .await?;
+        self.process_configuration_command(&command, append_index);
 
         self.queue_tx.push_event(thread::QueueEvent);
         self.replication_tx.push_event(thread::ReplicationEvent);
@@ -62,8 +61,7 @@ impl RaftProcess {
                     if insert_index <= membership_index {
                         self.peers.restore_state(Ref(self.voter.clone())).await?;
                     } else {
-                        self.process_configuration_command(&command, insert_index)
-                            .await?
+                        self.process_configuration_command(&command, insert_index);
                     }
                 }
                 command_log::TryInsertResult::SkippedInsertion => {}
-- 
2.43.0


From fc41b334aff83c2249e03b47afcb4d2cda6e4eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 40/40] fix: take the membership of a follower from the log as
 it is under the lock

---
 sorock/src/process/raft_process/queue.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index e4dabb5..dcc0ec7 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -52,19 +52,23 @@ impl RaftProcess {
                 )
                 .await?
             {
-                command_log::TryInsertResult::Inserted => {
+                // A skipped entry may be one whose insertion was not followed by its configuration.
+                command_log::TryInsertResult::Inserted
+                | command_log::TryInsertResult::SkippedInsertion => {
                     // Another activity may be changing the membership for an entry of its own.
                     let _lk = self.membership_lock.lock().await;
-                    // The last configuration may have been deleted from the log.
+                    // The last configuration may have been deleted from the log
+                    // and this entry may have been replaced since it was inserted.
                     let membership_index =
                         self.command_log.membership_pointer.load(Ordering::SeqCst);
-                    if insert_index <= membership_index {
+                    let has_configuration = std::matches!(
+                        Command::deserialize(&command),
+                        Command::Snapshot { .. } | Command::ClusterConfiguration { .. }
+                    );
+                    if has_configuration || insert_index <= membership_index {
                         self.peers.restore_state(Ref(self.voter.clone())).await?;
-                    } else {
-                        self.process_configuration_command(&command, insert_index);
                     }
                 }
-                command_log::TryInsertResult::SkippedInsertion => {}
                 command_log::TryInsertResult::InconsistentInsertion { want, found } => {
                     warn!("rejected append entry (clock={:?}) for inconsisntency (want:{want:?} != found:{found:?}", cur.this_clock);
                     break;
-- 
2.43.0

