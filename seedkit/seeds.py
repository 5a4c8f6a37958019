SEEDS = {}


def seed(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed('vote-not-saved', 'C01',
     'a candidate of a term the voter already knows (from a rejected candidate), then another candidate in that term after a restart',
     'a vote given in a term that is already stored is not written, so a restarted node votes for a second candidate of the term',
     [('process/voter/election.rs', '''        let mut ballot = self.read_ballot().await?;
        if candidate_term < ballot.cur_term {
            warn!("candidate''', '''        let mut ballot = self.read_ballot().await?;
        let stored_term = ballot.cur_term;
        if candidate_term < ballot.cur_term {
            warn!("candidate'''),
      ('process/voter/election.rs', '''        if allow_update_ballot {
            self.write_ballot(ballot).await?;
        }

        info!("voted''', '''        // The ballot of a known term is already stored.
        if allow_update_ballot && ballot.cur_term > stored_term {
            self.write_ballot(ballot).await?;
        }

        info!("voted''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn one_vote_per_term() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (nid(1), nid(2));
    log.put(1, 0, 0, snapshot(&[nid(port), a.clone(), b.clone()]));
    log.put(2, 3, 0, Command::Barrier(3));
    let n = start(port, log.clone(), MemBallot::at(3, None), TestApp::default()).await;
    assert!(!n.p.request_vote(vote(4, &a, (2, 9), true, false)).await.unwrap(), "setup");
    assert!(n.p.request_vote(vote(4, &a, (3, 2), true, false)).await.unwrap());
    // restart
    let port = free_port();
    let n = start(port, log, n.ballot.clone(), TestApp::default()).await;
    assert!(!n.p.request_vote(vote(4, &b, (3, 2), true, false)).await.unwrap(), "two votes in term 4");
}
''')

seed('prevote-writes-term', 'C05',
     'a pre-vote of a candidate whose log is behind, asked of a node that suspects its leader',
     'rejecting a pre-vote stores the term of the candidate, so a node with an old log pushes terms up',
     [('process/voter/election.rs', '''            warn!("candidate clock is older. reject vote");
            if allow_update_ballot {
                self.write_ballot(ballot).await?;
            }
            return''', '''            warn!("candidate clock is older. reject vote");
            self.write_ballot(ballot).await?;
            return''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn prevote_changes_nothing() {
    let port = free_port();
    let log = MemLog::default();
    let a = nid(1);
    log.put(1, 0, 0, snapshot(&[nid(port), a.clone()]));
    log.put(2, 3, 0, Command::Barrier(3));
    let n = start(port, log, MemBallot::at(3, Some(a.clone())), TestApp::default()).await;
    let before = n.ballot.get();
    assert!(!n.p.request_vote(vote(8, &a, (2, 9), true, true)).await.unwrap());
    assert_eq!(n.ballot.get(), before);
}
''')

seed('vote-compares-committed', 'C03',
     'a voter with uncommitted entries behind its commit index and a candidate that lacks them',
     'the candidate is compared with the last committed entry of the voter instead of its last one',
     [('process/voter/election.rs', '''            let cur_last_index = self.command_log.get_log_last_index().await?;
            if cur_last_index == 0 {''', '''            // Only what is known to be committed must not get lost.
            let cur_last_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
            if cur_last_index == 0 {''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn shorter_log_gets_no_vote() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (nid(1), nid(2));
    log.put(1, 0, 0, snapshot(&[nid(port), a.clone(), b.clone()]));
    log.put(2, 3, 0, Command::Barrier(3));
    log.put(3, 3, 3, exec("x", "1"));
    let n = start(port, log, MemBallot::at(3, Some(a.clone())), TestApp::default()).await;
    n.p.receive_heartbeat(a, beat(3, 2)).await.unwrap();
    // entry 3 is on this node and on the old leader: a majority
    assert!(!n.p.request_vote(vote(4, &b, (3, 2), true, false)).await.unwrap(), "vote for a node without entry 3");
}
''')

seed('majority-of-even', 'C04',
     'a membership of even size with exactly half of the members reachable',
     'with an even number of members half of them elect a leader',
     [('process/voter/election.rs', '''            let majority = n / 2 + 1;
            (others, majority - 1)''', '''            // this node has voted for itself
            let majority = (n + 1) / 2;
            (others, majority - 1)''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn half_is_no_majority() {
    let port = free_port();
    let log = MemLog::default();
    let a = peer().await;
    let (b, c) = (nid(1), nid(2));
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone(), b, c]));
    let n = start(port, log, MemBallot::at(3, None), TestApp::default()).await;
    n.p.send_timeout_now().await.ok();
    assert!(!is_leader(&n), "leader with two votes out of four");
}
''')

seed('stale-heartbeat-heard', 'C07',
     'a heartbeat of a deposed leader delivered late',
     'a heartbeat of an old term makes the node watch the deposed leader before it is rejected',
     [('process/voter/heartbeat.rs', '''        let mut ballot = self.read_ballot().await?;
        if leader_term < ballot.cur_term {
            warn!("heartbeat is stale. rejected");
            return Ok(());
        }

        self.leader_failure_detector
            .receive_heartbeat(leader_id.clone());
''', '''        self.leader_failure_detector
            .receive_heartbeat(leader_id.clone());

        let mut ballot = self.read_ballot().await?;
        if leader_term < ballot.cur_term {
            warn!("heartbeat is stale. rejected");
            return Ok(());
        }
''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn stale_heartbeat_is_ignored() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (peer().await, peer().await);
    a.grant.store(false, Ordering::SeqCst);
    b.grant.store(false, Ordering::SeqCst);
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone(), b.id.clone()]));
    let n = start(port, log, MemBallot::at(5, Some(a.id.clone())), TestApp::default()).await;
    let mut ok = false;
    for _ in 0..300 {
        ms(50).await;
        if n.p.voter.get_election_timeout().is_some() {
            ok = true;
            break;
        }
    }
    assert!(ok, "setup: the failure of the leader is never suspected");
    n.p.receive_heartbeat(b.id.clone(), beat(4, 0)).await.unwrap();
    assert!(n.p.voter.get_election_timeout().is_some(), "a stale heartbeat counts as a sign of life");
}
''')

seed('skip-by-index', 'C08',
     'a follower that holds an entry of a deposed leader with a higher index than the new leader\'s first one',
     'an entry is taken for already present when there is one at its index, whatever its term',
     [('process/command_log/producer.rs', '''                    if old_clock == entry.this_clock {''', '''                    if old_clock.index == entry.this_clock.index && old_clock.term <= entry.this_clock.term {''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn conflicting_entry_is_replaced() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (nid(1), nid(2));
    log.put(1, 0, 0, snapshot(&[a.clone(), b.clone()]));
    log.put(2, 1, 0, Command::Barrier(1));
    log.put(3, 1, 1, exec("old", "1"));
    let n = start(port, log, MemBallot::at(2, Some(b.clone())), TestApp::default()).await;
    n.p.send_replication_stream(stream_of(&b, vec![ent(3, 2, 1, Command::Barrier(2))])).await.unwrap();
    assert_eq!(n.log.clock(3), Some((2, 3)));
}
''')

seed('commit-half', 'C11',
     'a cluster with an even number of members in which only half hold an entry',
     'an index is committed when half of the members of a cluster of even size hold it',
     [('process/peer_svc/mod.rs', '''        let mid = match_indices.len() / 2;''', '''        let mid = (match_indices.len() - 1) / 2;''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn half_does_not_commit() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b, c) = (peer().await, peer().await, peer().await);
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone(), b.id.clone(), c.id.clone()]));
    b.silent.store(true, Ordering::SeqCst);
    c.silent.store(true, Ordering::SeqCst);
    let n = start(port, log, MemBallot::at(3, None), TestApp::default()).await;
    lead(&n).await;
    assert!(until(5000, || a.last.load(Ordering::SeqCst) >= 2).await, "setup: not replicated");
    ms(1500).await;
    assert!(commit_of(&n) < 2, "committed with two of four members");
}
''')

seed('write-error-ignored', 'C13',
     'an application that fails once to execute a request',
     'a request the application failed to execute is skipped as if it had been applied',
     [('process/command_log/consumer.rs', '''                        let resp = app.process_write(message, process_index).await?;
                        response_cache.insert_response(request_id.clone(), resp);''', '''                        match app.process_write(message, process_index).await {
                            Ok(resp) => response_cache.insert_response(request_id.clone(), resp),
                            Err(e) => error!("failed to process user@{process_index}: {e}"),
                        }''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn failed_request_is_not_skipped() {
    let port = free_port();
    let log = MemLog::default();
    let a = nid(1);
    log.put(1, 0, 0, snapshot(&[a.clone()]));
    log.put(2, 1, 0, Command::Barrier(1));
    log.put(3, 1, 1, exec("x", "1"));
    log.put(4, 1, 1, exec("y", "2"));
    let app = TestApp::default();
    app.fail_writes.store(true, Ordering::SeqCst);
    let n = start(port, log, MemBallot::at(1, Some(a.clone())), app).await;
    n.p.receive_heartbeat(a, beat(1, 4)).await.unwrap();
    ms(2500).await;
    n.app.fail_writes.store(false, Ordering::SeqCst);
    assert!(until(8000, || applied_of(&n) == 4).await, "setup: not applied");
    let w: Vec<Index> = n.app.writes.lock().unwrap().iter().map(|x| x.0).collect();
    assert_eq!(w, vec![3, 4]);
}
''')

seed('completed-unknown-forgotten', 'C20',
     'a node that starts from a snapshot taken between a request and the report of its completion, and a late retry',
     'the completion of a request whose response the node does not hold is not remembered, so a late retry is executed there',
     [('process/command_log/response_cache.rs', '''        self.responses.remove(k);
        self.completes.insert(k.to_owned());''', '''        if self.responses.remove(k).is_some() {
            self.completes.insert(k.to_owned());
        }''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn late_retry_is_not_executed() {
    let port = free_port();
    let log = MemLog::default();
    let a = nid(1);
    log.put(1, 0, 0, snapshot(&[a.clone()]));
    log.put(2, 1, 0, Command::CompleteRequest { request_id: "id".to_string() });
    log.put(3, 1, 1, exec("x", "id"));
    let n = start(port, log, MemBallot::at(1, Some(a.clone())), TestApp::default()).await;
    n.p.receive_heartbeat(a, beat(1, 3)).await.unwrap();
    assert!(until(8000, || applied_of(&n) == 3).await, "setup: not applied");
    assert_eq!(n.app.writes.lock().unwrap().len(), 0);
}
''')

seed('completion-one-dropped', 'C21',
     'a deposed leader with several unanswered requests whose entries are replaced one stream at a time',
     'only the completion at the replaced index is dropped; a later one answers its client when another entry is applied at that index',
     [('process/command_log/producer.rs', '''                // discard [this_index, )
                self.user_completions.lock().split_off(&this_index);''', '''                // discard the one of the replaced entry
                self.user_completions.lock().remove(&this_index);''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn replaced_request_is_refused() {
    let port = free_port();
    let log = MemLog::default();
    let a = peer().await;
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone()]));
    let n = start(port, log, MemBallot::at(3, None), TestApp::default()).await;
    let t = lead(&n).await;
    let mut committed = false;
    for _ in 0..1000 {
        if n.p.voter.allow_queue_new_entry().await.unwrap() {
            committed = true;
            break;
        }
        ms(5).await;
    }
    assert!(committed, "setup: barrier");
    a.silent.store(true, Ordering::SeqCst);
    let (p1, p2) = (n.p.clone(), n.p.clone());
    let h1 = tokio::spawn(async move { p1.process_user_write_request(write("one", "1")).await });
    assert!(until(2000, || n.log.last() == 3).await, "setup: first");
    let h2 = tokio::spawn(async move { p2.process_user_write_request(write("two", "2")).await });
    assert!(until(2000, || n.log.last() == 4).await, "setup: second");
    // the other node leads the next term
    n.p.receive_heartbeat(a.id.clone(), beat(t + 1, 2)).await.unwrap();
    n.p.send_replication_stream(stream_of(&a.id, vec![ent(3, t + 1, t, Command::Barrier(t + 1))])).await.unwrap();
    let two = within(3000, h2).await;
    assert!(matches!(two, Some(Ok(Err(_)))), "the second request is neither answered nor refused");
    drop(h1);
}
''')

seed('read-at-applied', 'C22',
     'a read sent while a committed write is not applied yet',
     'a read is registered at the applied index instead of the commit index and misses committed writes',
     [('process/raft_process/responder.rs', '''            let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);''', '''            // What is applied is readable.
            let read_index = self.command_log.user_pointer.load(Ordering::SeqCst);''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn read_sees_committed_write() {
    let port = free_port();
    let log = MemLog::default();
    log.put(1, 0, 0, snapshot(&[nid(port)]));
    let n = start(port, log, MemBallot::at(3, None), TestApp::default()).await;
    lead(&n).await;
    assert!(until(8000, || applied_of(&n) == 2).await, "setup: barrier");
    n.app.hold_writes.store(true, Ordering::SeqCst);
    let p = n.p.clone();
    tokio::spawn(async move { p.process_user_write_request(write("w", "1")).await });
    assert!(until(8000, || commit_of(&n) == 3).await, "setup: commit");
    let p = n.p.clone();
    let r = tokio::spawn(async move { p.process_user_read_request(request::UserReadRequest { message: Bytes::new() }).await });
    ms(500).await;
    n.app.hold_writes.store(false, Ordering::SeqCst);
    assert_eq!(r.await.unwrap().unwrap(), Bytes::from("w"));
}
''')

seed('snapshot-latest-config', 'C30',
     'a snapshot taken while a newer configuration is in the log behind it',
     'the snapshot records the newest configuration in the log instead of the one in effect at its index',
     [('process/command_log/consumer.rs', '''                let last_membership_index = self
                    .find_last_membership_index(proposed_snapshot_index)''', '''                let last_membership_index = self
                    .find_last_membership_index(self.get_log_last_index().await?)''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn snapshot_keeps_its_membership() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b, c) = (nid(1), nid(2), nid(3));
    log.put(1, 0, 0, snapshot(&[a.clone(), b.clone()]));
    log.put(2, 1, 0, exec("x", "1"));
    log.put(3, 1, 1, config(&[a.clone(), b.clone(), c.clone()]));
    let n = start(port, log, MemBallot::at(1, Some(a.clone())), TestApp::default()).await;
    n.p.receive_heartbeat(a.clone(), beat(1, 2)).await.unwrap();
    assert!(until(8000, || applied_of(&n) == 2).await, "setup: not applied");
    n.app.latest.store(2, Ordering::SeqCst);
    assert!(until(8000, || n.p.command_log.snapshot_pointer.load(Ordering::SeqCst) == 2).await, "setup: no snapshot");
    let m = n.p.command_log.try_read_membership(2).await.unwrap().unwrap();
    assert_eq!(m, set(&[a, b]));
}
''')

seed('compaction-to-applied', 'C32',
     'a compaction while entries behind the last snapshot are applied',
     'the log is compacted up to the applied index, and entries no snapshot covers are lost',
     [('process/command_log/mod.rs', '''        let cur_snapshot_index = self.snapshot_pointer.load(Ordering::Relaxed);
        self.storage
            .delete_entries_before(cur_snapshot_index)''', '''        // Applied entries are not needed any more.
        let applied_index = self.user_pointer.load(Ordering::Relaxed);
        let cur_snapshot_index = self.snapshot_pointer.load(Ordering::Relaxed);
        let delete_before = match cur_snapshot_index {
            0 | 1 => cur_snapshot_index,
            _ => std::cmp::max(cur_snapshot_index, applied_index),
        };
        self.storage
            .delete_entries_before(delete_before)''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn uncovered_entries_stay() {
    let port = free_port();
    let log = MemLog::default();
    let a = nid(1);
    log.put(2, 1, 0, snapshot(&[a.clone()]));
    log.put(3, 1, 1, exec("x", "1"));
    log.put(4, 1, 1, exec("y", "2"));
    let n = start(port, log, MemBallot::at(1, Some(a.clone())), TestApp::default()).await;
    n.p.receive_heartbeat(a.clone(), beat(1, 4)).await.unwrap();
    assert!(until(8000, || applied_of(&n) == 4).await, "setup: not applied");
    ms(2500).await;
    assert!(n.log.clock(2).is_some() && n.log.clock(3).is_some(), "the snapshot or an entry behind it was deleted");
}
''')

seed('restart-behind-snapshot', 'C33',
     'a restart of a node whose log starts with a snapshot',
     'a restarted node goes on behind its snapshot without installing it, so the application starts empty',
     [('process/command_log/mod.rs', '''            snapshot_index - 1
        };''', '''            // The contents of the snapshot are already in the snapshot store.
            snapshot_index
        };''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn restart_installs_the_snapshot() {
    let port = free_port();
    let log = MemLog::default();
    let a = nid(1);
    log.put(7, 1, 1, snapshot(&[a.clone()]));
    log.put(8, 1, 1, exec("x", "1"));
    let n = start(port, log, MemBallot::at(1, Some(a.clone())), TestApp::default()).await;
    n.p.receive_heartbeat(a.clone(), beat(1, 8)).await.unwrap();
    assert!(until(8000, || applied_of(&n) == 8).await, "setup: not applied");
    assert_eq!(*n.app.installed.lock().unwrap(), vec![7]);
}
''')

seed('match-from-last-index', 'C34',
     'a follower whose log holds entries of a deposed leader behind the acknowledged ones',
     'everything in the log of a follower that accepted something is counted as replicated',
     [('process/peer_svc/replication.rs', '''            response::ReplicationStream { n_inserted, .. } => ReplicationProgress {
                match_index: old_progress.next_index + n_inserted - 1,''', '''            response::ReplicationStream {
                n_inserted,
                log_last_index,
            } => ReplicationProgress {
                match_index: std::cmp::max(
                    old_progress.next_index + n_inserted - 1,
                    std::cmp::min(log_last_index, cur_last_log_index),
                ),''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn only_acknowledged_entries_count() {
    let port = free_port();
    let log = MemLog::default();
    let a = peer().await;
    a.follow_last.store(false, Ordering::SeqCst);
    a.last.store(50, Ordering::SeqCst);
    a.take.store(0, Ordering::SeqCst);
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone()]));
    log.put(2, 1, 0, Command::Barrier(1));
    log.put(3, 1, 1, exec("x", "1"));
    let n = start(port, log, MemBallot::at(3, None), TestApp::default()).await;
    lead(&n).await;
    let back = until(8000, || a.entries.lock().unwrap().iter().any(|x| x.3 == 2)).await;
    assert!(back, "setup: the leader does not go back");
    a.once.store(true, Ordering::SeqCst);
    a.take.store(1, Ordering::SeqCst);
    let mut seen = 0;
    for _ in 0..2000 {
        seen = n.p.peers.read_match_index(&a.id).unwrap();
        if seen > 0 {
            break;
        }
        ms(5).await;
    }
    assert!(seen > 0, "setup: nothing acknowledged");
    assert!(seen < 4, "entry 4 counts as replicated after one earlier entry was acknowledged");
}
''')

seed('peer-threads-kept', 'C25',
     'a member is removed while the leader goes on',
     'the replication and heartbeat activities of a removed member keep running',
     [('process/peer_svc/mod.rs', '''        self.peer_threads.lock().remove(&id);
        self.peer_contexts.write().remove(&id);''', '''        // Without the context the activities of the peer have nothing to do.
        self.peer_contexts.write().remove(&id);''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn activities_of_a_removed_peer_end() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (nid(1), peer().await);
    log.put(1, 0, 0, snapshot(&[a.clone(), b.id.clone()]));
    let n = start(port, log, MemBallot::at(1, Some(a.clone())), TestApp::default()).await;
    let strong = |n: &Node| Arc::strong_count(&n.p.peers.0);
    let with_b = strong(&n);
    n.p.send_replication_stream(stream_of(&a, vec![ent(2, 1, 0, config(&[a.clone()]))])).await.unwrap();
    ms(1500).await;
    assert!(strong(&n) < with_b, "an activity of the removed peer is still there");
}
''')

seed('prevote-same-term', 'C17',
     'a node that already knows the term a candidate wants to stand in, with nobody voted for in it, and a shorter log than the candidate',
     'a pre-vote for the stored term is refused, so the only node with a log good enough cannot stand for election',
     [('process/voter/election.rs', '''        if candidate_term < ballot.cur_term {
            warn!("candidate''', '''        // A pre-vote is for a term to come.
        if candidate_term < ballot.cur_term || (pre_vote && candidate_term == ballot.cur_term) {
            warn!("candidate''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn prevote_for_the_known_term() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (nid(1), nid(2));
    log.put(1, 0, 0, snapshot(&[nid(port), a.clone(), b.clone()]));
    let n = start(port, log, MemBallot::at(4, None), TestApp::default()).await;
    assert!(n.p.request_vote(vote(4, &a, (3, 5), true, false)).await.unwrap(), "setup: vote");
    assert!(n.p.request_vote(vote(4, &a, (3, 5), true, true)).await.unwrap(), "pre-vote refused to a candidate that gets the vote");
}
''')

seed('prevote-heard', 'C06',
     'a node that lost contact to a leader the others still hear from',
     'a pre-vote is granted although the leader is alive, so a node cut off from the leader raises its term',
     [('process/voter/election.rs', '''        let should_vote = force_vote || leader_failed;''', '''        // A pre-vote changes nothing.
        let should_vote = force_vote || pre_vote || leader_failed;''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn no_prevote_against_a_living_leader() {
    let port = free_port();
    let log = MemLog::default();
    let (a, b) = (peer().await, nid(2));
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone(), b.clone()]));
    let n = start(port, log, MemBallot::at(3, Some(a.id.clone())), TestApp::default()).await;
    for _ in 0..8 {
        n.p.receive_heartbeat(a.id.clone(), beat(3, 1)).await.unwrap();
        ms(50).await;
    }
    assert!(!n.p.request_vote(vote(4, &b, (9, 9), false, true)).await.unwrap(), "pre-vote granted although the leader is heard from");
}
''')

seed('change-before-commit', 'C24',
     'a second change of the membership while the first is the only entry that is not committed',
     'a change of the membership is accepted when everything up to the entry before the last change is committed',
     [('process/command_log/mod.rs', '''        self.commit_pointer.load(Ordering::SeqCst) >= self.membership_pointer.load(Ordering::SeqCst)''',
       '''        self.commit_pointer.load(Ordering::SeqCst) + 1
            >= self.membership_pointer.load(Ordering::SeqCst)''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn one_change_at_a_time() {
    let port = free_port();
    let log = MemLog::default();
    let a = peer().await;
    log.put(1, 0, 0, snapshot(&[nid(port), a.id.clone()]));
    let n = start(port, log, MemBallot::at(3, None), TestApp::default()).await;
    lead(&n).await;
    assert!(until(8000, || commit_of(&n) == 2).await, "setup: barrier");
    for _ in 0..1000 {
        if n.p.voter.allow_queue_new_entry().await.unwrap() {
            break;
        }
        ms(5).await;
    }
    a.silent.store(true, Ordering::SeqCst);
    let change = |i| request::KernRequest { message: kern_message::KernRequest::AddServer(nid(i)).serialize() };
    let (p, first) = (n.p.clone(), change(7));
    tokio::spawn(async move { p.process_kern_request(first).await });
    assert!(until(5000, || n.log.last() == 3).await, "setup: first change");
    ms(200).await;
    let second = within(1500, n.p.process_kern_request(change(8))).await;
    assert!(matches!(second, Some(Err(_))), "second change accepted while the first is not committed");
    assert_eq!(n.log.last(), 3);
}
''')

seed('read-to-itself', 'C23',
     'a read sent to a node that voted for itself and does not lead',
     'a node passes a read on to itself, again and again',
     [('process/raft_process/responder.rs', '''            // This check is to avoid looping.
            ensure!(self.driver.self_node_id() != leader_id);
            let conn = self.driver.connect(leader_id);
            conn.process_user_read_request(req).await?''', '''            let conn = self.driver.connect(leader_id);
            conn.process_user_read_request(req).await?''')],
     '''
#[tokio::test(flavor = "multi_thread")]
async fn read_is_refused_without_leader() {
    let port = free_port();
    let log = MemLog::default();
    log.put(1, 0, 0, snapshot(&[nid(port), nid(1), nid(2)]));
    let n = start(port, log, MemBallot::at(3, Some(nid(port))), TestApp::default()).await;
    let r = within(2000, n.p.process_user_read_request(request::UserReadRequest { message: Bytes::new() })).await;
    assert!(matches!(r, Some(Err(_))), "the request is neither served nor refused");
}
''')
