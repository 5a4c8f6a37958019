"""Edits that keep the behaviour; refactors.py [ids] applies each to /repo, runs all checks (which have to stay quiet), undoes it."""
import re, subprocess, sys, time
R = {}


def ref(id, *edits):
    R[id] = edits


ref('vote-helper', ('process/voter/election.rs', '''        let last_log_clock = {
            let cur_last_index = self.command_log.get_log_last_index().await?;
            if cur_last_index == 0 {
                Clock { term: 0, index: 0 }
            } else {
                self.command_log.get_entry(cur_last_index).await?.this_clock
            }
        };

        let candidate_win''', '''        let last_log_clock = self.last_log_clock().await?;

        let candidate_win'''),
    ('process/voter/election.rs', '''    pub fn get_election_timeout(&self)''', '''    async fn last_log_clock(&self) -> Result<Clock> {
        let cur_last_index = self.command_log.get_log_last_index().await?;
        if cur_last_index == 0 {
            return Ok(Clock { term: 0, index: 0 });
        }
        let entry = self.command_log.get_entry(cur_last_index).await?;
        Ok(entry.this_clock)
    }

    pub fn get_election_timeout(&self)'''))
ref('vote-cmp-if', ('process/voter/election.rs', '''        let candidate_win = match candidate_last_log_clock.term.cmp(&last_log_clock.term) {
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => candidate_last_log_clock.index >= last_log_clock.index,
            std::cmp::Ordering::Less => false,
        };''', '''        let candidate_win = candidate_last_log_clock.term > last_log_clock.term
            || (candidate_last_log_clock.term == last_log_clock.term
                && candidate_last_log_clock.index >= last_log_clock.index);'''))
ref('vote-cmp-tuple', ('process/voter/election.rs', '''        let candidate_win = match candidate_last_log_clock.term.cmp(&last_log_clock.term) {
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => candidate_last_log_clock.index >= last_log_clock.index,
            std::cmp::Ordering::Less => false,
        };''', '''        let candidate_win = (candidate_last_log_clock.term, candidate_last_log_clock.index)
            >= (last_log_clock.term, last_log_clock.index);'''))
ref('vote-grant-matches', ('process/voter/election.rs', '''        let grant = match &ballot.voted_for {
            None => {
                info!("learn node({candidate_id}) as the new leader");
                ballot.voted_for = Some(candidate_id.clone());
                true
            }
            Some(id) => {
                if id == &candidate_id {
                    true
                } else {
                    // Only one grant vote is allowed for a term.
                    // This is why ballot needs to be persistent.
                    warn!("reject vote for having voted at term({candidate_term})");
                    false
                }
            }
        };''', '''        if ballot.voted_for.is_none() {
            info!("learn node({candidate_id}) as the new leader");
            ballot.voted_for = Some(candidate_id.clone());
        }
        let grant = ballot.voted_for.as_ref() == Some(&candidate_id);'''))
ref('vote-early', ('process/voter/election.rs', '''        let should_vote = force_vote || leader_failed;
        if !should_vote {
            return Ok(false);
        }''', '''        if !force_vote && !leader_failed {
            return Ok(false);
        }'''))
ref('others-filter', ('process/voter/election.rs', '''            let n = membership.len();
            let mut others = vec![];
            for id in membership {
                if id != self.driver.self_node_id() {
                    others.push(id);
                }
            }
''', '''            let n = membership.len();
            let selfid = self.driver.self_node_id();
            let others: Vec<NodeId> = membership.into_iter().filter(|id| *id != selfid).collect();
'''))
ref('others-retain', ('process/voter/election.rs', '''            let membership = self.peers.read_membership();
            ensure!(membership.contains(&self.driver.self_node_id()));

            let n = membership.len();
            let mut others = vec![];
            for id in membership {
                if id != self.driver.self_node_id() {
                    others.push(id);
                }
            }

            let majority = n / 2 + 1;
            (others, majority - 1)''', '''            let mut others = self.peers.read_membership();
            let n = others.len();
            let found = others.remove(&self.driver.self_node_id());
            ensure!(found);

            (others, n / 2)'''))
ref('quorum-count', ('process/voter/quorum.rs', '''    let mut ack = 0;
    let mut ok = 0;
    while let Some(x) = queue.next().await {
        ack += 1;
        if x {
            ok += 1;
        }
        if ok >= quorum {
            return true;
        }
        // FIXME Do we need this check?
        if ack == n {
            return false;
        }
    }

    false''', '''    let mut missing = quorum;
    while let Some(x) = queue.next().await {
        if x && missing > 0 {
            missing -= 1;
        }
        if missing == 0 {
            return true;
        }
    }

    false'''))
ref('quorum-nocheck', ('process/voter/quorum.rs', '''    let mut ack = 0;
    let mut ok = 0;
    while let Some(x) = queue.next().await {
        ack += 1;
        if x {
            ok += 1;
        }
        if ok >= quorum {
            return true;
        }
        // FIXME Do we need this check?
        if ack == n {
            return false;
        }
    }

    false''', '''    let mut ok = 0;
    loop {
        match queue.next().await {
            Some(true) => ok += 1,
            Some(false) => {}
            None => break false,
        }
        if ok >= quorum {
            break true;
        }
    }'''))
ref('promote-split', ('process/voter/election.rs', '''            let mut new_ballot = self.read_ballot().await?;
            let vote_term = new_ballot.cur_term + 1;
            ensure!(vote_term == pre_vote_term);

            // Vote to itself
            new_ballot.cur_term = vote_term;
            new_ballot.voted_for = Some(self.driver.self_node_id());
''', '''            let vote_term = self.read_ballot().await?.cur_term + 1;
            ensure!(vote_term == pre_vote_term);

            // Vote to itself
            let new_ballot = Ballot {
                cur_term: vote_term,
                voted_for: Some(self.driver.self_node_id()),
            };
'''))
ref('received-reread', ('process/raft_process/queue.rs', '''                    let has_configuration = std::matches!(
                        Command::deserialize(&command),
                        Command::Snapshot { .. } | Command::ClusterConfiguration { .. }
                    );
                    if has_configuration || insert_index <= membership_index {
                        self.peers.restore_state(Ref(self.voter.clone())).await?;
                    }
''', '''                    let concerns_membership = match Command::deserialize(&command) {
                        Command::Snapshot { .. } => true,
                        Command::ClusterConfiguration { .. } => true,
                        _ => membership_index >= insert_index,
                    };
                    if !concerns_membership {
                        debug!("no change of the membership at {insert_index}");
                    } else {
                        self.peers.restore_state(Ref(self.voter.clone())).await?;
                    }
'''))
ref('append-leading-helper', ('process/raft_process/queue.rs', '''        ensure!(std::matches!(
            self.voter.read_election_state(),
            voter::ElectionState::Leader
        ));
''', '''        let state = self.voter.read_election_state();
        if !matches!(state, voter::ElectionState::Leader) {
            bail!(Error::LeaderUnknown);
        }
'''))
ref('bootstrap-lock-first', ('process/raft_process/cluster.rs', '''        {
            // Another activity may have formed or joined a cluster meanwhile.
            let _lk = self.membership_lock.lock().await;
            ensure!(self.peers.read_membership().is_empty());

            self.command_log.insert_snapshot(snapshot).await?;
            self.process_configuration_command(&init_command, 1);
        }
''', '''        let lk = self.membership_lock.lock().await;
        if !self.peers.read_membership().is_empty() {
            bail!("already a member of a cluster");
        }
        self.command_log.insert_snapshot(snapshot).await?;
        self.process_configuration_command(&init_command, 1);
        drop(lk);
'''))
ref('snapshot-tail-match', ('process/command_log/producer.rs', '''                    if !has_entry {
                        self.storage.delete_entries_from(snapshot_index + 1).await?;
                    }
                    self.insert_snapshot(entry).await?;
''', '''                    let keep = has_entry;
                    if !keep {
                        let first = entry.this_clock.index + 1;
                        self.storage.delete_entries_from(first).await?;
                    }
                    let res = self.insert_snapshot(entry).await;
                    res?;
'''))
ref('hb-reorder', ('process/voter/heartbeat.rs', '''        if ballot.voted_for != Some(leader_id.clone()) {
            info!("learn the current leader ({leader_id})");
            ballot.voted_for = Some(leader_id);
        }

        self.write_ballot(ballot).await?;

        let new_commit_index =
            std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);''', '''        ballot.voted_for = Some(leader_id);
        self.write_ballot(ballot).await?;

        let last_index = self.command_log.get_log_last_index().await?;
        let new_commit_index = if leader_commit < last_index { leader_commit } else { last_index };'''))
ref('hb-send-inline', ('process/voter/heartbeat.rs', '''        ensure!(ballot.voted_for == Some(self.driver.self_node_id()));''', '''        if ballot.voted_for != Some(self.driver.self_node_id()) {
            bail!("not the leader of the term");
        }'''),
    ('process/voter/heartbeat.rs', '''        let leader_commit_index = std::cmp::min(
            self.command_log.commit_pointer.load(Ordering::SeqCst),
            self.peers.read_match_index(&follower_id)?,
        );''', '''        let match_index = self.peers.read_match_index(&follower_id)?;
        let leader_commit_index = self
            .command_log
            .commit_pointer
            .load(Ordering::SeqCst)
            .min(match_index);'''))
ref('stepdown-flat', ('process/voter/stepdown.rs', '''        let last_membership_change_index = {
            let index = self.command_log.membership_pointer.load(Ordering::SeqCst);
            ensure!(index <= self.command_log.commit_pointer.load(Ordering::SeqCst));
            index
        };
''', '''        let last_membership_change_index =
            self.command_log.membership_pointer.load(Ordering::SeqCst);
        if self.command_log.commit_pointer.load(Ordering::SeqCst) < last_membership_change_index {
            bail!("not committed");
        }
'''))
ref('transfer-max', ('process/peer_svc/mod.rs', '''        let mut xs = {
            let peer_contexts = self.peer_contexts.read();
            let mut out = vec![];
            for (id, peer) in peer_contexts.iter() {
                let progress = peer.progress;
                out.push((id.clone(), progress.match_index));
            }
            out
        };
        // highest match_index in the last
        xs.sort_by_key(|x| x.1);

        if let Some(new_leader) = xs.pop() {
            info!("transfer leadership to {}", new_leader.0);
            let conn = self.driver.connect(new_leader.0.clone());
            conn.send_timeout_now().await?;
        }''', '''        let new_leader = {
            let peer_contexts = self.peer_contexts.read();
            peer_contexts
                .iter()
                .max_by_key(|(_, peer)| peer.progress.match_index)
                .map(|(id, _)| id.clone())
        };

        if let Some(new_leader) = new_leader {
            info!("transfer leadership to {}", new_leader);
            let conn = self.driver.connect(new_leader);
            conn.send_timeout_now().await?;
        }'''))
ref('commit-sort-by', ('process/peer_svc/mod.rs', '''        match_indices.sort();
        match_indices.reverse();
        let mid = match_indices.len() / 2;
        let new_commit_index = match_indices[mid];

        Ok(new_commit_index)''', '''        match_indices.sort_by(|a, b| b.cmp(a));
        Ok(match_indices[match_indices.len() / 2])'''))
ref('commit-values', ('process/peer_svc/mod.rs', '''        for (_, peer) in peer_contexts.iter() {
            match_indices.push(peer.progress.match_index);
        }

        match_indices.sort();''', '''        match_indices.extend(peer_contexts.values().map(|peer| peer.progress.match_index));

        match_indices.sort();'''))
ref('reset-values', ('process/peer_svc/mod.rs', '''        for (_, peer) in peer_contexts.iter_mut() {
            peer.progress''', '''        for peer in peer_contexts.values_mut() {
            peer.progress'''))
ref('member-diff', ('process/peer_svc/mod.rs', '''        let add_peers = {
            let mut out = vec![];
            for id in &config {
                if !cur.contains(id) {
                    out.push(id.clone());
                }
            }
            out
        };

        let remove_peers = {
            let mut out = vec![];
            for id in &cur {
                if !config.contains(id) {
                    out.push(id.clone());
                }
            }
            out
        };
''', '''        let add_peers: Vec<NodeId> = config.difference(&cur).cloned().collect();
        let remove_peers: Vec<NodeId> = cur.difference(&config).cloned().collect();
'''))
ref('member-filter', ('process/peer_svc/mod.rs', '''        let add_peers = {
            let mut out = vec![];
            for id in &config {
                if !cur.contains(id) {
                    out.push(id.clone());
                }
            }
            out
        };
''', '''        let add_peers: Vec<_> = config
            .iter()
            .filter(|id| !cur.contains(id))
            .cloned()
            .collect();
'''))
ref('repl-extract', ('process/peer_svc/replication.rs', '''        let new_progress = match resp {
            response::ReplicationStream {
                n_inserted: 0,
                log_last_index: last_log_index,
            } => ReplicationProgress {
                match_index: old_progress.match_index,
                next_index: std::cmp::min(old_progress.next_index - 1, last_log_index + 1),
                next_max_cnt: 1,
            },
            response::ReplicationStream { n_inserted, .. } => ReplicationProgress {
                match_index: old_progress.next_index + n_inserted - 1,
                next_index: old_progress.next_index + n_inserted,
                // If all entries are successfully inserted, then it is safe to double
                // the replication width for quick replication.
                next_max_cnt: if n_inserted == n { n * 2 } else { n },
            },
        };
''', '''        let new_progress = Self::next_progress(&old_progress, &resp, n);
'''), ('process/peer_svc/replication.rs', '''    pub async fn advance_replication(''', '''    fn next_progress(
        old: &ReplicationProgress,
        resp: &response::ReplicationStream,
        n: u64,
    ) -> ReplicationProgress {
        let n_inserted = resp.n_inserted;
        if n_inserted == 0 {
            let next_index = std::cmp::min(resp.log_last_index + 1, old.next_index - 1);
            return ReplicationProgress {
                next_index,
                next_max_cnt: 1,
                ..*old
            };
        }
        let next_index = old.next_index + n_inserted;
        ReplicationProgress {
            match_index: next_index - 1,
            next_index,
            next_max_cnt: if n_inserted == n { n * 2 } else { n },
        }
    }

    pub async fn advance_replication('''))
ref('repl-if', ('process/peer_svc/replication.rs', '''        ensure!(old_progress.next_index <= cur_last_log_index);
''', '''        if old_progress.next_index > cur_last_log_index {
            bail!("nothing to send");
        }
'''), ('process/peer_svc/replication.rs', '''        let n_max_possible = cur_last_log_index - old_progress.next_index + 1;
        let n = std::cmp::min(old_progress.next_max_cnt, n_max_possible);
        ensure!(n >= 1);
''', '''        let n = old_progress
            .next_max_cnt
            .min(cur_last_log_index + 1 - old_progress.next_index);
        ensure!(n > 0);
'''))
ref('insert-guard', ('process/command_log/producer.rs', '''        if let Some(prev_clock) = self
            .storage
            .get_entry(prev_index)
            .await?
            .map(|x| x.this_clock)
        {
            if prev_clock != entry.prev_clock {
                // consistency check failed.
                Ok(TryInsertResult::InconsistentInsertion {
                    want: entry.prev_clock,
                    found: prev_clock,
                })
            } else {
                let Clock {''', '''        let Some(prev_entry) = self.storage.get_entry(prev_index).await? else {
            return Ok(TryInsertResult::LeapInsertion {
                want: entry.prev_clock,
            });
        };
        let prev_clock = prev_entry.this_clock;
        if prev_clock != entry.prev_clock {
            // consistency check failed.
            return Ok(TryInsertResult::InconsistentInsertion {
                want: entry.prev_clock,
                found: prev_clock,
            });
        }
        {
            {
                let Clock {'''), ('process/command_log/producer.rs', '''        } else {
            Ok(TryInsertResult::LeapInsertion {
                want: entry.prev_clock,
            })
        }
    }
}''', '''        }
    }
}'''))
ref('insert-match', ('process/command_log/producer.rs', '''                if let Some(old_clock) = self
                    .storage
                    .get_entry(this_index)
                    .await?
                    .map(|e| e.this_clock)
                {
                    if old_clock == entry.this_clock {
                        // If there is a entry with the same term and index
                        // then the entry should be the same so to skip insertion.
                        return Ok(TryInsertResult::SkippedInsertion);
                    }
''', '''                if let Some(old_entry) = self.storage.get_entry(this_index).await? {
                    if old_entry.this_clock.term == entry.this_clock.term
                        && old_entry.this_clock.index == entry.this_clock.index
                    {
                        return Ok(TryInsertResult::SkippedInsertion);
                    }
'''))
ref('append-entry-inline', ('process/command_log/producer.rs', '''        let append_index = cur_last_log_index + 1;
        let this_clock = Clock {
            term,
            index: append_index,
        };
        let e = Entry {
            prev_clock,
            this_clock,
            command,
        };''', '''        let append_index = prev_clock.index + 1;
        let e = Entry {
            prev_clock,
            this_clock: Clock {
                term,
                index: append_index,
            },
            command,
        };'''))
ref('find-last-any', ('process/command_log/membership.rs', '''            match Command::deserialize(&e.command) {
                Command::Snapshot { .. } => return Ok(Some(i)),
                Command::ClusterConfiguration { .. } => return Ok(Some(i)),
                _ => {}
            }''', '''            if matches!(
                Command::deserialize(&e.command),
                Command::Snapshot { .. } | Command::ClusterConfiguration { .. }
            ) {
                return Ok(Some(i));
            }'''))
ref('find-last-while', ('process/command_log/membership.rs', '''        for i in (1..=to).rev() {
            let e = self.get_entry(i).await?;
            match Command::deserialize(&e.command) {
                Command::Snapshot { .. } => return Ok(Some(i)),
                _ => {}
            }
        }
        Ok(None)''', '''        let mut i = to;
        while i >= 1 {
            let e = self.get_entry(i).await?;
            if let Command::Snapshot { .. } = Command::deserialize(&e.command) {
                return Ok(Some(i));
            }
            i -= 1;
        }
        Ok(None)'''))
ref('restore-or', ('process/command_log/mod.rs', '''        let snapshot_index = match self.find_last_snapshot_index(log_last_index).await? {
            Some(x) => x,
            None => 0,
        };
        let start_index = if snapshot_index == 0 {
            0
        } else {
            // After reboot, we forgot the `commit_index` in the previous run.
            // Conservatively set `commit_index` to right before the `snapshot_index`
            // so we can restart from installing the snapshot.
            snapshot_index - 1
        };''', '''        let snapshot_index = self
            .find_last_snapshot_index(log_last_index)
            .await?
            .unwrap_or(0);
        let start_index = snapshot_index.saturating_sub(1);'''))
ref('restore-default', ('process/command_log/mod.rs', '''        let snapshot_index = match self.find_last_snapshot_index(log_last_index).await? {
            Some(x) => x,
            None => 0,
        };''', '''        let snapshot_index = self
            .find_last_snapshot_index(log_last_index)
            .await?
            .unwrap_or_default();'''))
ref('get-entry-context', ('process/command_log/mod.rs', '''        let entry = self.storage.get_entry(index).await?;
        ensure!(entry.is_some(), Error::EntryNotFound(index));
        Ok(entry.unwrap())''', '''        self.storage
            .get_entry(index)
            .await?
            .context(Error::EntryNotFound(index))'''))
ref('get-entry-match', ('process/command_log/mod.rs', '''        let entry = self.storage.get_entry(index).await?;
        ensure!(entry.is_some(), Error::EntryNotFound(index));
        Ok(entry.unwrap())''', '''        match self.storage.get_entry(index).await? {
            Some(entry) => Ok(entry),
            None => bail!(Error::EntryNotFound(index)),
        }'''))
ref('user-split', ('process/command_log/consumer.rs', '''        let do_process = match command {
            Command::ExecuteRequest { .. } => true,
            Command::CompleteRequest { .. } => true,
            Command::Snapshot { .. } => true,
            _ => false,
        };

        if do_process {
            let mut response_cache''', '''        let do_process = matches!(
            command,
            Command::ExecuteRequest { .. }
                | Command::CompleteRequest { .. }
                | Command::Snapshot { .. }
        );

        if do_process {
            let mut response_cache'''))
ref('kern-flat', ('process/command_log/consumer.rs', '''        let do_process = match command {
            Command::Barrier { .. } => true,
            Command::ClusterConfiguration { .. } => true,
            _ => false,
        };

        if do_process {
            debug!("process kern@{process_index}");
            match command {
                Command::Barrier(term) => {
                    voter.commit_safe_term(term);
                }
                Command::ClusterConfiguration { .. } => {}
                _ => {}
            }
            if let Some(kern_completion) = self.kern_completions.lock().remove(&process_index) {
                kern_completion.complete();
            }
        }
''', '''        if let Command::Barrier(term) = command {
            debug!("process kern@{process_index}");
            voter.commit_safe_term(term);
        }
        let kern_completion = self.kern_completions.lock().remove(&process_index);
        if let Some(kern_completion) = kern_completion {
            kern_completion.complete();
        }
'''))
ref('snap-adv-flat', ('process/command_log/consumer.rs', '''            let new_snapshot_entry = {
                let old_entry = self.get_entry(proposed_snapshot_index).await?;
                Entry {
                    command: Command::serialize(Command::Snapshot {
                        membership: new_config,
                    }),
                    ..old_entry
                }
            };
''', '''            let mut new_snapshot_entry = self.get_entry(proposed_snapshot_index).await?;
            let command = Command::Snapshot {
                membership: new_config,
            };
            new_snapshot_entry.command = Command::serialize(command);
'''))
ref('query-pop-split', ('process/query_queue.rs', '''        let mut out = vec![];

        let mut del_keys = vec![];
        for (&i, _) in self.inner.range(..=upto) {
            del_keys.push(i);
        }

        for i in del_keys {
            let qs = self.inner.remove(&i).unwrap();
            for q in qs {
                out.push((i, q));
            }
        }

        out''', '''        let rest = self.inner.split_off(&(upto + 1));
        let ready = std::mem::replace(&mut self.inner, rest);
        let mut out = vec![];
        for (i, qs) in ready {
            for q in qs {
                out.push((i, q));
            }
        }
        out'''))
ref('query-pop-first', ('process/query_queue.rs', '''        let mut del_keys = vec![];
        for (&i, _) in self.inner.range(..=upto) {
            del_keys.push(i);
        }
''', '''        let del_keys: Vec<Index> = self.inner.range(..=upto).map(|(&i, _)| i).collect();
'''))
ref('write-else-first', ('process/raft_process/responder.rs', '''        let resp = if std::matches!(
            self.voter.read_election_state(),
            voter::ElectionState::Leader
        ) {
            let (user_completion, rx) = completion::prepare_user_completion();

            let command = Command::ExecuteRequest {
                message: &req.message,
                request_id: req.request_id,
            };
            self.queue_new_entry(
                Command::serialize(command),
                Completion::User(user_completion),
            )
            .await?;

            rx.await?
        } else {
            // This check is to avoid looping.
            ensure!(self.driver.self_node_id() != leader_id);

            let conn = self.driver.connect(leader_id);
            conn.process_user_write_request(req).await?
        };
        Ok(resp)''', '''        let is_leader = matches!(
            self.voter.read_election_state(),
            voter::ElectionState::Leader
        );
        if !is_leader {
            // This check is to avoid looping.
            ensure!(self.driver.self_node_id() != leader_id);
            let conn = self.driver.connect(leader_id);
            return conn.process_user_write_request(req).await;
        }

        let (user_completion, rx) = completion::prepare_user_completion();
        let command = Command::serialize(Command::ExecuteRequest {
            message: &req.message,
            request_id: req.request_id,
        });
        self.queue_new_entry(command, Completion::User(user_completion))
            .await?;
        let resp = rx.await?;
        Ok(resp)'''))
ref('state-helper', ('process/voter/mod.rs', '''    pub fn write_election_state(''', '''    pub fn is_leader(&self) -> bool {
        matches!(self.read_election_state(), ElectionState::Leader)
    }

    pub fn write_election_state('''), ('process/thread/advance_commit.rs', '''        let election_state = self.voter.read_election_state();
        ensure!(std::matches!(election_state, voter::ElectionState::Leader));
''', '''        if !self.voter.is_leader() {
            return Ok(());
        }
'''), ('process/thread/heartbeat.rs', '''        let election_state = self.voter.read_election_state();
        ensure!(std::matches!(election_state, voter::ElectionState::Leader));
''', '''        ensure!(self.voter.is_leader());
'''), ('process/thread/replication.rs', '''        let election_state = self.voter.read_election_state();
        if !std::matches!(election_state, voter::ElectionState::Leader) {
            return Ok(false);
        }
''', '''        if !self.voter.is_leader() {
            return Ok(false);
        }
'''))
ref('commit-early', ('process/thread/advance_commit.rs', '''        if new_commit_index > cur_commit_index {
            // $5.4.2
            // Only log entries from the leader's current term are committed by counting replicas.
            let new_commit_entry = self.command_log.get_entry(new_commit_index).await?;
            ensure!(new_commit_entry.this_clock.term == cur_term);
            // The replicas counted may be the ones of another leadership.
            ensure!(self.voter.read_ballot().await?.cur_term == cur_term);

            self.command_log
                .commit_pointer
                .fetch_max(new_commit_index, Ordering::SeqCst);
            self.producer.push_event(CommitEvent);
        }

        Ok(())''', '''        if new_commit_index <= cur_commit_index {
            return Ok(());
        }
        let new_commit_entry = self.command_log.get_entry(new_commit_index).await?;
        if new_commit_entry.this_clock.term != cur_term {
            return Ok(());
        }
        let ballot = self.voter.read_ballot().await?;
        if ballot.cur_term != new_commit_entry.this_clock.term {
            return Ok(());
        }

        self.command_log
            .commit_pointer
            .fetch_max(new_commit_index, Ordering::SeqCst);
        self.producer.push_event(CommitEvent);

        Ok(())'''))
ref('queue-while-loop', ('process/raft_process/queue.rs', '''        while let Some(Some(cur)) = req.entries.next().await {
            let entry''', '''        loop {
            let cur = match req.entries.next().await {
                Some(Some(cur)) => cur,
                _ => break,
            };
            let entry'''))
ref('queue-helper', ('process/raft_process/queue.rs', '''                    // Another activity may be changing the membership for an entry of its own.
                    let _lk = self.membership_lock.lock().await;
                    // The last configuration may have been deleted from the log
                    // and this entry may have been replaced since it was inserted.
                    let membership_index =
                        self.command_log.membership_pointer.load(Ordering::SeqCst);
                    let has_configuration = std::matches!(
                        Command::deserialize(&command),
                        Command::Snapshot { .. } | Command::ClusterConfiguration { .. }
                    );
                    if has_configuration || insert_index <= membership_index {
                        self.peers.restore_state(Ref(self.voter.clone())).await?;
                    }
''', '''                    self.on_inserted(&command, insert_index).await?;
'''), ('process/raft_process/queue.rs', '''    pub(crate) async fn queue_received_entries(''', '''    async fn on_inserted(&self, command: &[u8], insert_index: Index) -> Result<()> {
        // Another activity may be changing the membership for an entry of its own.
        let _lk = self.membership_lock.lock().await;
        // The last configuration may have been deleted from the log.
        let membership_index = self.command_log.membership_pointer.load(Ordering::SeqCst);
        if insert_index > membership_index {
            match Command::deserialize(command) {
                Command::Snapshot { .. } | Command::ClusterConfiguration { .. } => {}
                _ => return Ok(()),
            }
        }
        self.peers.restore_state(Ref(self.voter.clone())).await
    }

    pub(crate) async fn queue_received_entries('''))
ref('mux-map', ('communicator/heartbeat_multiplex.rs', '''        let states = {
            let mut out = HashMap::new();
            for (shard_id, heartbeat) in heartbeats {
                let state = raft::LeaderCommitState {
                    leader_term: heartbeat.leader_term,
                    leader_commit_index: heartbeat.leader_commit_index,
                };
                out.insert(shard_id, state);
            }
            out
        };
''', '''        let states = heartbeats
            .into_iter()
            .map(|(shard_id, heartbeat)| {
                let state = raft::LeaderCommitState {
                    leader_term: heartbeat.leader_term,
                    leader_commit_index: heartbeat.leader_commit_index,
                };
                (shard_id, state)
            })
            .collect();
'''))
ref('mux-take', ('communicator/heartbeat_multiplex.rs', '''        self.buf.drain().collect()''', '''        std::mem::take(&mut self.buf)'''))
ref('kern-config-helper', ('process/raft_process/responder.rs', '''            let command = match kern_message::KernRequest::deserialize(&req.message).unwrap() {
                kern_message::KernRequest::AddServer(id) => {
                    let mut membership = self.peers.read_membership();
                    membership.insert(id);
                    Command::ClusterConfiguration { membership }
                }
                kern_message::KernRequest::RemoveServer(id) => {
                    let mut membership = self.peers.read_membership();
                    membership.remove(&id);
                    Command::ClusterConfiguration { membership }
                }
            };''', '''            let mut membership = self.peers.read_membership();
            match kern_message::KernRequest::deserialize(&req.message).unwrap() {
                kern_message::KernRequest::AddServer(id) => {
                    membership.insert(id);
                }
                kern_message::KernRequest::RemoveServer(id) => {
                    membership.remove(&id);
                }
            }
            let command = Command::ClusterConfiguration { membership };'''))
ref('redb-reap-loop', ('backends/redb/log.rs', '''        let mut notifiers = vec![];

        let tx = self.db.begin_write()?;
        {
            let mut tbl = tx.open_table(table_def(&head.space))?;
            tbl.insert(head.index, value::ser(head.inner))?;
            notifiers.push(head.notifier);
        }
        for e in tail {
            let mut tbl''', '''        let mut notifiers = vec![];

        let tx = self.db.begin_write()?;
        for e in std::iter::once(head).chain(tail) {
            let mut tbl'''))
ref('redb-get-map', ('backends/redb/log.rs', '''        match tbl.get(i)? {
            Some(bin) => Ok(Some(value::desr(&bin.value()))),
            None => Ok(None),
        }''', '''        let entry = tbl.get(i)?.map(|bin| value::desr(&bin.value()));
        Ok(entry)'''))
ref('redb-last-map', ('backends/redb/log.rs', '''        let out = tbl.last()?;
        Ok(match out {
            Some((k, _)) => k.value(),
            None => 0,
        })''', '''        let out = tbl.last()?;
        let index = match out {
            Some((k, _)) => k.value(),
            None => 0,
        };
        Ok(index)'''))
ref('app-fetch-or', ('process/app.rs', '''        if owner == driver.self_node_id() {
            return Ok(());
        }
        // Every node should have a snapshot at index 1
        // because it is the initial state of the application.
        if snapshot_index == 1 {
            return Ok(());
        }''', '''        // Every node should have a snapshot at index 1
        // because it is the initial state of the application.
        if snapshot_index == 1 || owner == driver.self_node_id() {
            return Ok(());
        }'''))
ref('stream-struct', ('communicator/stream.rs', '''    let chunk_stream = st.entries.map(|e0| {
        e0.map(|e| {
            ChunkElem::Entry(raft::ReplicationStreamEntry {
                clock: Some(raft::Clock {
                    term: e.this_clock.term,
                    index: e.this_clock.index,
                }),
                command: e.command,
            })
        })
    });''', '''    fn entry_chunk(e: request::ReplicationStreamElem) -> ChunkElem {
        let clock = raft::Clock {
            term: e.this_clock.term,
            index: e.this_clock.index,
        };
        ChunkElem::Entry(raft::ReplicationStreamEntry {
            clock: Some(clock),
            command: e.command,
        })
    }
    let chunk_stream = st.entries.map(|e0| e0.map(entry_chunk));'''))
ref('stream-gen-break', ('process/peer_svc/replication.rs', '''                let x = command_log.get_entry(idx).await;
                let e = match x {
                    // The log may have been replaced by another leader in the meantime.
                    Ok(x) if x.prev_clock == prev_clock => {
                        prev_clock = x.this_clock;
                        Some(request::ReplicationStreamElem {
                            this_clock: x.this_clock,
                            command: x.command,
                        })
                    }
                    _ => None,
                };
                yield e;''', '''                let mut e = None;
                if let Ok(x) = command_log.get_entry(idx).await {
                    // The log may have been replaced by another leader in the meantime.
                    if x.prev_clock == prev_clock {
                        prev_clock = x.this_clock;
                        e = Some(request::ReplicationStreamElem {
                            this_clock: x.this_clock,
                            command: x.command,
                        });
                    }
                }
                yield e;'''))
ref('service-process', ('raft_service/mod.rs', '''        let resp = run_to_end(async move { process.process_user_write_request(req).await })
            .await
            .unwrap();
        Ok(tonic::Response::new(raft::Response { message: resp }))''', '''        let write = async move { process.process_user_write_request(req).await };
        let message = run_to_end(write).await.unwrap();
        Ok(tonic::Response::new(raft::Response { message }))'''))
ref('fence-early', ('process/voter/election.rs', '''        // Nothing should be inserted after the log was compared until the vote is stored
        // otherwise the old leader may commit an entry that the candidate doesn't have.
        let _g = self.command_log.lock_append().await;
''', ''), ('process/voter/election.rs', '''        let mut ballot = self.read_ballot().await?;
        if candidate_term < ballot.cur_term {''', '''        let _fence = self.command_log.lock_append().await;
        let mut ballot = self.read_ballot().await?;
        if candidate_term < ballot.cur_term {'''))
ref('follows-match', ('process/voter/mod.rs', '''        Ok(self.read_ballot().await?.voted_for.as_ref() == Some(node_id))''', '''        let ballot = self.read_ballot().await?;
        let Some(leader_id) = ballot.voted_for else {
            return Ok(false);
        };
        Ok(leader_id == *node_id)'''))
ref('heartbeat-term-helper', ('process/voter/heartbeat.rs', '''        ensure!(self.read_ballot().await?.cur_term == ballot.cur_term);''', '''        self.check_term(ballot.cur_term).await?;'''), ('process/voter/mod.rs', '''    pub fn commit_safe_term(''', '''    pub async fn check_term(&self, term: Term) -> Result<()> {
        let now = self.read_ballot().await?.cur_term;
        if now != term {
            bail!("the term is {now} now");
        }
        Ok(())
    }

    pub fn commit_safe_term('''), ('process/thread/advance_commit.rs', '''            ensure!(self.voter.read_ballot().await?.cur_term == cur_term);
''', '''            self.voter.check_term(cur_term).await?;
'''))
ref('service-helper', ('raft_service/mod.rs', '''#[tonic::async_trait]
impl raft::raft_server::Raft for RaftService {''', '''impl RaftService {
    fn process_of(&self, shard_id: ShardId) -> Result<std::sync::Arc<RaftProcess>> {
        self.node
            .get_process(shard_id)
            .context(Error::ProcessNotFound(shard_id))
    }
}

#[tonic::async_trait]
impl raft::raft_server::Raft for RaftService {'''), ('raft_service/mod.rs', '''        let resp = self
            .node
            .get_process(shard_id)
            .context(Error::ProcessNotFound(shard_id))
            .unwrap()
            .request_vote(req)''', '''        let resp = self
            .process_of(shard_id)
            .unwrap()
            .request_vote(req)'''), ('raft_service/mod.rs', '''        let resp = self
            .node
            .get_process(shard_id)
            .context(Error::ProcessNotFound(shard_id))
            .unwrap()
            .get_snapshot(req.index)''', '''        let resp = self
            .process_of(shard_id)
            .unwrap()
            .get_snapshot(req.index)'''))
ref('service-status', ('raft_service/mod.rs', '''        let resp = self
            .node
            .get_process(shard_id)
            .context(Error::ProcessNotFound(shard_id))
            .unwrap()
            .process_user_read_request(req)
            .await
            .unwrap();''', '''        let process = self
            .node
            .get_process(shard_id)
            .ok_or_else(|| tonic::Status::not_found("no such shard"))?;
        let resp = process
            .process_user_read_request(req)
            .await
            .map_err(|e| tonic::Status::unknown(e.to_string()))?;'''))
ref('thread-loop-match', ('process/thread/advance_user.rs', '''                while self.advance_once().await.is_ok() {
                    self.producer.push_event(ApplicationEvent);
                    tokio::task::yield_now().await;
                }''', '''                loop {
                    if self.advance_once().await.is_err() {
                        break;
                    }
                    self.producer.push_event(ApplicationEvent);
                    tokio::task::yield_now().await;
                }'''))
ref('election-if', ('process/thread/election.rs', '''        let election_state = self.voter.read_election_state();
        ensure!(std::matches!(
            election_state,
            voter::ElectionState::Follower
        ));
''', '''        match self.voter.read_election_state() {
            voter::ElectionState::Follower => {}
            _ => return Ok(()),
        }
'''))
ref('cluster-insert', ('process/raft_process/cluster.rs', '''        let mut membership = HashSet::new();
        membership.insert(self.driver.self_node_id());
''', '''        let membership = HashSet::from([self.driver.self_node_id()]);
'''))
ref('cluster-config-if', ('process/raft_process/cluster.rs', '''        let config0 = match Command::deserialize(command) {
            Command::Snapshot { membership } => Some(membership),
            Command::ClusterConfiguration { membership } => Some(membership),
            _ => None,
        };
        if let Some(config) = config0 {
            self.peers
                .set_membership(config, index, Ref(self.voter.clone()));
        }''', '''        let config = match Command::deserialize(command) {
            Command::Snapshot { membership } | Command::ClusterConfiguration { membership } => {
                membership
            }
            _ => return,
        };
        let voter = Ref(self.voter.clone());
        self.peers.set_membership(config, index, voter);'''))
ref('peers-restore-let', ('process/peer_svc/mod.rs', '''        if let Some(last_membership_index) = last_membership_index {
            let last_membership = {
                let entry = self.command_log.get_entry(last_membership_index).await?;
                match Command::deserialize(&entry.command) {
                    Command::Snapshot { membership } => membership,
                    Command::ClusterConfiguration { membership } => membership,
                    _ => unreachable!(),
                }
            };
            self.set_membership(last_membership, last_membership_index, voter);
        };

        Ok(())''', '''        let Some(last_membership_index) = last_membership_index else {
            return Ok(());
        };
        let last_membership = self
            .command_log
            .try_read_membership(last_membership_index)
            .await?
            .context(Error::BadLogState)?;
        self.set_membership(last_membership, last_membership_index, voter);
        Ok(())'''))
ref('cache-entry', ('process/command_log/response_cache.rs', '''        if self.completes.exists(k) {
            return false;
        }
        match self.responses.get(k) {
            Some(_) => false,
            None => true,
        }''', '''        !self.completes.exists(k) && !self.responses.contains_key(k)'''))


def main():
    ids = sys.argv[1:] or list(R)
    keep = ids[0] == '-k'       # leave the edit applied
    ids = ids[keep:]
    for i in ids:
        ok = True
        for f, a, b in R[i]:
            p = '/repo/sorock/src/' + f
            t = open(p).read()
            if t.count(a) != 1:
                print(i, 'EDIT', f, t.count(a), a[:60])
                ok = False
                break
            open(p, 'w').write(t.replace(a, b))
        if keep:
            return
        try:
            if ok:
                t0 = time.time()
                r = subprocess.run(['python3', '/verif/sa/check.py', 'all'], capture_output=True, text=True, cwd='/verif')
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.lstrip().startswith('rule ')]
                print(f'{i:24s} {"quiet" if r.returncode == 0 else "ALARM" if r.returncode == 1 else "BROKEN"} ({time.time()-t0:.0f}s)', flush=True)
                if r.returncode:
                    L = [l for l in r.stdout.splitlines() if 'analysed' not in l and l.strip()]
                    bad = [l for l in L if '->' not in l[-6:] and not re.match(r'C\d\d ', l)]
                    print('\n'.join(x[:220] for x in bad[:10]))
                    e = [l for l in r.stderr.splitlines() if 'rror' in l]
                    print('\n'.join(e[:6]))
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])


if __name__ == '__main__':
    main()
