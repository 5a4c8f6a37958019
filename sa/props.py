"""The properties: what is claimed, and the rules that decide each."""
from rules_election import *
from rules_log import *
from rules_apply import *
from rules_member import *
from rules_snapshot import *
from rules_repl import *
from rules_store import *
from rules_live import *

PROPS = {}
S = 'sorock/src/'


def P(pid, title, statement, over, text, why, files, mechanism, clauses, assumes=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=[S + f for f in files.split()],
                      mechanism=mechanism, clauses=clauses, assumes=assumes or [])


# ---------------------------------------------------------------- leader election
P('C01', 'A node votes for at most one candidate per term, also across a restart',
  'In one term a node grants its vote to at most one candidate. The vote is on disk before the candidate is told, so a node that restarts does not vote again in that term for someone else; a new term starts without a vote.',
  'schedules crash_points histories', 'every interleaving of vote requests, heartbeats and elections on a node, with a crash between any two steps',
  'Tests run a handful of elections without concurrent vote requests and never crash between the ballot write and the reply.',
  'process/voter/election.rs process/voter/mod.rs process/voter/heartbeat.rs',
  [('vote lock around read-decide-write of the ballot', 'process/voter/election.rs receive_vote_request'), ('ballot write before the reply', 'process/voter/election.rs')],
  [vote_atomic, vote_recorded, vote_not_withdrawn, vote_before_ask, vote_of_term])
P('C02', 'The term stored by a node never decreases',
  'Every ballot a node stores has a term not lower than the one it replaces, whatever messages arrive and whatever activities run at the same time.',
  'schedules histories', 'every order of vote requests, heartbeats, elections and leadership transfers',
  'Tests never deliver stale messages concurrently with an election.',
  'process/voter/election.rs process/voter/heartbeat.rs process/voter/mod.rs',
  [('term comparison before each ballot write', 'process/voter/election.rs, process/voter/heartbeat.rs'), ('vote lock', 'process/voter/mod.rs')],
  [term_monotonic, vote_atomic])
P('C03', 'Only a candidate with an up-to-date log gets a vote',
  'A node grants a vote or a pre-vote only to a candidate whose last log entry is not older than its own: a newer term, or the same term and an index at least as high. A candidate announces the position of the last entry it really holds. No entry is added to the log of the voter between comparing the logs and storing the vote, so it acknowledges nothing to the old leader that the candidate may lack.',
  'histories inputs', 'every pair of logs of candidate and voter',
  'Tests never let a node with a shorter or older log stand for election against nodes holding committed entries.',
  'process/voter/election.rs process/command_log/mod.rs',
  [('log clock comparison', 'process/voter/election.rs receive_vote_request'), ('clock in the request', 'process/voter/election.rs request_votes')],
  [vote_up_to_date, candidate_clock_sent, vote_fences_log])
P('C04', 'A node leads a term only with the votes of a majority of the members',
  'A node starts as a follower and becomes leader of a term only after it stored a vote for itself in that term and members that together with it form a majority of the membership granted it their vote in that same term. Each member is asked once and the node does not ask itself, so two leaders of one term cannot exist.',
  'histories configurations schedules', 'every membership size, every set of replies, lost, late or duplicated',
  'Tests use clusters of one to three nodes in which all votes are granted.',
  'process/voter/election.rs process/voter/quorum.rs process/thread/election.rs',
  [('vote counting', 'process/voter/quorum.rs'), ('promotion', 'process/voter/election.rs try_promote_at')],
  [leader_majority, voters_distinct, vote_before_ask, starts_as_follower, connected_to])
P('C05', 'A pre-vote changes nothing and precedes every increase of the term',
  'Answering a pre-vote changes neither the ballot nor the role of the voter. A node raises its own term to stand for election only after a majority said in a pre-vote for that term that it would vote for it, so a node cut off from the majority cannot push terms up.',
  'histories schedules', 'every election attempt in every network condition',
  'Tests observe successful elections only; a pre-vote that left traces would show only under partitions.',
  'process/voter/election.rs process/thread/election.rs',
  [('pre-vote branch', 'process/voter/election.rs')],
  [prevote_pure, prevote_first])
P('C06', 'A leader that is heard from is not deposed by a candidate',
  'While a member hears from its leader it neither grants votes nor changes its ballot or role for a candidate, and does not stand for election itself, unless leadership is being transferred. Only a node that is a member and a follower, and still suspects the leader after its random wait, starts an election by itself. The suspicion compares the silence since the last heartbeat with the intervals seen before.',
  'schedules histories', 'every candidate, also removed or partitioned nodes that come back',
  'Tests have no disruptive candidates.',
  'process/voter/election.rs process/voter/failure_detector.rs process/thread/election.rs process/voter/stepdown.rs',
  [('failure detector asked before voting', 'process/voter/election.rs'), ('random wait', 'process/thread/election.rs')],
  [sticky_voter, forced_only_on_transfer, election_on_timeout, detector_follows_leader, failure_measured])
P('C17', 'A vote is refused only for a reason',
  'A vote or pre-vote is refused only because the voter still hears from a leader and the request is not part of a leadership transfer, because the term asked for is older than the stored one, because the log of the candidate is behind that of the voter, or because the voter gave its vote in that term to another node. A node that stood for election is leader or follower again when the election is over, whatever failed in it, so that it can stand again. A candidate gives up only when too few of the members it asked are left to give it a majority.',
  'histories inputs fault_sequences', 'every stored ballot, log and request; every failure in the course of an election',
  'Tests elect a leader from equal logs and without failures.',
  'process/voter/election.rs process/thread/election.rs',
  [('receive_vote_request', 'process/voter/election.rs'), ('post_election', 'process/voter/election.rs')],
  [refused_for_reason, candidate_returns, election_given_up])
P('C07', 'Stale leaders are ignored and a newer term ends a leadership',
  'A heartbeat of a term older than the stored one changes nothing on the receiver; one of the current or a newer term makes the receiver store that term and sender and follow it. A leader that learns of a newer term stops acting as leader before the new ballot is visible, and announces itself only in a term that it holds its own vote in and leads at that moment.',
  'schedules histories', 'every order of delayed, duplicated and reordered heartbeats of several leaders',
  'Tests have one leader at a time and no delayed messages.',
  'process/voter/heartbeat.rs process/voter/election.rs process/thread/heartbeat.rs',
  [('term comparison', 'process/voter/heartbeat.rs receive_heartbeat'), ('state write on a newer term', 'process/voter/election.rs, process/voter/heartbeat.rs')],
  [stale_heartbeat, heartbeat_learned, leave_leadership, heartbeat_sent_for_own_term, detector_follows_leader])

# ---------------------------------------------------------------- the replicated log
P('C08', 'If two logs hold the same entry they agree on everything before it',
  'A follower stores an entry only from the node it follows at that moment, only if it holds the preceding entry with the same term and index, stores exactly what was sent, stops at the first entry it does not accept and reports how many it accepted before. When an entry is replaced by a conflicting one or by a snapshot, everything after it is deleted first, so no remainder of an older log survives behind it.',
  'histories schedules inputs fault_sequences', 'every pair of diverging logs, every order of overlapping replication streams',
  'Tests replicate to followers whose logs never diverge.',
  'process/command_log/producer.rs process/raft_process/queue.rs process/command_log/mod.rs raft_service/stream.rs',
  [('preceding entry check', 'process/command_log/producer.rs try_insert_entry'), ('suffix deletion', 'process/command_log/producer.rs, backends/redb/log.rs')],
  [follower_prev_check, received_as_sent, stop_at_rejection, conflict_deleted, append_at_end, own_index, leader_of_stream])
P('C09', 'A committed entry is never replaced or deleted',
  'No entry at or below the commit index is overwritten by a different entry or removed from the end of the log, whoever sends it. Only a snapshot may take the place of the entry with the same position, and the entries before a snapshot may then be dropped. A follower deletes entries from the end of its log only where they differ from the leader\'s.',
  'histories schedules', 'every message a stale or new leader may send to a follower with committed entries',
  'Tests never send conflicting entries.',
  'process/command_log/producer.rs process/raft_process/queue.rs process/command_log/mod.rs process/command_log/consumer.rs',
  [('commit index check before overwriting', 'process/command_log/producer.rs try_insert_entry')],
  [committed_kept, leader_of_stream, pointers_forward, matching_kept])
P('C10', 'A new leader starts with a barrier and serves clients only once it is committed',
  'A node becomes leader only after an entry of its own new term is in its log, and it appends client entries only while it leads the term they get, and only after that first entry has been committed. Entries it appends go right after the last one and name it as predecessor, one at a time.',
  'schedules histories', 'every interleaving of promotion, client requests and loss of leadership',
  'Tests send requests after the election has settled.',
  'process/voter/election.rs process/raft_process/queue.rs process/raft_process/responder.rs process/command_log/producer.rs process/command_log/consumer.rs',
  [('barrier', 'process/voter/election.rs try_promote_at'), ('safe term', 'process/command_log/consumer.rs, process/raft_process/queue.rs'), ('append lock', 'process/command_log/producer.rs')],
  [barrier_first, append_own_term, append_at_end, safe_term_source, progress_reset])
P('C11', 'A leader commits only entries of its term that a majority of the members holds',
  'A leader moves the commit index only to an index that a majority of the current members is known to hold, counting itself only while it is a member, and only if the entry there is of the term it leads all along. A follower moves it on a heartbeat only to an announced index within its own log, and the leader announces to a follower only what is committed and known to be shared.',
  'histories configurations schedules', 'every membership, every combination of follower positions, every leader change',
  'Tests never have followers with diverging logs, removed leaders or old-term entries waiting for commitment.',
  'process/thread/advance_commit.rs process/peer_svc/mod.rs process/voter/heartbeat.rs process/thread/heartbeat.rs process/raft_process/responder.rs',
  [('median of match indices', 'process/thread/advance_commit.rs'), ('own term check', 'process/thread/advance_commit.rs'), ('announced index', 'process/peer_svc/mod.rs, process/voter/heartbeat.rs')],
  [leader_commit, commit_sources, follower_commit, announced_commit])
P('C12', 'The commit and apply indices of a running node never go back',
  'The indices up to which a node considers its log committed, processed, applied and covered by a snapshot only grow while it runs, also when several activities move them at the same time. Only commitment by counting, heartbeats of the leader and received snapshots move the commit index.',
  'schedules', 'every interleaving of the activities that move the indices',
  'A lost update needs two activities to interleave between a read and a write.',
  'process/command_log/mod.rs process/command_log/consumer.rs process/raft_process/queue.rs process/thread/advance_commit.rs',
  [('fetch_max on shared indices', 'process/thread/advance_commit.rs, process/raft_process/queue.rs')],
  [pointers_forward, commit_sources])
P('C13', 'Committed entries are applied in log order, each once, by one activity',
  'The application sees the requests of committed entries in log order, one after the other, and nothing that is not committed. The applied index moves by one entry at a time and only after that entry took effect: the request was executed or recognised as a repetition, the snapshot was installed.',
  'schedules histories', 'every log content and every interleaving of commitment, application and snapshots',
  'Tests see the end result of a few short logs.',
  'process/command_log/consumer.rs process/thread/advance_user.rs process/thread/advance_kern.rs process/mod.rs',
  [('apply loop', 'process/command_log/consumer.rs advance_user_process'), ('internal commands', 'process/command_log/consumer.rs advance_kern_process')],
  [apply_order, apply_step, kern_step, snapshot_moves])

# ---------------------------------------------------------------- client requests
P('C20', 'A write request takes effect once while its retries are remembered',
  'A write is executed by the application once: a request whose id is among the answered requests still remembered, or among the completed ones, is not executed again. The response is remembered under the id of the request from its execution until the request is reported completed, which happens only after the client was answered. The logged entry carries exactly the message and the id the client sent.',
  'histories schedules', 'every sequence of retries, duplicates in the log and leader changes',
  'Tests never get the same request twice into the log, nor lose an answer between execution and delivery.',
  'process/command_log/response_cache.rs process/command_log/consumer.rs process/raft_process/queue.rs process/raft_process/responder.rs',
  [('response cache', 'process/command_log/response_cache.rs'), ('lookup and execution under one lock', 'process/command_log/consumer.rs'), ('CompleteRequest entry', 'process/command_log/consumer.rs')],
  [request_logged_as_sent, execute_once, response_recorded, complete_after_answer],
  ['a retry arrives within the time the response cache keeps responses'])
P('C21', 'Each client gets the answer to its own request, once its entry is applied',
  'A client whose write or membership change was appended is answered with the outcome of its own entry, after that entry was applied or committed, and with an error when the entry was replaced or skipped by another leader. No request stays unanswered because its entry was processed before its completion was known.',
  'schedules histories', 'every interleaving of appending, applying, losing the leadership and receiving entries or snapshots',
  'Tests have one leader and never replace an appended entry.',
  'process/command_log/producer.rs process/command_log/consumer.rs process/completion.rs process/command_log/mod.rs process/raft_process/queue.rs',
  [('completion registered under the append lock', 'process/command_log/producer.rs, process/raft_process/queue.rs'), ('completion taken by the entry at its index', 'process/command_log/consumer.rs')],
  [answer_is_own, completion_registered, completion_taken, completion_always_taken, completion_dropped, completion_touch])
P('C22', 'A read sees every write committed before it was registered',
  'A query is registered by a leader at the commit index it reads after checking that it leads and that the barrier of its term is committed, and is executed only after the node applied its log up to that index. The answer goes to the client that asked, and no query takes the place of another.',
  'schedules histories', 'every interleaving of writes, application and reads on one node',
  'Tests read after the write was already applied.',
  'process/query_queue.rs process/raft_process/responder.rs process/raft_process/queue.rs process/thread/query_execution.rs',
  [('commit index at registration', 'process/raft_process/queue.rs'), ('pop up to the applied index', 'process/query_queue.rs')],
  [read_index, read_applied],
  ['the leader has not been deposed without learning of it (leadership is not confirmed by a round of heartbeats)'])
P('C23', 'Requests reach the leader unchanged or are refused',
  'A node that does not lead passes a request on, unchanged and for the same shard, to the node it believes to lead and to no other, never to itself; the client gets that node\'s answer, and an error when no leader is known. A node serves a request itself only while it leads.',
  'configurations histories', 'every request type, every role of the receiving node, every belief about the leader',
  'Tests contact nodes while leadership is stable.',
  'raft_service/mod.rs process/raft_process/responder.rs process/raft_process/mod.rs process/voter/mod.rs',
  [('forwarding', 'process/raft_process/responder.rs'), ('ballot read', 'process/voter/mod.rs')],
  [forwarded, served_by_leader, connected_to])

# ---------------------------------------------------------------- membership
P('C24', 'The membership is the last one in the log and changes by one server at a time',
  'A node uses the membership of the last configuration or snapshot in its log from the moment that entry is written, goes back to the one before it when the entry is replaced, and finds it again after a restart; what an error made it miss it takes up at the next attempt. A leader appends a configuration only when the last one is committed; it adds or removes the one server the request names, and no two changes are built from the same membership.',
  'histories schedules configurations crash_points', 'every order of membership requests, replaced entries, snapshots and restarts',
  'Tests change the membership of healthy clusters, one request after the other.',
  'process/peer_svc/mod.rs process/raft_process/cluster.rs process/raft_process/queue.rs process/raft_process/mod.rs process/raft_process/responder.rs process/command_log/mod.rs',
  [('set_membership', 'process/peer_svc/mod.rs'), ('membership rollback', 'process/raft_process/queue.rs'), ('committed-before-next check', 'process/raft_process/responder.rs'), ('restore at start-up', 'process/raft_process/mod.rs')],
  [config_from_log, config_on_insert, search_skips, config_restored, one_change, change_serialized])
P('C25', 'Peers follow the membership; clusters start and leaders leave in order',
  'Each member other than the node itself has a replication state, a replication activity and a heartbeat activity on the node for as long as it is a member, and nobody else has. A cluster is formed only by a node that has no members at that moment, as itself alone, at index 1. A leader steps down for not being a member only once the configuration without it is committed, and hands over to the peer whose log matches furthest.',
  'configurations histories schedules', 'every membership and every sequence of changes',
  'Tests look at the data the cluster serves, not at which peers it still talks to.',
  'process/peer_svc/mod.rs process/raft_process/cluster.rs process/voter/stepdown.rs process/thread/stepdown.rs',
  [('add_peer, remove_peer', 'process/peer_svc/mod.rs'), ('bootstrap_cluster', 'process/raft_process/cluster.rs'), ('try_stepdown, transfer_leadership', 'process/voter/stepdown.rs, process/peer_svc/mod.rs')],
  [peers_follow, bootstrap_once, stepdown_when_removed, handover_target, handover_taken, position_in_log])

# ---------------------------------------------------------------- snapshots
P('C30', 'A snapshot stands for applied entries and keeps their position and membership',
  'A node turns an entry of its log into a snapshot only when the application offers one for it, the entry has been applied there, and it is newer than the snapshot the node already has. The snapshot keeps the clocks of the entry and holds the membership of the last configuration up to it. The index of the last snapshot only moves forward, to a snapshot that has just been written to the log.',
  'histories schedules', 'every offer of a snapshot by the application, at any time relative to applying, receiving and compacting',
  'Tests take one snapshot of a short log with a fixed membership.',
  'process/command_log/mod.rs process/thread/advance_snapshot.rs process/raft_process/queue.rs process/command_log/consumer.rs',
  [('insert_snapshot', 'process/command_log/mod.rs'), ('advance_snapshot_index', 'process/command_log/consumer.rs')],
  [local_snapshot, snapshot_index])
P('C31', 'A snapshot is entered into the log only after its contents are stored',
  'A follower enters a snapshot of the leader in its log only after the application stored the contents fetched for that very index from the sender of the entry, and installs the contents of its own index when it is applied. The contents cross the network unchanged and a broken transfer arrives as a failure.',
  'crash_points schedules histories', 'every failure or crash while a snapshot is fetched, stored or installed',
  'Tests transfer a small snapshot over a healthy connection.',
  'process/raft_process/queue.rs process/command_log/mod.rs process/command_log/consumer.rs process/app.rs raft_service/stream.rs',
  [('fetch_snapshot before insert', 'process/raft_process/queue.rs'), ('install_snapshot', 'process/command_log/consumer.rs')],
  [data_before_entry, installed_own_index, snapshot_streamed])
P('C35', 'A received snapshot takes the place of the log in one step',
  'When a node takes over a snapshot from its leader, no activity ever processes an entry of the log it replaces or reads the application before the snapshot is installed: the positions of the activities move so that none finds work in what is replaced, and reads wait until the application is at the snapshot.',
  'schedules', 'every interleaving of the takeover with the activities that commit, apply and read',
  'Tests install snapshots on nodes with empty logs, with nothing going on.',
  'process/command_log/producer.rs process/command_log/consumer.rs process/thread/query_execution.rs process/query_queue.rs',
  [('order of the pointers in try_insert_entry', 'process/command_log/producer.rs'), ('query_execution', 'process/thread/query_execution.rs')],
  [snapshot_moves, snapshot_one_step, read_installed])
P('C32', 'Compaction deletes only what a snapshot covers; only the current one is served',
  'Log entries and contents of snapshots are deleted only below the index of the snapshot the node has, and the contents are served only for that index.',
  'schedules histories', 'every interleaving of compaction, snapshots, replication and requests for snapshots',
  'Tests compact once, long after everything was replicated.',
  'process/command_log/mod.rs process/thread/log_compaction.rs process/thread/snapshot_deleter.rs process/raft_process/responder.rs',
  [('delete_old_entries, delete_old_snapshots', 'process/command_log/mod.rs'), ('open_snapshot', 'process/raft_process/responder.rs')],
  [deleted_only_old, served_current])
P('C33', 'A restarted node goes on from the last snapshot in its log',
  'When a node starts it finds the last snapshot in its stored log, takes it as the position up to which nothing older exists, and starts committing and applying right before it, so that the state of the application is rebuilt from the snapshot and the entries behind it. A node with an empty log starts with the initial snapshot.',
  'crash_points histories', 'every content of the log a crash can leave behind',
  'Tests restart nodes with logs without snapshots, if at all.',
  'process/command_log/mod.rs process/raft_process/mod.rs',
  [('restore_state', 'process/command_log/mod.rs')],
  [boot_pointers, fresh_start])

# ---------------------------------------------------------------- replication
P('C34', 'A leader sends a follower its log in order and counts only what was acknowledged',
  'A leader sends each follower the entries of its own log, unchanged, in order and without gap from the position recorded for it, announced by the clock before the first. It takes the follower to hold an entry only after the follower acknowledged it in the same leadership; afterwards it goes on right behind, after a rejection it goes back. A new leadership begins to send no later than at the entry it begins with, and no answer leaves a follower without anything to get next.',
  'schedules histories', 'every loss, delay and rejection of a stream, and every change of leadership meanwhile',
  'Tests replicate over reliable connections under one leader.',
  'process/peer_svc/mod.rs process/peer_svc/replication.rs process/thread/replication.rs raft_service/stream.rs communicator/mod.rs communicator/stream.rs',
  [('prepare_replication_stream, advance_replication', 'process/peer_svc/mod.rs'), ('progress per peer', 'process/peer_svc/replication.rs')],
  [stream_sent, stream_received, match_is_known, next_moves, replicate_as_leader, progress_reset, connected_to])

# ---------------------------------------------------------------- storage
P('C14', 'What a store acknowledged is on disk, complete, and read back as written',
  'A successful write to the stores means a transaction with exactly that change was committed with full durability: a saved ballot replaces the one that is loaded at the next start, and only a store without a ballot gets the initial one. An entry that is to be inserted is queued, written under its index by the one writer of the database, and its submitter is told only after the commit of that transaction. Deletions remove exactly the indices below, or from, the one given, and get_entry, get_head_index and get_last_index answer from the stored table.',
  'crash_points schedules inputs', 'every crash between any two steps, every batch of queued entries of any number of shards',
  'Tests never crash between a write and its commit and run on an in-memory backend.',
  'backends/redb/mod.rs backends/redb/log.rs backends/redb/ballot.rs',
  [('Reaper: commit, then notify', 'backends/redb/log.rs'), ('save_ballot', 'backends/redb/ballot.rs'), ('one transaction per change', 'backends/redb/log.rs')],
  [stored_before_ok, ballot_stored, entry_queued, confirmed_after_commit, deleted_range, reads_answer])
P('C15', 'Nothing is lost between encoding and decoding what is stored or sent',
  'Every field of the commands stored in the log, of the stored ballot and entries, and of the other encoded messages is written by the encoder from that field and read back by the decoder into the same field and variant, so a node that restarts or receives a message works with the values that were written.',
  'inputs', 'every value of every encoded type',
  'Tests encode a few values and never restart a node with them.',
  'process/command.rs backends/redb/log.rs backends/redb/ballot.rs',
  [('derived codecs', 'process/command.rs, backends/redb')],
  [fields_complete])
P('C16', 'The shards of a node do not touch each other',
  'Each shard has its own log and its own ballot in the database: the tables are named by the shard alone, injectively, and the tables of logs and ballots differ. Every request, stream and heartbeat is handled by the process of the shard it names and by no other, and refused when the node has no such shard.',
  'configurations inputs schedules', 'every number of shards on a node, every mixture of requests to them',
  'Tests run few shards with small ids and do not mix wrong ids in.',
  'backends/redb/mod.rs backends/redb/log.rs raft_service/mod.rs node.rs communicator/heartbeat_multiplex.rs',
  [('table per shard', 'backends/redb'), ('process lookup', 'raft_service/mod.rs, node.rs')],
  [shard_tables, request_shard])
P('C36', 'Collected heartbeats reach every shard with its own term and commit position',
  'The heartbeats of all shards for one node are collected and sent together: each batch carries, for every shard that was queued, the term and the commit position last given for that shard, under the id of that shard and the sender that leads it; the receiver gives every shard exactly its own, and one missing shard does not keep the others from theirs. No heartbeat is sent a second time.',
  'configurations schedules', 'every number of shards, every order of queued heartbeats and periods',
  'Tests use one shard, or several that all have the same term.',
  'communicator/heartbeat_multiplex.rs communicator/mod.rs raft_service/mod.rs node.rs process/thread/heartbeat.rs',
  [('heartbeat buffer', 'communicator/heartbeat_multiplex.rs'), ('dispatch per shard', 'raft_service/mod.rs')],
  [heartbeat_collected, heartbeat_batched, heartbeat_delivered, connected_to])

# ---------------------------------------------------------------- failures and activities
P('C40', 'Requests and activities do not wait for each other for ever',
  'The locks of a node are taken in an order without a cycle, and none is asked for by a request that holds it already. No blocking lock is held while a request or activity waits for a timer, another lock, a node, the stores or the application, unless only one activity ever takes that lock; under the other locks nothing is waited for without a bound, in particular no answer of another node without a time limit.',
  'schedules', 'every interleaving of all requests and activities of a process, of all nodes of a cluster at once',
  'A test meets a deadlock only when two activities stop at exactly the wrong two points.',
  'process/command_log/mod.rs process/voter/mod.rs process/voter/election.rs process/voter/heartbeat.rs process/raft_process/mod.rs process/raft_process/responder.rs process/peer_svc/mod.rs process/command_log/consumer.rs process/command_log/producer.rs',
  [('append, snapshot, vote and membership locks', 'process/command_log/mod.rs, process/voter/mod.rs, process/raft_process/mod.rs'), ('time limit of vote requests', 'process/voter/election.rs')],
  [same_lock_order, no_wait_under_spin, bounded_under_lock])
P('C37', 'Every activity of a process runs from its start until the process is dropped',
  'A process that started runs one instance of each activity: commitment, both appliers, queries, elections, step-down, snapshots, compaction and deletion of snapshots. None of them ends by itself, whatever fails in a turn; every turn waits for a bounded time, so that a lost notification delays work but does not stop it and no activity spins. Dropping the process stops all of them, those for its peers included; the sender of heartbeats ends with its connection and the writer of the database with the last store.',
  'schedules histories', 'every failure of a store, of the application or of a request in any turn of any activity',
  'Tests have no failing stores and applications and do not look at activities that stopped.',
  'process/raft_process/mod.rs process/thread/mod.rs process/thread/advance_commit.rs process/thread/advance_kern.rs process/thread/advance_user.rs process/thread/advance_snapshot.rs process/thread/election.rs process/thread/log_compaction.rs process/thread/query_execution.rs process/thread/snapshot_deleter.rs process/thread/stepdown.rs process/thread/heartbeat.rs process/thread/replication.rs',
  [('threads started and kept', 'process/raft_process/mod.rs'), ('ThreadHandle', 'process/thread/mod.rs')],
  [activities_run, activities_last, turns_wait, stopped_when_dropped, writer_ends])
P('C42', 'A failed step stops what depends on it; success means it was done',
  'After a write of a ballot, a log entry or a snapshot, or the execution of a request, the activity goes on to the next visible step only if that one succeeded. A request is answered with success, and a process starts, only if every store access, application call and request passed on for it succeeded; a membership change is reported done only after the change that was asked for was handed to the leader and accepted.',
  'fault_sequences schedules', 'a failure of any single access to a store, call of the application or request to another node, at any point',
  'Tests have no store, application or network that fails.',
  'process/command_log/mod.rs process/command_log/producer.rs process/command_log/consumer.rs process/voter/election.rs process/raft_process/responder.rs process/raft_process/queue.rs raft_service/mod.rs process/raft_process/mod.rs communicator/mod.rs',
  [('? after each step', 'process/**'), ('errors of rpcs', 'communicator/mod.rs, raft_service/mod.rs')],
  [failure_stops, success_means_done, administered])

P('C41', 'A request given up by its client is not left half done',
  'A client, or a connection, that goes away while its request is executed stops at most reads: once a node began to execute a request that writes to its log or makes it stand for election, it does the rest of that request too, its peers and its membership included, with the locks held as if the client still waited.',
  'schedules', 'every await in every request handler as the point at which the caller goes away',
  'Tests wait for their answers; a request dropped between two particular steps does not occur.',
  'raft_service/mod.rs process/raft_process/responder.rs process/raft_process/queue.rs process/command_log/producer.rs process/voter/election.rs',
  [('requests run in tasks of their own', 'raft_service/mod.rs')],
  [not_given_up])

# ---------------------------------------------------------------- stated, but not decided by static analysis
NA = {}


def NOT(pid, title, statement, over, text, why, files, mechanism, reason):
    NA[pid] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=[S + f for f in files.split()], mechanism=mechanism, reason=reason)


NOT('C50', 'A cluster with a working majority gets a leader and keeps making progress',
    'While a majority of the members runs and messages between them arrive, a leader is elected after a while, requests sent to it are answered, and followers catch up.',
    'schedules fault_sequences', 'every fair schedule after the last fault',
    'Tests see one schedule on one machine.',
    'process/voter/election.rs process/voter/failure_detector.rs process/thread/mod.rs',
    [('randomised election timeout', 'process/voter/failure_detector.rs'), ('activities with periodic ticks', 'process/thread/mod.rs')],
    'Liveness under fairness: it quantifies over run-time durations (message delays against randomised timeouts) that no sound static argument can bound. The parts that are visible in the source '
    '(every activity runs, waits are bounded, locks are ordered, a failed candidate can stand again) are decided as C17, C37 and C40.')
NOT('C51', 'The failure detector suspects a leader that stopped and hardly one that runs',
    'A follower suspects the leader once no heartbeat has arrived for clearly longer than is usual, and does not suspect a leader whose heartbeats arrive as usual.',
    'inputs schedules', 'every sequence of arrival times',
    'Tests use regular arrivals on an idle machine.',
    'process/voter/failure_detector.rs', [('phi accrual detector over arrival times', 'process/voter/failure_detector.rs')],
    'A statement about the numeric behaviour of a statistical estimator (crate phi-detector, floating point) over measured times; a static argument has no bound for it. That an election starts only when '
    'the detector says so, and which node it watches, is decided in C06.')
NOT('C52', 'The history seen by all clients together is linearizable',
    'For every execution, the calls and answers of all clients can be put in one order that respects real time and in which the application, run alone, gives the same answers.',
    'histories schedules fault_sequences', 'every execution of a cluster, with retries and changes of the leader and the membership',
    'Tests run one or two clients on a stable cluster.',
    'process/raft_process/responder.rs process/command_log/consumer.rs process/query_queue.rs', [('replicated log, one order of application', 'process/command_log/consumer.rs')],
    'A global property of multi-node histories; the inductive steps it is made of are decided one by one (C01-C14, C20-C23), but their composition is a paper argument, not something the analysis of the source decides. '
    'It also does not hold without limits here: reads are served without a round of confirmation, and retries are recognised for a limited time (DESIGN.md, known limits).')
NOT('C53', 'Replicas that applied the same log hold the same application state',
    'Two nodes whose applications processed the same entries, or installed a snapshot and processed the entries behind it, answer every read alike.',
    'programs histories', 'every application',
    'Tests use one small deterministic application.',
    'process/raft_app.rs process/app.rs', [('RaftApp', 'process/raft_app.rs')],
    'Depends on code of the user (determinism of process_write, fidelity of make/install of snapshots), which is not in the repository. That every replica is given the same entries in the same order is decided in C08, C13 and C30.')
